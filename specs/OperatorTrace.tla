----------------------------- MODULE OperatorTrace ---------------------------
(* Every import of every model, checked against the operator function.       *)
EXTENDS TraceBase, Reuse
VARIABLE given
StBegin == Ev.ev = "begin" /\ given' = <<>>
StNew == Ev.ev = "new" /\ given' = given @@ (Ev.m :> [ops |-> Ev.ops, base |-> Ev.base])
StSet == /\ Ev.ev \in {"import", "setup", "fit"} /\ Ev.m \in DOMAIN given
         /\ LET g == given[Ev.m] IN
            /\ Ev.functions = Operators(g, Ev.dim)
            /\ Ev.vocabulary = Vocabulary(g, [dim |-> Ev.dim, params |-> Ev.params])
            /\ Ev.pinn = (IF Ev.torch THEN [inputs |-> Ev.dim + 1, gen |-> IF Ev.dim > 1 THEN "multi_AD" ELSE "AD"] ELSE [inputs |-> 0, gen |-> ""])
            /\ Ev.slots = Len(Ev.vocabulary)
         /\ UNCHANGED given
Step == More /\ (StBegin \/ StNew \/ StSet) /\ Advance
Reject == More /\ ~ENABLED Step /\ Rejected(IF Has(Ev, "m") /\ Ev.m \in DOMAIN given THEN Operators(given[Ev.m], Ev.dim) ELSE "") /\ SkipTrace /\ UNCHANGED given
TraceInit == l = 1 /\ given = <<>>
TraceSpec == TraceInit /\ [][Step \/ Reject]_<<l, given>>
=============================================================================

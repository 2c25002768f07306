------------------------------ MODULE ReuseTrace -----------------------------
(* One trace follows one component of the configuration through a history.   *)
(* "fresh" lines come first: what a newly constructed model of kind g shows   *)
(* after importing data d as the only thing that happens in its process.      *)
EXTENDS TraceBase, Reuse
(* "has" lines: what a model has of its own after a step of model "by".       *)
VARIABLES fresh, given, live, own
vs == <<fresh, given, live, own>>
StFresh == /\ Ev.ev = "fresh" /\ live = <<>> /\ fresh' = fresh @@ (<<Ev.g, Ev.d>> :> Ev.val) /\ UNCHANGED <<given, live, own>>
StNew == /\ Ev.ev = "new" /\ live' = live @@ (Ev.m :> Ev.g) /\ given' = given @@ (Ev.m :> Ev.given) /\ UNCHANGED fresh
         /\ own' = own @@ (Ev.m :> "nothing yet")
(* import, setup or fit of model m on data d: as if fresh                     *)
StSet == /\ Ev.ev \in {"import", "setup", "fit"} /\ Ev.m \in DOMAIN live
         /\ <<live[Ev.m], Ev.d>> \in DOMAIN fresh
         /\ Ev.val = fresh[<<live[Ev.m], Ev.d>>]
         /\ UNCHANGED vs
(* what the callers supplied (and the defaults) is still what it was          *)
StGiven == /\ Ev.ev = "given" /\ Ev.m \in DOMAIN given /\ Ev.val = given[Ev.m] /\ UNCHANGED vs
(* a model's record of its search, sampler, constraints, data and settings    *)
(* change by its own steps only                                              *)
StHas == /\ Ev.ev = "has" /\ Ev.m \in DOMAIN own
         /\ IF Ev.by = Ev.m THEN own' = [own EXCEPT ![Ev.m] = Ev.val]
            ELSE Ev.val = own[Ev.m] /\ own' = own
         /\ UNCHANGED <<fresh, given, live>>
Step == More /\ (StFresh \/ StNew \/ StSet \/ StGiven \/ StHas) /\ Advance
ResetTables == fresh' = <<>> /\ given' = <<>> /\ live' = <<>> /\ own' = <<>>
StBegin == /\ More /\ Ev.ev = "begin" /\ ResetTables /\ Advance
AnyStep == StBegin \/ Step
Reject == More /\ ~ENABLED AnyStep /\ Rejected(IF Has(Ev, "m") /\ Ev.m \in DOMAIN live /\ Has(Ev, "d") /\ <<live[Ev.m], Ev.d>> \in DOMAIN fresh
                                               THEN fresh[<<live[Ev.m], Ev.d>>] ELSE "") /\ SkipTrace /\ UNCHANGED vs
TraceInit == l = 1 /\ fresh = <<>> /\ given = <<>> /\ live = <<>> /\ own = <<>>
TraceSpec == TraceInit /\ [][AnyStep \/ Reject]_<<l, vs>>
=============================================================================

----------------------------- MODULE ExprTrace ------------------------------
(* Recorded evaluations of real candidates against what their tokens denote. *)
EXTENDS TraceBase, Expr
VARIABLES g, seen
vs == <<g, seen>>
ScaledTable == INSTANCE FnTable
Leaves(ls) == [n \in {ls[i].n : i \in 1..Len(ls)} |-> LET r == ls[CHOOSE i \in 1..Len(ls) : ls[i].n = n] IN [k |-> r.k, i |-> r.i]]
PolyOf(m) == [e \in {m[i].e : i \in 1..Len(m)} |-> R(m[CHOOSE i \in 1..Len(m) : m[i].e = e].c)]
StBegin == /\ Ev.ev = "begin" /\ seen' = [ok |-> 0, undef |-> 0, big |-> 0]
           /\ g' = IF Ev.torch THEN [torch |-> TRUE, pts |-> Ev.pts, m |-> Ev.m, nx |-> Ev.nx, leaf |-> Leaves(Ev.leaf), u |-> [i \in 1..Len(Ev.polys) |-> Trim(PolyOf(Ev.polys[i]))]]
                   ELSE [torch |-> FALSE, dim |-> Ev.dim, shape |-> Ev.shape, x |-> Ev.x, u |-> Ev.u, p |-> Ev.p, leaf |-> Leaves(Ev.leaf)]
Val(ts) == IF g.torch THEN TEval(g, ts) ELSE Eval(g, ts)
Only(S) == CHOOSE r \in S : TRUE
Judge(a, ts, st, v) == IF a.st = "big" THEN "big"
   ELSE IF a.st = "undef" THEN (IF st # "val" THEN "undef" ELSE "bad")
   ELSE IF st = "val" THEN (IF v = a.v THEN "ok" ELSE "bad")
   ELSE IF g.torch /\ ZeroDeriv(g, ts, 1) THEN "undef" ELSE "bad"
Verdict(ts, st, v) == Only({Judge(a, ts, st, v) : a \in {Val(ts)}})
Bad(d) == Rejected(d) /\ SkipTrace /\ UNCHANGED vs
StEval == Ev.ev = "eval" /\ UNCHANGED g /\ \E s \in {Verdict(Ev.toks, Ev.st, Ev.v)} :
   IF s = "bad" THEN Rejected(Val(Ev.toks)) /\ SkipTrace /\ UNCHANGED seen ELSE Advance /\ seen' = [seen EXCEPT ![s] = @ + 1]
(* the additive terms handed to the regression, and their values             *)
StSplit == Ev.ev = "split" /\ UNCHANGED vs /\
   IF /\ Ev.terms = Terms(Ev.toks)
      /\ Has(Ev, "vals") => Len(Ev.vals) = Len(Ev.terms) /\ \A i \in 1..Len(Ev.terms) : Verdict(Ev.terms[i], "val", Ev.vals[i]) # "bad"
   THEN Advance ELSE Rejected(Terms(Ev.toks)) /\ SkipTrace
StData == Ev.ev = "data" /\ UNCHANGED vs /\ PrintT("@@INFO " \o ToString(l) \o " values_checked " \o ToString(seen.ok)) /\ PrintT("@@INFO " \o ToString(l) \o " refusals_checked " \o ToString(seen.undef)) /\ PrintT("@@INFO " \o ToString(l) \o " values_out_of_range " \o ToString(seen.big)) /\ (IF g.torch THEN Ev.pts = g.pts ELSE Ev.x = g.x /\ Ev.u = g.u /\ Ev.p = g.p)
StFn == Ev.ev = "fn" /\ UNCHANGED vs /\ ScaledTable!Fn(Ev.name, Ev.at) = Ev.val
Others == (StBegin \/ StData \/ StFn) /\ Advance
Steps == More /\ (StEval \/ StSplit \/ Others)
Reject == More /\ Ev.ev \in {"data", "fn"} /\ ~ENABLED Others /\ Bad("-")
TraceInit == l = 1 /\ g = [torch |-> FALSE] /\ seen = [ok |-> 0, undef |-> 0, big |-> 0]
TraceSpec == TraceInit /\ [][Steps \/ Reject]_<<l, vs>>
=============================================================================

------------------------------ MODULE FitTrace ------------------------------
EXTENDS TraceBase, Fit
VARIABLES g, c, tot
vs == <<g, c, tot>>
Leaves(ls) == [n \in {ls[i].n : i \in 1..Len(ls)} |-> LET r == ls[CHOOSE i \in 1..Len(ls) : ls[i].n = n] IN [k |-> r.k, i |-> r.i]]
StBegin == /\ Ev.ev = "begin" /\ c' = Ev.cf /\ tot' = [fit |-> 0, refused |-> 0, skipped |-> 0]
           /\ g' = [dim |-> Ev.dim, shape |-> Ev.shape, x |-> Ev.x, u |-> Ev.u, p |-> Ev.p, leaf |-> Leaves(Ev.leaf)]
Bump(f) == tot' = [tot EXCEPT ![f] = @ + 1]
Sts(V) == {V[i].st : i \in 1..Len(V)}
(* reported terms are the candidate's additive terms, in order               *)
Lists == /\ Ev.terms = Terms(Ev.toks)
         /\ Ev.rep.terms = Ev.terms /\ Len(Ev.rep.w) = Len(Ev.w)
         /\ Len(Ev.w) \in (IF c.const THEN {Len(Ev.terms), Len(Ev.terms) + 1} ELSE {Len(Ev.terms)})
PrintedAs(e, q) == \A i \in 1..Len(e.w) : Near(e.rep.w[i] * e.w[i][2], 10000 * e.w[i][1], e.w[i][2])
Only(S) == CHOOSE r \in S : TRUE
Passes(b, v) == IF b THEN v ELSE "bad"
(* W: the term values on the scored points *)
FreeVerdict(W) ==
   IF \E i \in 1..Len(W) : \E p \in 1..Len(W[i]) : RAbs(W[i][p][1]) > 64 * W[i][p][2] \/ W[i][p][2] > 64 THEN "skipped"
   ELSE IF Ev.st = "invalid" THEN Passes(Refused(Ev) /\ Ev.tiny, "refused")
   ELSE Passes(/\ Lists /\ Predicts(W, Ev) /\ Normal(W, Ev.ut, Ev)
               /\ \A i \in 1..Len(Ev.w) : Near(Ev.rep.w[i], Ev.w[i], 1)
               /\ RewardOK(Ev.ut, Ev) /\ MseOK(Ev.ut, Ev), "fit")
PlantedVerdict(n) ==
   IF ~Ev.indep THEN Passes(Ev.st = "ok" => (Lists /\ Ev.mse = 0), "fit")
   ELSE IF \E i \in 1..n : TooSmall(Ev.cs[i]) \/ TooLarge(Ev.cs[i]) THEN Passes(Refused(Ev), "refused")
   ELSE IF c.const /\ TooLarge(Ev.cs[Len(Ev.cs)]) THEN Passes(Refused(Ev), "refused")
   ELSE Passes(ExactFit(c, Ev, Ev.cs) /\ Lists /\ PrintedAs(Ev, 1), "fit")
VerdictV(V) == LET ts == Ev.toks IN
   IF "undef" \in Sts(V) THEN Passes(Refused(Ev), "refused")
   ELSE IF "big" \in Sts(V) THEN "skipped"
   ELSE IF Doubtful(g, ts) /\ Ev.st = "invalid" THEN Passes(Refused(Ev), "refused")
   ELSE IF Has(Ev, "cs") THEN PlantedVerdict(Len(V))
   ELSE Only({FreeVerdict(W) : W \in {TLCEval([i \in 1..Len(V) |-> [p \in 1..Len(K) |-> V[i].v[K[p]]]]) : K \in {KeptPoints(g, c)}}})
Verdict == LET ts == Ev.toks IN
   IF TooDeep(c, ts) \/ Uneven(g, c, ts) \/ Fieldless(g, ts) THEN Passes(Refused(Ev), "refused")
   ELSE Only({VerdictV(V) : V \in {Values(g, ts)}})
StScore == Ev.ev = "score" /\ UNCHANGED <<g, c>> /\ \E v \in {Verdict} :
   IF v = "bad" THEN Rejected(<<Terms(Ev.toks), TooDeep(c, Ev.toks), Fieldless(g, Ev.toks), Uneven(g, c, Ev.toks)>>) /\ SkipTrace /\ UNCHANGED tot
   ELSE Advance /\ Bump(v)
Info(k, n) == PrintT("@@INFO " \o ToString(l) \o " " \o k \o " " \o ToString(n))
StEnd == Ev.ev = "end" /\ UNCHANGED vs /\ Info("candidates_fitted", tot.fit) /\ Info("candidates_refused", tot.refused) /\ Info("candidates_out_of_range", tot.skipped)
Steps == More /\ (StScore \/ ((StBegin \/ StEnd) /\ Advance))
TraceInit == l = 1 /\ g = [dim |-> 0] /\ c = [dim |-> 0] /\ tot = [fit |-> 0, refused |-> 0, skipped |-> 0]
TraceSpec == TraceInit /\ [][Steps]_<<l, vs>>
=============================================================================

---------------------------- MODULE SgaPoolTrace -----------------------------
(* Recorded searches: every round, the scores evaluated again, the report.   *)
EXTENDS TraceBase, SgaPool
VARIABLES p
vs == <<p>>
Tame(q) == SelectSeq(q, LAMBDA x : ~x.tiny /\ x.s < Bad)
Plain(q) == [i \in 1..Len(q) |-> [t |-> q[i].t, s |-> q[i].s]]
InitOK == Born(Plain(Tame(Ev.cands)), Ev.after, Ev.num)
RoundOK == Ev.before = p.pool /\ Round(Ev.before, Plain(Ev.cands), Ev.after, Len(p.pool))
(* the same equation, scored from a copy and from its text                   *)
AgainOK == Ev.s = Ev.copy /\ Ev.s = Ev.text
BestOK == Ev.s = p.best /\ Ev.s = Least(Scores(p.pool)) /\ [t |-> Ev.t, s |-> Ev.s] \in Members(p.pool)
(* a report: terms with coefficients, the prediction they form, the score    *)
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o "+" \o Cat(Tail(q))
Labels == [i \in 1..Len(Ev.terms) |-> Ev.terms[i].label]
IsSub(a, b) == LET RECURSIVE go(_, _) go(i, j) == IF i > Len(a) THEN TRUE ELSE IF j > Len(b) THEN FALSE ELSE IF a[i] = b[j] THEN go(i + 1, j + 1) ELSE go(i, j + 1) IN go(1, 1)
(* the listed terms are the always-present one and the equation's own, in order *)
TermsOK == IsSub(Labels, <<Ev.target>> \o Ev.texts)
(* residual energy (scaled integers) is the mean square error the score was computed from *)
ScoreOK == LET n == Len(Ev.ut) e == Sum([i \in 1..n |-> (Ev.ut[i] - Ev.pred[i]) * (Ev.ut[i] - Ev.pred[i])]) IN Ev.energy = 0 \/ Abs(e - Ev.energy) * 20 <= Ev.energy + 20 * n
ShortOK == Ev.short = Cat([i \in 1..Len(SelectSeq(Ev.terms, LAMBDA x : ~x.small)) |-> LET x == SelectSeq(Ev.terms, LAMBDA y : ~y.small)[i] IN x.cs \o x.label])
ReportOK == TermsOK /\ ScoreOK /\ (Has(Ev, "short") => ShortOK) /\ Ev.lhs = Ev.target \o "_" \o Ev.axis
WholeOK == Ev.best = Least({Tame(Ev.cands)[i].s : i \in 1..Len(Tame(Ev.cands))}) /\ \E i \in 1..Len(Ev.cands) : Ev.cands[i].t = Ev.t /\ Ev.cands[i].s = Ev.best
Steps == More /\
   \/ Ev.ev = "init" /\ \E ok \in {InitOK} : IF ok THEN Advance /\ p' = [pool |-> Ev.after, best |-> Ev.after[1].s] ELSE Rejected(<<Ev.ev>>) /\ SkipTrace /\ UNCHANGED vs
   \/ Ev.ev = "round" /\ \E ok \in {RoundOK /\ Ev.after[1].s <= p.best} : IF ok THEN Advance /\ p' = [pool |-> Ev.after, best |-> Ev.after[1].s] ELSE Rejected(<<Ev.ev>>) /\ SkipTrace /\ UNCHANGED vs
   \/ Ev.ev \in {"again", "best", "report", "whole"} /\ UNCHANGED vs /\
      \E ok \in {IF Ev.ev = "again" THEN AgainOK ELSE IF Ev.ev = "best" THEN BestOK ELSE IF Ev.ev = "whole" THEN WholeOK ELSE ReportOK} :
        IF ok THEN Advance ELSE Rejected(IF Ev.ev = "report" THEN <<TermsOK, ScoreOK>> ELSE <<Ev.ev>>) /\ Advance
   \/ Ev.ev \in {"hang", "raised"} /\ UNCHANGED vs /\ Rejected(<<Ev.ev>>) /\ SkipTrace
TraceInit == l = 1 /\ p = [pool |-> <<>>, best |-> 0]
TraceSpec == TraceInit /\ [][Steps]_<<l, vs>>
=============================================================================

----------------------------- MODULE EqSeqTrace ------------------------------
(* Recorded sampling steps, sequences, clean-ups, term values and scores.    *)
EXTENDS TraceBase, EqSeq, EqTerm
Abs(x) == IF x < 0 THEN -x ELSE x
(* one sampling step: s still carries the start symbol; mask[i+1] = token i allowed *)
StepOK == LET s == Tail(Ev.s) n == Len(s) + 1 IN
          /\ IF Odd(n) THEN Ev.tok >= Ut ELSE Ev.tok \in Ops
          /\ Ev.tok + 1 <= Len(Ev.mask) /\ Ev.mask[Ev.tok + 1] = 1
SeqOK == Sequence(Ev.s, Ev.max) /\ \A i \in 2..Len(Ev.s) : Ev.mask[Ev.s[i] + 1] = 1
CleanOK == Ev.out = Concise(Ev.s)
(* tokens available although they need a variable that is not there          *)
Set(q) == {q[i] : i \in 1..Len(q)}
MaskOK == \A i \in 1..Len(Ev.needs) : Ev.mask[i] = 1 => Set(Ev.needs[i]) \subseteq Set(Ev.vars)
TermOK == Ev.word \in Known /\ Ev.val = Term(Ev.word, Ev.u, Ev.v, Ev.w, Ev.x0)
(* -------- the score of an equation with at most two unknown columns: the   *)
(* columns of every case as integers; R2 by Gram determinants                *)
RECURSIVE Dot(_, _, _)
Dot(a, b, k) == IF k = 0 THEN 0 ELSE a[k] * b[k] + Dot(a, b, k - 1)
G(a, b) == Dot(a, b, Len(a))
RECURSIVE Tot(_, _)
Tot(a, k) == IF k = 0 THEN 0 ELSE a[k] + Tot(a, k - 1)
Fac(v, g, r) == LET RECURSIVE F(_) F(i) == IF i > Len(g) THEN 1 ELSE IF i = 1 \/ g[i - 1] = Times THEN v[g[i]][r] * F(i + 2) ELSE F(i + 2) IN F(1)
Den(v, g, r) == LET RECURSIVE F(_) F(i) == IF i > Len(g) THEN 1 ELSE IF i > 1 /\ g[i - 1] = Over THEN v[g[i]][r] * F(i + 2) ELSE F(i + 2) IN F(1)
(* value of a group at a row; rows where it does not divide evenly are not generated *)
Col(v, g, n) == [r \in 1..n |-> Fac(v, g, r) \div Den(v, g, r)]
(* n/d to 4 digits, both positive                                            *)
RECURSIVE Digits(_, _, _)
Digits(n, d, k) == IF k = 0 THEN n \div d ELSE LET q == n \div d IN q * (CASE k = 4 -> 10000 [] k = 3 -> 1000 [] k = 2 -> 100 [] k = 1 -> 10) + Digits((n % d) * 10, d, k - 1)
(* unexplained fraction times 10^4, rounded down                             *)
Unexplained(b, as) == LET n == Len(b) sst == n * G(b, b) - Tot(b, n) * Tot(b, n) IN
  IF Len(as) = 1 THEN LET x == as[1] gg == G(x, x) IN Digits(n * (G(b, b) * gg - G(b, x) * G(b, x)), gg * sst, 4)
  ELSE LET x == as[1] y == as[2] bb == G(b, b) bx == G(b, x) bY == G(b, y) xx == G(x, x) xy == G(x, y) yy == G(y, y)
           d2 == xx * yy - xy * xy
           d3 == bb * (xx * yy - xy * xy) - bx * (bx * yy - xy * bY) + bY * (bx * xy - xx * bY)
       IN Digits(n * d3, d2 * sst, 4)
(* 1 - 0.02 log10 k for k columns: what is taken off, in 10^-5               *)
Pen(k) == CASE k = 2 -> 602 [] k = 3 -> 954
Table(t) == [k \in {t[i][1] : i \in 1..Len(t)} |-> t[CHOOSE i \in 1..Len(t) : t[i][1] = k][2]]
OneCase(gs, case) == LET v == Table(case) n == Len(case[1][2]) b == Col(v, gs[1], n) as == [i \in 1..(Len(gs) - 1) |-> Col(v, gs[i + 1], n)]
                     x == 10000 - Unexplained(b, as)
                     IN x - (x * Pen(Len(gs))) \div 100000
RECURSIVE SumC(_, _)
SumC(gs, k) == IF k = 0 THEN 0 ELSE OneCase(gs, Ev.cases[k]) + SumC(gs, k - 1)
(* combinations the search excludes, and equations in which x does not occur *)
Banned(c) == LET T == {c[i] : i \in {j \in 1..Len(c) : Odd(j)}} IN
   {7, 29} \subseteq T \/ {7, 30} \subseteq T \/ {29, 30} \subseteq T \/ {7, 19, 21} \subseteq T \/ {22, 46} \subseteq T \/ T \cap Set(Ev.xs) = {}
ScoreOK == LET c == Concise(Ev.s) gs == Groups(c) IN
  IF ~Readable(c) \/ Banned(c) THEN Ev.score = 0 ELSE Abs(SumC(gs, Len(Ev.cases)) - Ev.score * Len(Ev.cases)) <= 3 * Len(Ev.cases)
(* whatever the score, it is a number, and an unreadable sequence has score 0 *)
NumberOK == Ev.finite /\ ((~Readable(Concise(Ev.s)) \/ Banned(Concise(Ev.s))) => Ev.score = 0) /\ Ev.again = Ev.score
TrainOK == Ev.out = <<Start>> \o Concise(Ev.s)
RECURSIVE Cat(_, _)
Cat(w, q) == IF q = <<>> THEN "" ELSE w[Head(q)] \o Cat(w, Tail(q))
TextOK == Ev.text = Cat(Table(Ev.words), Body(Concise(Ev.s)))
(* terms without a number are excluded from then on, nothing else is          *)
ExclOK == \A i \in 1..Len(Ev.before) : Ev.after[i] = (IF Readable(Concise(Ev.s)) /\ (i - 1) \in Set(Ev.nan) /\ \E j \in 1..Len(Concise(Ev.s)) : Odd(j) /\ Concise(Ev.s)[j] = i - 1 THEN 0 ELSE Ev.before[i])
Verdict == CASE Ev.ev = "step" -> StepOK [] Ev.ev = "seq" -> SeqOK [] Ev.ev = "clean" -> CleanOK [] Ev.ev = "mask" -> MaskOK
             [] Ev.ev = "term" -> TermOK [] Ev.ev = "score" -> ScoreOK [] Ev.ev = "number" -> NumberOK [] Ev.ev = "train" -> TrainOK
             [] Ev.ev = "text" -> TextOK [] Ev.ev = "excl" -> ExclOK [] Ev.ev = "same" -> Ev.a = Ev.b [] OTHER -> FALSE
Steps == More /\ \E ok \in {Verdict} : IF ok THEN Advance ELSE Rejected(<<Ev.ev>>) /\ Advance
TraceInit == l = 1
TraceSpec == TraceInit /\ [][Steps]_<<l>>
=============================================================================

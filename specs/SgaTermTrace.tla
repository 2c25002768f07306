---------------------------- MODULE SgaTermTrace ----------------------------
(* The operand table of a problem and the values of terms over it.           *)
EXTENDS TraceBase, SgaExpr
VARIABLES g, seen
vs == <<g, seen>>
Fn(ps) == [n \in {ps[i][1] : i \in 1..Len(ps)} |-> ps[CHOOSE i \in 1..Len(ps) : ps[i][1] = n][2]]
Given == [dim |-> Len(Ev.axes), axes |-> Ev.axes, shape |-> Ev.shape, x |-> Ev.x, fields |-> Fn(Ev.fields), params |-> Fn(Ev.params), lhs |-> Ev.lhs, target |-> Ev.target]
PolyOf(m) == Trim([e \in {m[i].e : i \in 1..Len(m)} |-> R(m[CHOOSE i \in 1..Len(m) : m[i].e = e].c)])
Auto(h) == IF Has(Ev, "poly") THEN h @@ [poly |-> [f \in DOMAIN h.fields |-> PolyOf(Fn(Ev.poly)[f])]] ELSE h
G0 == Auto(IF Ev.cut THEN Cut(Given) ELSE Given)
Set(q) == {q[i] : i \in 1..Len(q)}
Same(A, v) == IF A.st = "ok" THEN A.v = v ELSE A.st = "big"
(* every operand is the array it is named after                              *)
OperandsOK(h) == /\ Set(Ev.names) = Operands(h) /\ Len(Ev.names) = Cardinality(Operands(h))
                 /\ \A i \in 1..Len(Ev.names) : Same(SLeaf(h, Ev.names[i]), Ev.vals[i])
                 /\ Set(Ev.den) = Free(h) /\ Len(Ev.den) = Cardinality(Free(h))
                 /\ Same(GradOf(h, h.target, AxisIx(h, h.lhs)), Ev.ut)
BeginOK == IF ~Unambiguous(Given) THEN FALSE ELSE OperandsOK(G0)
(* a term: its value, or that it was left out                                *)
Verdict(A) == IF UsesLhs(g, Ev.toks) THEN (IF Ev.st = "out" THEN "out" ELSE "bad")
   ELSE IF A.st = "big" THEN "big"
   ELSE IF A.st = "undef" THEN (IF Ev.st = "val" THEN "bad" ELSE "out")
   ELSE IF IsZero(A) THEN (IF Ev.st = "out" THEN "out" ELSE "bad")
   ELSE IF Ev.st = "val" /\ Ev.v = A.v THEN "val" ELSE "bad"
TermVerdict == IF UsesLhs(g, Ev.toks) THEN Verdict(Arr("ok", TRUE, <<>>)) ELSE Verdict(SEval(g, Ev.toks, 1))
(* a reported prediction is the sum of coefficient times term value (coefficients and prediction in 1024ths, rounded) *)
IAbs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE ISum(_)
ISum(q) == IF q = <<>> THEN 0 ELSE Head(q) + ISum(Tail(q))
Fits(a) == ~Marked(a) /\ IAbs(a[1]) <= 60 * a[2] /\ 16 % a[2] = 0
PredOK == LET A == [k \in 1..Len(Ev.terms) |-> SEval(g, Ev.terms[k].toks, 1)] IN
  (\A k \in 1..Len(A) : A[k].st = "ok") => \A i \in 1..Len(Ev.pred) :
     (\A k \in 1..Len(A) : Fits(A[k].v[i])) =>
       LET v == [k \in 1..Len(A) |-> (16 \div A[k].v[i][2]) * A[k].v[i][1]] IN
       IAbs(ISum([k \in 1..Len(v) |-> v[k] * Ev.terms[k].c]) - 16 * Ev.pred[i]) <= ISum([k \in 1..Len(v) |-> IAbs(v[k])]) + 64
Steps == More /\
   \/ Ev.ev = "pred" /\ UNCHANGED vs /\ \E ok \in {PredOK} : IF ok THEN Advance ELSE Rejected(<<Ev.ev>>) /\ Advance
   \/ Ev.ev = "begin" /\ \E ok \in {BeginOK} : IF ok THEN Advance /\ g' = G0 /\ seen' = [val |-> 0, out |-> 0, big |-> 0]
                                               ELSE Rejected(<<Ev.ev>>) /\ SkipTrace /\ UNCHANGED vs
   \/ Ev.ev = "term" /\ UNCHANGED g /\ \E v \in {TermVerdict} : IF v = "bad" THEN Rejected(IF UsesLhs(g, Ev.toks) THEN <<>> ELSE SEval(g, Ev.toks, 1)) /\ Advance /\ UNCHANGED seen
                                               ELSE Advance /\ seen' = [seen EXCEPT ![v] = @ + 1]
   \/ Ev.ev = "same" /\ UNCHANGED vs /\ \E ok \in {Ev.before = Ev.after} : IF ok THEN Advance ELSE Rejected(<<Ev.ev>>) /\ SkipTrace
   \/ Ev.ev = "end" /\ UNCHANGED vs /\ Advance /\ PrintT("@@INFO " \o ToString(l) \o " term_values_checked " \o ToString(seen.val)) /\ PrintT("@@INFO " \o ToString(l) \o " terms_left_out " \o ToString(seen.out)) /\ PrintT("@@INFO " \o ToString(l) \o " terms_out_of_range " \o ToString(seen.big))
TraceInit == l = 1 /\ g = [dim |-> 0] /\ seen = [val |-> 0, out |-> 0, big |-> 0]
TraceSpec == TraceInit /\ [][Steps]_<<l, vs>>
=============================================================================

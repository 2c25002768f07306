--------------------------- MODULE TypesetTrace ----------------------------
(* What was typeset, read back, is what was discovered.                      *)
EXTENDS TraceBase, Typeset
VARIABLES seen
Base(t) == IF t \in {"add_t", "sub_t", "mul_t", "div_t", "diff_t", "diff2_t", "diff3_t", "diff4_t", "n2_t", "n3_t", "n4_t", "n5_t", "lap_t", "sin_t", "cos_t", "exp_t", "log_t", "sqrt_t", "tan_t", "expneg_t", "logabs_t", "sigmoid_t", "abs_t"} THEN SubSeq(t, 1, Len(t) - 2) ELSE t
Fns == {"sin", "cos", "tan", "exp", "log", "sqrt", "abs"}
Arity(t) == IF Base(t) \in {"add", "sub", "mul", "div", "diff", "diff2", "diff3", "diff4", "+", "-", "*", "/", "d", "d^2", "Diff", "Diff2", "Diff_3", "Diff2_3"} THEN 2
            ELSE IF Base(t) \in Fns \cup {"n2", "n3", "n4", "n5", "^2", "^3", "lap", "lap_3", "sigmoid", "expneg", "logabs"} THEN 1 ELSE 0
RECURSIVE EndOf(_, _)
EndOf(ts, i) == IF Arity(ts[i]) = 0 THEN i ELSE IF Arity(ts[i]) = 1 THEN EndOf(ts, i + 1) ELSE EndOf(ts, EndOf(ts, i + 1) + 1)
Order(t) == CASE Base(t) \in {"diff2", "d^2", "Diff2", "Diff2_3"} -> 2 [] Base(t) = "diff3" -> 3 [] Base(t) = "diff4" -> 4 [] OTHER -> 1
RECURSIVE DerN(_, _, _)
DerN(e, a, k) == IF k = 0 THEN e ELSE DerN(<<"der", e, a>>, a, k - 1)
(* the discovered expression from its prefix form                            *)
RECURSIVE Prefix(_, _)
Prefix(ts, i) == LET t == Base(ts[i]) j == EndOf(ts, i + 1) + 1 IN
  CASE t \in {"add", "+"} -> <<"add", Prefix(ts, i + 1), Prefix(ts, j)>>
    [] t \in {"sub", "-"} -> <<"sub", Prefix(ts, i + 1), Prefix(ts, j)>>
    [] t \in {"mul", "*"} -> <<"mul", Prefix(ts, i + 1), Prefix(ts, j)>>
    [] t \in {"div", "/"} -> <<"div", Prefix(ts, i + 1), Prefix(ts, j)>>
    [] t \in {"n2", "^2"} -> <<"pow", Prefix(ts, i + 1), 2>>
    [] t \in {"n3", "^3"} -> <<"pow", Prefix(ts, i + 1), 3>>
    [] t = "n4" -> <<"pow", Prefix(ts, i + 1), 4>>
    [] t = "n5" -> <<"pow", Prefix(ts, i + 1), 5>>
    [] t \in Fns -> <<"fn", Prefix(ts, i + 1), t>>
    [] t = "expneg" -> <<"fn", <<"mul", <<"num", 0 - 1, 1>>, Prefix(ts, i + 1)>>, "exp">>
    [] t = "logabs" -> <<"fn", <<"fn", Prefix(ts, i + 1), "abs">>, "log">>
    [] t = "sigmoid" -> <<"div", <<"num", 1, 1>>, <<"add", <<"num", 1, 1>>, <<"fn", <<"mul", <<"num", 0 - 1, 1>>, Prefix(ts, i + 1)>>, "exp">>>>>>
    [] t \in {"lap", "lap_3"} -> <<"lap", Prefix(ts, i + 1)>>
    [] Arity(t) = 2 -> DerN(Prefix(ts, i + 1), ts[j], Order(t))
    [] t = "0" -> <<"num", 0, 1>>
    [] t = "1" -> <<"num", 1, 1>>
    [] OTHER -> <<"var", t>>
Deriv(e, q) == LET RECURSIVE G(_, _) G(x, k) == IF k > Len(q) THEN x ELSE G(<<"der", x, q[k]>>, k + 1) IN G(e, 1)
Tab(ps) == [n \in {ps[i][1] : i \in 1..Len(ps)} |-> ps[CHOOSE i \in 1..Len(ps) : ps[i][1] = n][2]]
Set(q) == {q[i] : i \in 1..Len(q)}
Nm == [names |-> Tab(Ev.names), axes |-> Tab(Ev.axes), fun |-> {"laplacian"}]
SetToSeq2(S) == LET RECURSIVE F(_) F(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE x \in X : TRUE IN <<x>> \o F(X \ {x}) IN F(S)
RECURSIVE SumT(_, _)
SumT(ts, k) == LET e == <<"mul", <<"num", ts[k].w, ts[k].wd>>, Prefix(ts[k].toks, 1)>> IN IF k = 1 THEN e ELSE <<"add", SumT(ts, k - 1), e>>
Found == IF Ev.terms = <<>> THEN <<"num", 0, 1>> ELSE SumT(Ev.terms, Len(Ev.terms))
(* equal as functions: on two pseudo-random instances                        *)
Agree(e, f, canon) ==
  LET vs == SetToSeq2((Names(e) \cup Names(f)) \ Set(canon))
      C(s) == [axes |-> canon, space |-> Ev.space, deg |-> MaxI(Ord(e), Ord(f)), seed |-> s]
      Ok(s) == LET v == JVal(C(s), vs, f) IN v = 0 - 1 \/ JVal(C(s), vs, e) = v
  IN Ok(101) /\ Ok(20011)
(* divides by something identically zero: denotes nothing                    *)
Nowhere(f, canon) == LET vs == SetToSeq2(Names(f) \ Set(canon)) C(s) == [axes |-> canon, space |-> Ev.space, deg |-> Ord(f), seed |-> s] IN
  JVal(C(101), vs, f) = 0 - 1 /\ JVal(C(20011), vs, f) = 0 - 1
LhsOK == LET r == Whole(Nm, Ev.lhs) IN ~Bad(r) /\ r = (IF Ev.axis = "tt" THEN <<"der", <<"der", <<"var", Ev.field>>, "t">>, "t">> ELSE <<"der", <<"var", Ev.field>>, Ev.axis>>)
EqOK == LET r == Whole(Nm, Ev.rhs) IN LhsOK /\ (IF Bad(r) THEN Nowhere(Found, Ev.canon) ELSE Agree(r, Found, Ev.canon))
(* one term with a coefficient given to limited precision: units of 1e-7     *)
IAbs(x) == IF x < 0 THEN 0 - x ELSE x
CoefOK == LET q == Ev.rhs neg == Is(q, 1, "-") a == IF neg THEN Tail(q) ELSE q
              has == a # <<>> /\ a[1].k = "num" IN
   /\ IAbs((IF neg THEN 0 - 1 ELSE 1) * (IF has THEN Ev.shown ELSE 10000000) - Ev.w) <= Ev.tol
   /\ LET b == IF has THEN Tail(a) ELSE a r == IF b = <<>> THEN <<"num", 1, 1>> ELSE Whole(Nm, b) IN ~Bad(r) /\ Agree(r, Prefix(Ev.toks, 1), Ev.canon)
Verdict == IF Ev.ev = "eq" THEN EqOK ELSE IF Ev.ev = "coef" THEN CoefOK ELSE IF Ev.ev = "same" THEN Ev.a = Ev.b ELSE FALSE
Steps == More /\ \E ok \in {Verdict} :
   IF ok THEN Advance /\ seen' = (IF Ev.first THEN 1 ELSE seen + 1) /\ (Ev.nxt = l + 1 => PrintT("@@INFO " \o ToString(l) \o " typeset_read_back " \o ToString(seen')))
   ELSE Rejected(<<Ev.ev>> \o (IF Ev.ev = "eq" THEN <<Whole(Nm, Ev.rhs)>> ELSE <<>>)) /\ Advance /\ UNCHANGED seen
TraceInit == l = 1 /\ seen = 0
TraceSpec == TraceInit /\ [][Steps]_<<l, seen>>
=============================================================================

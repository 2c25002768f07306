-------------------------------- MODULE Expr --------------------------------
(* What a candidate's token sequence denotes: prefix expressions over fields *)
(* on a grid (values are exact rationals) with the finite-difference         *)
(* derivatives of each data dimension, and polynomials with exact            *)
(* derivatives for the automatic-differentiation engine.                     *)
EXTENDS Rat, TLC, FiniteSets
Binary == {"add", "sub", "mul", "div", "protected_div", "add_t", "sub_t", "mul_t", "div_t"}
Deriv1 == {"diff", "Diff", "Diff_3", "diff_t"}
Deriv2 == {"diff2", "Diff2", "Diff2_3", "diff2_t"}
Deriv3 == {"diff3", "diff3_t"}
Deriv4 == {"diff4", "diff4_t"}
Derivs == Deriv1 \cup Deriv2 \cup Deriv3 \cup Deriv4
Laps == {"lap", "lap_3", "lap_t"}
Unary == {"sin", "cos", "tan", "exp", "log", "sqrt", "n2", "n3", "n4", "n5", "neg", "abs", "tanh", "inv", "logabs", "expneg", "sigmoid",
          "protected_exp", "protected_log", "protected_logabs", "protected_sqrt", "protected_inv", "protected_expneg", "protected_n2",
          "protected_n3", "protected_n4", "protected_sigmoid", "n2_t", "n3_t"} \cup Laps
Arity(t) == IF t \in Binary \cup Derivs THEN 2 ELSE IF t \in Unary THEN 1 ELSE 0
Sums == {"add", "add_t", "sub", "sub_t"}
RECURSIVE EndOf(_, _)     \* index of the last token of the expression that starts at i
EndOf(ts, i) == IF Arity(ts[i]) = 0 THEN i ELSE IF Arity(ts[i]) = 1 THEN EndOf(ts, i + 1) ELSE EndOf(ts, EndOf(ts, i + 1) + 1)
RECURSIVE SplitAt(_, _)   \* the additive terms of the expression starting at i, left to right
SplitAt(ts, i) == IF ts[i] \in Sums THEN SplitAt(ts, i + 1) \o SplitAt(ts, EndOf(ts, i + 1) + 1) ELSE <<SubSeq(ts, i, EndOf(ts, i))>>
Terms(ts) == SplitAt(ts, 1)
RECURSIVE SignsAt(_, _, _)
SignsAt(ts, i, s) == IF ts[i] \in Sums THEN SignsAt(ts, i + 1, s) \o SignsAt(ts, EndOf(ts, i + 1) + 1, IF ts[i] \in {"sub", "sub_t"} THEN -s ELSE s) ELSE <<s>>
Signs(ts) == SignsAt(ts, 1, 1)

(* ---- fields on a grid.  g = [dim, shape, x, u, p]: x[k] the k-th coordinate's values, u[k] / p[k] flat (row major) fields *)
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
Size(g) == Prod(g.shape)
Stride(g, a) == Prod(SubSeq(g.shape, a + 1, Len(g.shape)))
AxisOf(g, k) == IF g.dim = 1 THEN 1 ELSE k + 1            \* array axis of coordinate k (time leads in N-D data)
At(g, a, p) == ((p - 1) \div Stride(g, a)) % g.shape[a]    \* 0-based index of point p along axis a
Move(g, a, p, i) == p + (i - At(g, a, p)) * Stride(g, a)
Arr(st, ex, v) == [st |-> st, ex |-> ex, v |-> v]
Worst(S) == IF "undef" \in S THEN "undef" ELSE IF "big" \in S THEN "big" ELSE "ok"
(* seal: classify a freshly computed array *)
Seal(ex, v) == LET w == TLCEval(v)
                   bad == {i \in DOMAIN w : Marked(w[i])}
               IN IF \E i \in bad : w[i] = Undef THEN Arr(IF ex THEN "undef" ELSE "big", ex, w)
                  ELSE IF bad # {} THEN Arr("big", FALSE, w)
                  ELSE Arr("ok", ex /\ \A i \in DOMAIN w : Dyadic(w[i][2]), w)
Map1(F(_), a) == IF a.st # "ok" THEN a ELSE Seal(a.ex, [i \in DOMAIN a.v |-> F(a.v[i])])
Map2(F(_, _), a, b) == IF Worst({a.st, b.st}) # "ok" THEN Arr(Worst({a.st, b.st}), FALSE, <<>>)
                       ELSE Seal(a.ex /\ b.ex, [i \in DOMAIN a.v |-> F(a.v[i], b.v[i])])
H == <<1, 2>>
T3 == <<3, 2>>
(* weights and neighbours of the stencils at position i of n *)
St1(i, n, per) == IF per THEN <<<<<<-1, 2>>, (i - 1) % n>>, <<H, (i + 1) % n>>>>
                  ELSE IF i = 0 THEN <<<<<<-3, 2>>, 0>>, <<R(2), 1>>, <<<<-1, 2>>, 2>>>>
                  ELSE IF i = n - 1 THEN <<<<T3, n - 1>>, <<R(-2), n - 2>>, <<H, n - 3>>>>
                  ELSE <<<<<<-1, 2>>, i - 1>>, <<H, i + 1>>>>
St2(i, n, per) == IF per THEN <<<<R(1), (i - 1) % n>>, <<R(-2), i>>, <<R(1), (i + 1) % n>>>>
                  ELSE IF i = 0 THEN <<<<R(2), 0>>, <<R(-5), 1>>, <<R(4), 2>>, <<R(-1), 3>>>>
                  ELSE IF i = n - 1 THEN <<<<R(2), n - 1>>, <<R(-5), n - 2>>, <<R(4), n - 3>>, <<R(-1), n - 4>>>>
                  ELSE <<<<R(1), i - 1>>, <<R(-2), i>>, <<R(1), i + 1>>>>
RECURSIVE SumSt(_, _, _, _, _)
SumSt(g, a, v, p, st) == IF st = <<>> THEN R(0) ELSE Add(Mul(Head(st)[1], v[Move(g, a, p, Head(st)[2])]), SumSt(g, a, v, p, Tail(st)))
Spacing(g, k) == Sub(g.x[k][3], g.x[k][2])
FD1(g, k, A) == LET a == AxisOf(g, k) n == g.shape[a] h == Spacing(g, k) IN
                IF A.st # "ok" THEN A ELSE Seal(A.ex, [p \in 1..Size(g) |-> Div(SumSt(g, a, A.v, p, St1(At(g, a, p), n, g.dim = 2)), h)])
FD2(g, k, A) == LET a == AxisOf(g, k) n == g.shape[a] h == Spacing(g, k) IN
                IF A.st # "ok" THEN A ELSE Seal(A.ex, [p \in 1..Size(g) |-> Div(SumSt(g, a, A.v, p, St2(At(g, a, p), n, g.dim = 2)), Mul(h, h))])
FD(g, t, k, A) == IF t \in Deriv1 THEN FD1(g, k, A) ELSE IF t \in Deriv2 THEN FD2(g, k, A)
                  ELSE IF t \in Deriv3 THEN FD1(g, k, FD2(g, k, A)) ELSE FD2(g, k, FD2(g, k, A))
Plus(a, b) == Map2(Add, a, b)
LapF(g, A) == LET d == [k \in 1..g.dim |-> FD2(g, k, A)] IN IF g.dim = 2 THEN Plus(d[1], d[2]) ELSE Plus(Plus(d[1], d[2]), d[3])
Small(b) == ~Less(<<1, 1000>>, AbsR(b))
Trans(a) == IF Marked(a) THEN a ELSE IF a[1] = 0 THEN Undef ELSE Big
LogR(a) == IF Marked(a) THEN a ELSE IF a[1] <= 0 THEN Undef ELSE IF a = R(1) THEN R(0) ELSE Big
At0(a, v) == IF Marked(a) THEN a ELSE IF a[1] = 0 THEN v ELSE Big
LogAbs(a) == IF Marked(a) THEN a ELSE IF a[1] = 0 THEN Undef ELSE IF AbsR(a) = R(1) THEN R(0) ELSE Big
Sq(a) == Mul(a, a)
Cube(a) == Pow(a, 3)
P4(a) == Pow(a, 4)
P5(a) == Pow(a, 5)
InvR(a) == IF Marked(a) THEN a ELSE IF a[1] = 0 THEN Undef ELSE Inv(a)
PDiv(a, b) == IF Marked(a) \/ Marked(b) THEN Mark2(a, b) ELSE IF Small(b) THEN R(1) ELSE Div(a, b)
PInv(a) == IF Marked(a) THEN a ELSE IF Small(a) THEN R(0) ELSE Inv(a)
PLog(a) == IF Marked(a) THEN a ELSE IF Small(a) \/ AbsR(a) = R(1) THEN R(0) ELSE Big
PSqrt(a) == IF Marked(a) THEN a ELSE Sqrt(AbsR(a))
Zero0(a) == At0(a, R(0))
Zero1(a) == At0(a, R(1))
ZeroH(a) == At0(a, H)
(* torch division: a denominator below 1e-8 is replaced by 1e-8 *)
TDiv(a, b) == IF Marked(a) \/ Marked(b) THEN Mark2(a, b) ELSE IF b[1] = 0 THEN (IF a[1] = 0 THEN R(0) ELSE Big) ELSE Div(a, b)
Ap1(g, t, a) == IF t \in {"n2", "protected_n2", "n2_t"} THEN Map1(Sq, a)
           ELSE IF t \in {"n3", "protected_n3", "n3_t"} THEN Map1(Cube, a)
           ELSE IF t \in {"n4", "protected_n4"} THEN Map1(P4, a) ELSE IF t = "n5" THEN Map1(P5, a)
           ELSE IF t = "neg" THEN Map1(Neg, a) ELSE IF t = "abs" THEN Map1(AbsR, a) ELSE IF t = "inv" THEN Map1(InvR, a)
           ELSE IF t = "sqrt" THEN Map1(Sqrt, a) ELSE IF t = "log" THEN Map1(LogR, a) ELSE IF t = "logabs" THEN Map1(LogAbs, a)
           ELSE IF t \in {"sin", "tan", "tanh"} THEN Map1(Zero0, a) ELSE IF t \in {"cos", "exp", "expneg", "protected_exp", "protected_expneg"} THEN Map1(Zero1, a)
           ELSE IF t \in {"sigmoid", "protected_sigmoid"} THEN Map1(ZeroH, a)
           ELSE IF t = "protected_inv" THEN Map1(PInv, a) ELSE IF t \in {"protected_log", "protected_logabs"} THEN Map1(PLog, a)
           ELSE IF t = "protected_sqrt" THEN Map1(PSqrt, a)
           ELSE IF t \in Laps THEN LapF(g, a) ELSE Assert(FALSE, t)
Ap2(g, t, a, b) == IF t = "add" THEN Map2(Add, a, b) ELSE IF t = "sub" THEN Map2(Sub, a, b) ELSE IF t = "mul" THEN Map2(Mul, a, b)
           ELSE IF t = "div" THEN Map2(Div, a, b) ELSE IF t = "protected_div" THEN Map2(PDiv, a, b) ELSE Assert(FALSE, t)
(* operands are looked up in g.leaf: name -> [k |-> "x"/"u"/"p", i] *)
Leaf(g, t) == LET r == g.leaf[t] IN
  IF r.k = "u" THEN Seal(TRUE, g.u[r.i]) ELSE IF r.k = "p" THEN Seal(TRUE, g.p[r.i])
  ELSE Seal(TRUE, [p \in 1..Size(g) |-> g.x[r.i][At(g, AxisOf(g, r.i), p) + 1]])
RECURSIVE EvalAt(_, _, _)
EvalAt(g, ts, i) == LET t == ts[i] IN
  IF Arity(t) = 0 THEN Leaf(g, t)
  ELSE IF t \in Derivs THEN FD(g, t, g.leaf[ts[EndOf(ts, i + 1) + 1]].i, EvalAt(g, ts, i + 1))
  ELSE IF Arity(t) = 1 THEN Ap1(g, t, EvalAt(g, ts, i + 1))
  ELSE Ap2(g, t, EvalAt(g, ts, i + 1), EvalAt(g, ts, EndOf(ts, i + 1) + 1))
Eval(g, ts) == EvalAt(g, ts, 1)

(* ---- polynomials in the variables z[1..m] (the coordinates), as functions exponent -> rational; exact derivatives *)
Z(P) == {e \in DOMAIN P : P[e] # R(0)}
Trim(P) == [e \in Z(P) |-> P[e]]
Co(P, e) == IF e \in DOMAIN P THEN P[e] ELSE R(0)
PAdd(P, Q) == Trim([e \in DOMAIN P \cup DOMAIN Q |-> Add(Co(P, e), Co(Q, e))])
PScale(P, c) == Trim([e \in DOMAIN P |-> Mul(P[e], c)])
RECURSIVE SumOver(_, _, _, _)
SumOver(S, P, Q, e) == IF S = {} THEN R(0) ELSE LET f == CHOOSE f \in S : TRUE IN Add(Mul(P[f], Co(Q, [i \in DOMAIN e |-> e[i] - f[i]])), SumOver(S \ {f}, P, Q, e))
PMul(P, Q) == LET D == {[i \in DOMAIN a |-> a[i] + b[i]] : a \in DOMAIN P, b \in DOMAIN Q} IN TLCEval(Trim([e \in D |-> SumOver(DOMAIN P, P, Q, e)]))
PD(P, k) == TLCEval(Trim([e \in {[f EXCEPT ![k] = @ - 1] : f \in {h \in DOMAIN P : h[k] > 0}} |-> Mul(R(e[k] + 1), P[[e EXCEPT ![k] = @ + 1]])]))
RECURSIVE PDn(_, _, _)
PDn(P, k, n) == IF n = 0 THEN P ELSE PDn(PD(P, k), k, n - 1)
Mono(e, z) == LET RECURSIVE go(_) go(i) == IF i > Len(e) THEN R(1) ELSE IF e[i] = 0 THEN go(i + 1) ELSE Mul(Pow(z[i], e[i]), go(i + 1)) IN go(1)
RECURSIVE PSum(_, _, _)
PSum(S, P, z) == IF S = {} THEN R(0) ELSE LET e == CHOOSE e \in S : TRUE IN Add(Mul(P[e], Mono(e, z)), PSum(S \ {e}, P, z))
PVal(P, z) == PSum(DOMAIN P, P, z)
PolyOK(P) == \A e \in DOMAIN P : ~Marked(P[e])
(* h = [pts |-> sequence of points, m |-> number of variables, nx |-> how many of them are spatial, leaf, u |-> polynomials] *)
Vals(h, P) == Seal(TRUE, [i \in 1..Len(h.pts) |-> PVal(P, h.pts[i])])
ToArr(h, a) == IF a.k = "poly" THEN (IF PolyOK(a.p) THEN Vals(h, a.p) ELSE Arr("big", FALSE, <<>>)) ELSE a.a
Poly(P) == [k |-> "poly", p |-> P]
Pts(a) == [k |-> "pts", a |-> a]
BigPts == Pts(Arr("big", FALSE, <<>>))
Unit(m, k) == [i \in 1..m |-> IF i = k THEN 1 ELSE 0]
(* a derivative with respect to something the value does not depend on may be refused; kind "zero" marks that *)
Dn(a, k, n) == IF a.k # "poly" THEN BigPts ELSE IF PolyOK(a.p) THEN Poly(PDn(a.p, k, n)) ELSE BigPts
RECURSIVE TEvalAt(_, _, _)
TEvalAt(h, ts, i) == LET t == ts[i] IN
  IF Arity(t) = 0 THEN LET r == h.leaf[t] IN Poly(IF r.k = "x" THEN (Unit(h.m, r.i) :> R(1)) ELSE h.u[r.i])
  ELSE IF t \in Derivs THEN LET k == h.leaf[ts[EndOf(ts, i + 1) + 1]].i n == IF t \in Deriv1 THEN 1 ELSE IF t \in Deriv2 THEN 2 ELSE IF t \in Deriv3 THEN 3 ELSE 4
                            IN Dn(TEvalAt(h, ts, i + 1), k, n)
  ELSE IF t = "lap_t" THEN LET a == TEvalAt(h, ts, i + 1) IN IF a.k # "poly" THEN BigPts
                           ELSE LET RECURSIVE go(_) go(k) == IF k = 0 THEN <<>> ELSE PAdd(PDn(a.p, k, 2), go(k - 1)) IN Poly(go(h.nx))
  ELSE IF Arity(t) = 1 THEN LET a == TEvalAt(h, ts, i + 1) IN
       IF a.k = "poly" THEN Poly(IF t = "n2_t" THEN PMul(a.p, a.p) ELSE PMul(a.p, PMul(a.p, a.p))) ELSE Pts(Ap1(h, t, a.a))
  ELSE LET a == TEvalAt(h, ts, i + 1) b == TEvalAt(h, ts, EndOf(ts, i + 1) + 1) IN
       IF a.k = "poly" /\ b.k = "poly" /\ t # "div_t"
       THEN Poly(IF t = "add_t" THEN PAdd(a.p, b.p) ELSE IF t = "sub_t" THEN PAdd(a.p, PScale(b.p, R(-1))) ELSE PMul(a.p, b.p))
       ELSE LET x == ToArr(h, a) y == ToArr(h, b) IN
            Pts(IF t = "add_t" THEN Map2(Add, x, y) ELSE IF t = "sub_t" THEN Map2(Sub, x, y) ELSE IF t = "mul_t" THEN Map2(Mul, x, y) ELSE Map2(TDiv, x, y))
TEval(h, ts) == ToArr(h, TEvalAt(h, ts, 1))
RECURSIVE ZeroDeriv(_, _, _)   \* some derivative in the expression vanishes identically (or its operand is constant on the way)
ZeroDeriv(h, ts, i) == IF i > Len(ts) THEN FALSE
  ELSE IF ts[i] \in Derivs \cup {"lap_t"} /\ (LET a == TEvalAt(h, ts, i + 1) ks == IF ts[i] = "lap_t" THEN 1..h.nx ELSE {h.leaf[ts[EndOf(ts, i + 1) + 1]].i}
                                                      n == IF ts[i] \in Deriv1 THEN 1 ELSE IF ts[i] \in Deriv2 \cup {"lap_t"} THEN 2 ELSE IF ts[i] \in Deriv3 THEN 3 ELSE 4
                                                  IN a.k = "poly" /\ \E k \in ks : PDn(a.p, k, n) = <<>>) THEN TRUE
  ELSE ZeroDeriv(h, ts, i + 1)
=============================================================================

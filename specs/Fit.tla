--------------------------------- MODULE Fit --------------------------------
(* How a candidate is scored: which candidates are refused, which terms are  *)
(* regressed, and what the reported coefficients and reward must satisfy.    *)
EXTENDS Expr, SequencesExt
(* leaves by kind *)
HasU(g, ts) == \E i \in 1..Len(ts) : ts[i] \in DOMAIN g.leaf /\ g.leaf[ts[i]].k = "u"
HasP(g, ts) == \E i \in 1..Len(ts) : ts[i] \in DOMAIN g.leaf /\ g.leaf[ts[i]].k = "p"
HasDeriv(ts) == \E i \in 1..Len(ts) : ts[i] \in Derivs
RECURSIVE Log2Up(_, _)
Log2Up(n, k) == IF 2^k >= n THEN k ELSE Log2Up(n, k + 1)
Depth(ts) == Log2Up(Len(ts), 0)
Count(ts, n) == Cardinality({i \in 1..Len(ts) : ts[i] = n})
(* refusals a configuration asks for *)
TooDeep(c, ts) == \E t \in {Terms(ts)[i] : i \in 1..Len(Terms(ts))} : Depth(t) > c.maxdepth
Uneven(g, c, ts) == c.spatial /\ g.dim > 1 /\ \E k \in 2..g.dim : Count(ts, "x" \o ToString(k)) # Count(ts, "x1")
Fieldless(g, ts) == \E i \in 1..Len(Terms(ts)) : ~HasU(g, Terms(ts)[i]) /\ (HasDeriv(Terms(ts)[i]) \/ ~HasP(g, Terms(ts)[i]))
Doubtful(g, ts) == \E i \in 1..Len(Terms(ts)) : ~HasU(g, Terms(ts)[i]) /\ HasP(g, Terms(ts)[i])
Values(g, ts) == [i \in 1..Len(Terms(ts)) |-> Eval(g, Terms(ts)[i])]
TooSmall(c) == RAbs(c[1]) * 20000 < c[2]
TooLarge(c) == RAbs(c[1]) > 10000 * c[2]
(* the part of the grid that is scored: a fraction num/den is cut off at every side of noisy data *)
CutLo(n, c) == (c.num * n) \div c.den
CutHi(n, c) == -(((c.num - c.den) * n) \div c.den)
Kept(g, c, p) == c.num = 0 \/ \A a \in 1..Len(g.shape) : At(g, a, p) >= CutLo(g.shape[a], c) /\ At(g, a, p) < CutHi(g.shape[a], c)
KeptPoints(g, c) == SelectSeq([p \in 1..Size(g) |-> p], LAMBDA p : Kept(g, c, p))
ISum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Near(a, b, tol) == RAbs(a - b) <= tol
(* ---- planted data: the left-hand side is exactly the combination cs of the terms (and of 1, when a constant is fitted).
   e: the observation [st, r, w, terms, rep] with w rational, r times 10^4, rep the printed coefficients times 10^4 *)
Refused(e) == e.st = "invalid" /\ e.r = 0
NW(e) == Len(e.w)
WantW(c, cs) == IF c.const /\ TooSmall(cs[Len(cs)]) THEN SubSeq(cs, 1, Len(cs) - 1) ELSE cs
ExactFit(c, e, cs) == LET w == WantW(c, cs) IN
   /\ e.st = "ok" /\ e.w = w /\ Near(e.r, 10000 - 100 * Len(w), 1)
   /\ e.mse = 0
(* ---- arbitrary integer data: least squares characterised by its normal equations.
   ut: integers; e.w, e.yhat times 10^4; V the term values restricted to the kept points *)
RowOf(V, p) == [k \in 1..Len(V) |-> V[k][p]]
RScale(w, v) == (w * v[1]) \div v[2]
Predicts(V, e) == \A p \in 1..Len(e.yhat) : Near(e.yhat[p], ISum([k \in 1..Len(V) |-> RScale(e.w[k], V[k][p])]),
                     2 + ISum([k \in 1..Len(V) |-> 1 + (RAbs(V[k][p][1]) \div V[k][p][2])]))
Normal(V, ut, e) == \A k \in 1..Len(V) : Near(ISum([p \in 1..Len(ut) |-> RScale(10000 * ut[p] - e.yhat[p], V[k][p])]), 0,
                     Len(ut) + ISum([p \in 1..Len(ut) |-> 1 + (RAbs(V[k][p][1]) \div V[k][p][2])]))
Sse4(ut, e) == ISum([p \in 1..Len(ut) |-> LET d == 100 * ut[p] - (e.yhat[p] \div 100) IN d * d])
NSst(ut) == Len(ut) * ISum([p \in 1..Len(ut) |-> ut[p] * ut[p]]) - ISum(ut) * ISum(ut)
Q6(ut, e) == LET a == Sse4(ut, e) * Len(ut) b == NSst(ut) IN (a \div b) * 100 + (((a % b) * 100) \div b)
RewardOK(ut, e) == LET A == (100 - NW(e)) * 100 s == ((A * 1000) \div e.r) - 1000 IN
                   e.r > 0 /\ Near(s * s, Q6(ut, e), 8 * RAbs(s) + 2000)
MseOK(ut, e) == Near(e.mse * Len(ut), Sse4(ut, e), Len(ut) + 200 + (Sse4(ut, e) \div 50))
=============================================================================

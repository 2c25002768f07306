------------------------------ MODULE SgaExpr -------------------------------
(* What a term of the genetic symbolic search denotes: a prefix expression   *)
(* over named operands on a grid whose axes have names.                      *)
(* g = [axes, shape, x, fields, params, lhs, target]: axes a sequence of     *)
(* names, x[i] the values of axis i, fields / params functions from names to *)
(* flat (row major) arrays of exact rationals.                               *)
EXTENDS Expr
SBin == {"+", "-", "*", "/", "d", "d^2"}
SUn == {"^2", "^3"}
SOps == SBin \cup SUn
SDer == {"d", "d^2"}
SArity(n) == IF n \in SBin THEN 2 ELSE IF n \in SUn THEN 1 ELSE 0
RECURSIVE SEnd(_, _)
SEnd(ts, i) == IF SArity(ts[i]) = 0 THEN i ELSE IF SArity(ts[i]) = 1 THEN SEnd(ts, i + 1) ELSE SEnd(ts, SEnd(ts, i + 1) + 1)
NDims(g) == Len(g.axes)
AxisIx(g, a) == CHOOSE i \in 1..NDims(g) : g.axes[i] = a
Free(g) == {g.axes[i] : i \in 1..NDims(g)} \ {g.lhs}
(* names of the derivatives offered as operands                              *)
GradKey(f, a) == f \o "_" \o a
Grads(g) == [k \in {GradKey(f, a) : f \in DOMAIN g.fields, a \in Free(g)} |->
               CHOOSE fa \in (DOMAIN g.fields) \X Free(g) : GradKey(fa[1], fa[2]) = k]
Operands(g) == DOMAIN g.fields \cup Free(g) \cup DOMAIN g.params \cup {"0"} \cup DOMAIN Grads(g)
Unambiguous(g) == /\ DOMAIN g.fields \cap Free(g) = {} /\ DOMAIN g.params \cap (DOMAIN g.fields \cup Free(g)) = {}
                  /\ DOMAIN Grads(g) \cap (DOMAIN g.fields \cup DOMAIN g.params \cup Free(g)) = {}
                  /\ Cardinality(DOMAIN Grads(g)) = Cardinality(DOMAIN g.fields) * Cardinality(Free(g))
Delta(g, i) == Sub(g.x[i][2], g.x[i][1])
D1(g, i, A) == IF A.st # "ok" THEN A ELSE Seal(A.ex, [p \in 1..Size(g) |-> Div(SumSt(g, i, A.v, p, St1(At(g, i, p), g.shape[i], FALSE)), Delta(g, i))])
D2(g, i, A) == IF A.st # "ok" THEN A ELSE Seal(A.ex, [p \in 1..Size(g) |-> Div(SumSt(g, i, A.v, p, St2(At(g, i, p), g.shape[i], FALSE)), Mul(Delta(g, i), Delta(g, i)))])
CoordField(g, i) == Seal(TRUE, [p \in 1..Size(g) |-> g.x[i][At(g, i, p) + 1]])
(* a derivative operand: finite differences of the data, or the exact derivative of the surrogate given as a polynomial in the axes *)
Point(g, p) == [i \in 1..NDims(g) |-> g.x[i][At(g, i, p) + 1]]
GradOf(g, f, i) == IF "poly" \in DOMAIN g THEN Seal(TRUE, [p \in 1..Size(g) |-> PVal(PD(g.poly[f], i), Point(g, p))])
                   ELSE D1(g, i, Seal(TRUE, g.fields[f]))
SLeaf(g, n) == IF n = "0" THEN Seal(TRUE, [p \in 1..Size(g) |-> R(0)])
   ELSE IF n \in DOMAIN g.fields THEN Seal(TRUE, g.fields[n])
   ELSE IF n \in DOMAIN g.params THEN Seal(TRUE, g.params[n])
   ELSE IF n \in Free(g) THEN CoordField(g, AxisIx(g, n))
   ELSE LET fa == Grads(g)[n] IN GradOf(g, fa[1], AxisIx(g, fa[2]))
(* quotients: defined where nothing is divided by zero; the regularised value near zeros is not modelled *)
SDiv(a, b) == IF a.st # "ok" \/ b.st # "ok" THEN Arr(Worst({a.st, b.st}), FALSE, <<>>)
              ELSE IF \E p \in DOMAIN b.v : b.v[p][1] = 0 THEN Arr("big", FALSE, <<>>)
              ELSE Map2(Div, a, b)
RECURSIVE SEval(_, _, _)
SEval(g, ts, i) == LET n == ts[i] j == SEnd(ts, i + 1) + 1 IN
  IF SArity(n) = 0 THEN SLeaf(g, n)
  ELSE IF n = "d" THEN D1(g, AxisIx(g, ts[j]), SEval(g, ts, i + 1))
  ELSE IF n = "d^2" THEN D2(g, AxisIx(g, ts[j]), SEval(g, ts, i + 1))
  ELSE IF n = "^2" THEN Map1(Sq, SEval(g, ts, i + 1))
  ELSE IF n = "^3" THEN Map1(Cube, SEval(g, ts, i + 1))
  ELSE IF n = "+" THEN Map2(Add, SEval(g, ts, i + 1), SEval(g, ts, j))
  ELSE IF n = "-" THEN Map2(Sub, SEval(g, ts, i + 1), SEval(g, ts, j))
  ELSE IF n = "*" THEN Map2(Mul, SEval(g, ts, i + 1), SEval(g, ts, j))
  ELSE SDiv(SEval(g, ts, i + 1), SEval(g, ts, j))
UsesLhs(g, ts) == \E i \in 1..Len(ts) : ts[i] \in SDer /\ ts[SEnd(ts, i + 1) + 1] = g.lhs
IsZero(A) == \A p \in DOMAIN A.v : A.v[p] = R(0)
(* a grid cut along axis "x" to [floor(n/10), floor(9n/10))                  *)
Cut(g) == IF "x" \notin {g.axes[i] : i \in 1..NDims(g)} THEN g ELSE
  LET a == AxisIx(g, "x") n == g.shape[a] lo == n \div 10 hi == (9 * n) \div 10
      sh == [g.shape EXCEPT ![a] = hi - lo]
      h == [g EXCEPT !.shape = sh, !.x = [@ EXCEPT ![a] = SubSeq(@, lo + 1, hi)]]
      RECURSIVE src(_, _, _)
      src(p, d, acc) == IF d > Len(sh) THEN acc + 1
                        ELSE src(p, d + 1, acc + (At(h, d, p) + (IF d = a THEN lo ELSE 0)) * Stride(g, d))
      crop(v) == [p \in 1..Prod(sh) |-> v[src(p, 1, 0)]]
  IN [h EXCEPT !.fields = [f \in DOMAIN @ |-> crop(@[f])], !.params = [f \in DOMAIN @ |-> crop(@[f])]]
=============================================================================

------------------------------- MODULE Figure -------------------------------
(* What a figure may show.  A world has d spatial axes and time (axis d + 1), *)
(* each with whole-number coordinates, and quantities on its grid: arrays in  *)
(* any axis order, or the right-hand side of the reported equation, computed  *)
(* here from its terms, its coefficients and the field, which is a polynomial *)
(* so that derivatives are exact.  A picture is correct when everything in it *)
(* shows, at the place and time it claims, the value the quantity has there.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
X == INSTANCE Expr
RECURSIVE Times(_)
Times(s) == IF s = <<>> THEN 1 ELSE Head(s) * Times(Tail(s))
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
RECURSIVE Flatten(_)
Flatten(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flatten(Tail(s))
Elems(s) == {s[i] : i \in 1..Len(s)}
Count(s, v) == Cardinality({i \in 1..Len(s) : s[i] = v})
SameBag(a, b) == Len(a) = Len(b) /\ \A v \in Elems(a) : Count(a, v) = Count(b, v)
MaxOf(S) == CHOOSE v \in S : \A w \in S : w <= v
MinOf(S) == CHOOSE v \in S : \A w \in S : v <= w
Abs(v) == IF v < 0 THEN 0 - v ELSE v

(* ------------------------------------------------------------- arrays ---- *)
Tail2(shape, a) == SubSeq(shape, a + 1, Len(shape))
(* 0-based index along axis a of the i-th element (row major)                *)
Along(shape, i, a) == ((i - 1) \div Times(Tail2(shape, a))) % shape[a]
RECURSIVE FlatAt(_, _, _)
FlatAt(shape, p, a) == IF a > Len(shape) THEN 1 ELSE p[a] * Times(Tail2(shape, a)) + FlatAt(shape, p, a + 1)
Place(shape, p) == FlatAt(shape, p, 1)
Point(shape, i) == [a \in 1..Len(shape) |-> Along(shape, i, a)]
(* f has its axes in the order ord (ord[k] = the world's axis that is its     *)
(* k-th); the same array in the world's own order                            *)
Canon(shape, ord, f) == LET sh == [k \in 1..Len(ord) |-> shape[ord[k]]]
                        IN [i \in 1..Times(shape) |-> LET p == Point(shape, i) IN f[Place(sh, [k \in 1..Len(ord) |-> p[ord[k]]])]]
(* one index along one axis                                                  *)
Without(s, a) == SubSeq(s, 1, a - 1) \o SubSeq(s, a + 1, Len(s))
Take(shape, f, a, i) == LET sh == Without(shape, a)
                        IN [j \in 1..Times(sh) |-> LET p == Point(sh, j) IN f[Place(shape, [k \in 1..Len(shape) |-> IF k < a THEN p[k] ELSE IF k = a THEN i ELSE p[k - 1]])]]

(* ------------------------------- the view of more than two dimensions ---- *)
None == 0 - 99
Clamp(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
AxisOf(n, ax) == Clamp(IF ax < 0 THEN n + ax ELSE ax, 0, n - 1)
IndexOf(n, ix) == Clamp(IF ix = None THEN n \div 2 ELSE ix, 0, n - 1)
(* keep: the spatial axes still free; fix[a]: where axis a is cut (or -1)     *)
RECURSIVE CutFrom(_, _, _, _, _)
CutFrom(sizes, keep, fix, ax, ix) ==
  IF Len(keep) <= 2 THEN [keep |-> keep, fix |-> fix]
  ELSE LET k == AxisOf(Len(keep), ax) + 1 a == keep[k] IN CutFrom(sizes, Without(keep, k), [fix EXCEPT ![a] = IndexOf(sizes[a], ix)], 0 - 1, None)
Cut(sizes, ax, ix) == CutFrom(sizes, [a \in 1..Len(sizes) |-> a], [a \in 1..Len(sizes) |-> 0 - 1], ax, ix)

(* -------------------------------------------------------- polynomials ---- *)
(* sequences of [c |-> coefficient, e |-> exponent of every axis]             *)
PScale(p, k) == [i \in 1..Len(p) |-> [p[i] EXCEPT !.c = k * @]]
PMul(p, q) == Flatten([i \in 1..Len(p) |-> [j \in 1..Len(q) |-> [c |-> p[i].c * q[j].c, e |-> [a \in 1..Len(p[i].e) |-> p[i].e[a] + q[j].e[a]]]]])
PDer(p, a) == LET q == SelectSeq(p, LAMBDA m : m.e[a] > 0) IN [i \in 1..Len(q) |-> [c |-> q[i].c * q[i].e[a], e |-> [q[i].e EXCEPT ![a] = @ - 1]]]
RECURSIVE IPow(_, _)
IPow(b, n) == IF n = 0 THEN 1 ELSE b * IPow(b, n - 1)
PVal(p, x) == Sum([i \in 1..Len(p) |-> p[i].c * Times([a \in 1..Len(x) |-> IPow(x[a], p[i].e[a])])])
Coord(n) == IF n = "x1" THEN 1 ELSE IF n = "x2" THEN 2 ELSE IF n = "x3" THEN 3 ELSE 0
RECURSIVE PLap(_, _)
PLap(p, a) == IF a = 0 THEN <<>> ELSE PDer(PDer(p, a), a) \o PLap(p, a - 1)
(* the polynomial an expression (prefix tokens from i on) denotes            *)
RECURSIVE PolyAt(_, _, _, _)
PolyAt(ts, i, u, d) ==
  LET A == PolyAt(ts, i + 1, u, d)
      B == PolyAt(ts, X!EndOf(ts, i + 1) + 1, u, d)
      ax == Coord(ts[X!EndOf(ts, i + 1) + 1])
      k == ts[i]
  IN CASE k = "u1" -> u
       [] Coord(k) > 0 -> <<[c |-> 1, e |-> [a \in 1..(d + 1) |-> IF a = Coord(k) THEN 1 ELSE 0]]>>
       [] k = "add" -> A \o B
       [] k = "sub" -> A \o PScale(B, 0 - 1)
       [] k = "mul" -> PMul(A, B)
       [] k = "n2" -> PMul(A, A)
       [] k = "n3" -> PMul(A, PMul(A, A))
       [] k = "neg" -> PScale(A, 0 - 1)
       [] k \in X!Deriv1 -> PDer(A, ax)
       [] k \in X!Deriv2 -> PDer(PDer(A, ax), ax)
       [] k \in X!Laps -> PLap(A, d)
(* the right-hand side of u_t = w1 t1 + w2 t2 + ... (+ a constant)            *)
Rhs(terms, w, u, d, x) == Sum([k \in 1..Len(terms) |-> w[k] * PVal(TLCEval(PolyAt(terms[k], 1, u, d)), x)]) + (IF Len(w) > Len(terms) THEN w[Len(w)] ELSE 0)

(* ------------------------------------------------------------ worlds ---- *)
Shape(W) == [a \in 1..Len(W.sp) |-> Len(W.sp[a])] \o <<Len(W.tc)>>
D(W) == Len(W.sp)
Axis(W, a) == IF a <= D(W) THEN W.sp[a] ELSE W.tc
At(W, p) == [a \in 1..(D(W) + 1) |-> Axis(W, a)[p[a] + 1]]
Given(W, r) == Canon(Shape(W), W.ord, W.flats[r])
Predicted(W) == IF W.terms = <<>> THEN Given(W, "pred")
                ELSE LET sh == Shape(W) IN [i \in 1..Times(sh) |-> Rhs(W.terms, W.w, W.u, D(W), At(W, Point(sh, i)))]
Minus(f, g) == [i \in 1..Len(f) |-> f[i] - g[i]]
(* the quantities a figure can show                                          *)
Quantities(W) == LET t == TLCEval(Given(W, "true")) p == TLCEval(Predicted(W))
                 IN ("true" :> t @@ "pred" :> p @@ "resid" :> TLCEval(Minus(t, p)))
                    @@ (IF "true0" \in DOMAIN W.flats THEN ("resid0" :> TLCEval(Minus(Given(W, "true0"), Given(W, "pred0")))) ELSE ("none" :> <<>>))

(* ------------------------------------------------------------ pictures --- *)
(* the axis a label names (c: the cut), and where along it a position lies   *)
AxisNo(W, c, a) == IF a = "t" THEN D(W) + 1 ELSE IF a = "s1" THEN c.keep[1] ELSE IF a = "s2" /\ Len(c.keep) > 1 THEN c.keep[2] ELSE 0
Pos(W, a, isix, v) == IF isix THEN (IF v \in 0..(Len(Axis(W, a)) - 1) THEN v ELSE 0 - 1)
                      ELSE LET S == {i \in 1..Len(Axis(W, a)) : Axis(W, a)[i] = v} IN IF S = {} THEN 0 - 1 ELSE (CHOOSE i \in S : TRUE) - 1
Covers(W, a, isix, vs) == Len(vs) = Len(Axis(W, a)) /\ {Pos(W, a, isix, vs[i]) : i \in 1..Len(vs)} = 0..(Len(Axis(W, a)) - 1)
TimeOf(W, m) == IF m.at = None THEN 0 - 1 ELSE Pos(W, D(W) + 1, m.ati, m.at)
(* a coloured map: rows of v run along ys, columns along xs; its colours tell *)
(* the values from lo to hi apart                                            *)
MapOK(W, q, c, m) ==
  LET xa == AxisNo(W, c, m.xa) ya == AxisNo(W, c, m.ya) t == TimeOf(W, m) n == D(W) + 1
      xp == [j \in 1..Len(m.xs) |-> Pos(W, xa, m.xi, m.xs[j])]
      yp == [i \in 1..Len(m.ys) |-> Pos(W, ya, m.yi, m.ys[i])]
  IN /\ xa > 0 /\ ya > 0 /\ xa # ya
     /\ m.role \in DOMAIN q
     /\ Covers(W, xa, m.xi, m.xs) /\ Covers(W, ya, m.yi, m.ys)
     /\ (n \notin {xa, ya} => t >= 0)
     /\ Cardinality({xa, ya} \cup (IF n \in {xa, ya} THEN {} ELSE {n}) \cup {a \in 1..D(W) : c.fix[a] >= 0}) = n
     /\ Len(m.v) = Len(m.ys)
     /\ \A i \in 1..Len(m.ys) : Len(m.v[i]) = Len(m.xs) /\ \A j \in 1..Len(m.xs) :
           m.v[i][j] >= m.lo /\ m.v[i][j] <= m.hi /\ m.v[i][j] = q[m.role][Place(Shape(W), [a \in 1..n |-> IF a = xa THEN xp[j] ELSE IF a = ya THEN yp[i] ELSE IF a = n THEN t ELSE c.fix[a]])]
MapSays(W, c, m) == <<"map", m.role, IF "t" \in {m.xa, m.ya} THEN 0 - 1 ELSE TimeOf(W, m)>>
(* a curve over space at one time                                            *)
CurveOK(W, q, m) == /\ D(W) = 1 /\ m.role \in DOMAIN q /\ TimeOf(W, m) >= 0 /\ Covers(W, 1, FALSE, m.xs) /\ Len(m.ys) = Len(m.xs)
                    /\ \A i \in 1..Len(m.xs) : m.ys[i] = q[m.role][Place(Shape(W), <<Pos(W, 1, FALSE, m.xs[i]), TimeOf(W, m)>>)]
CurveSays(W, m) == <<"curve", m.role, TimeOf(W, m)>>
(* one point for every grid point: two quantities against each other         *)
CloudOK(q, m) == m.xr # m.yr /\ {m.xr, m.yr} \subseteq DOMAIN q /\ SameBag(m.pts, [i \in 1..Len(q[m.xr]) |-> <<q[m.xr][i], q[m.yr][i]>>])
(* one point for every grid point, coloured by a quantity                    *)
DotsOK(W, q, m) == LET c == Cut([a \in 1..D(W) |-> Len(W.sp[a])], 0 - 1, None) xa == AxisNo(W, c, m.xa) ya == AxisNo(W, c, m.ya) IN
                   /\ D(W) = 1 /\ xa > 0 /\ ya > 0 /\ xa # ya /\ m.role \in DOMAIN q /\ Len(m.pts) = Times(Shape(W))
                   /\ Cardinality({<<m.pts[i][1], m.pts[i][2]>> : i \in 1..Len(m.pts)}) = Len(m.pts)
                   /\ \A i \in 1..Len(m.pts) : LET x == Pos(W, xa, m.xi, m.pts[i][1]) y == Pos(W, ya, m.yi, m.pts[i][2]) IN
                        x >= 0 /\ y >= 0 /\ m.pts[i][3] = q[m.role][Place(Shape(W), [a \in 1..2 |-> IF a = xa THEN x ELSE y])]
(* a histogram: bar [lo, hi, n] counts the whole numbers from lo to hi; the   *)
(* ones from al to ah may be counted as well (they lie on its very edge)     *)
HistOK(vals, bars) == /\ bars # <<>> /\ Sum([b \in 1..Len(bars) |-> bars[b].n]) = Len(vals)
                      /\ \A b \in 1..Len(bars) : /\ bars[b].n >= Cardinality({i \in 1..Len(vals) : vals[i] >= bars[b].lo /\ vals[i] <= bars[b].hi})
                                                   /\ bars[b].n <= Cardinality({i \in 1..Len(vals) : vals[i] >= bars[b].al /\ vals[i] <= bars[b].ah})
(* what is left of a quantity in the cut                                     *)
CutOf(W, c, f) == LET sh == Shape(W) n == Len(sh) IN SelectSeq([i \in 1..Len(f) |-> <<i, f[i]>>], LAMBDA x : \A a \in 1..(n - 1) : c.fix[a] = 0 - 1 \/ Along(sh, x[1], a) = c.fix[a])
Vals(s) == [i \in 1..Len(s) |-> s[i][2]]
(* which times a map figure shows, and which slices a request asks for       *)
Shown(nt) == IF nt <= 3 THEN 0..(nt - 1) ELSE {0, nt \div 2, nt - 1}
Nearest(tc, v) == {i \in 0..(Len(tc) - 1) : \A j \in 1..Len(tc) : Abs(tc[i + 1] - v) <= Abs(tc[j] - v)}
Within(tc, v) == Clamp(v, MinOf(Elems(tc)), MaxOf(Elems(tc)))
(* a summary of a quantity                                                   *)
MaxAbs(s) == MaxOf({Abs(v) : v \in Elems(s)})
=============================================================================

---------------------------- MODULE DatasetTrace ----------------------------
EXTENDS TraceBase, Dataset
VARIABLE c
(* ---- construction and accessors ----------------------------------------- *)
Construct == Ev.ok = Valid(Ev.c) /\ Ev.kept
Size == Ev.v = Lens(c)
AllBounds(b) == /\ Names(b) = Names(c.coords) /\ Len(b) = Len(c.coords)
                /\ \A i \in 1..Len(b) : b[i].lo = MinOf(Coord(c, b[i].n)) /\ b[i].hi = MaxOf(Coord(c, b[i].n))
SameField(f, g) == f.shape = g.shape /\ f.v = g.v
Read == /\ SameField(Ev.usol, Target(c)) /\ SameField(Ev.u, Target(c)) /\ SameField(Ev.item, Target(c))
        /\ \A n \in {"x", "t"} : n \in Names(c.coords) => Ev[n] = Coord(c, n)
        /\ Len(Ev.params) = Len(c.params) /\ \A i \in 1..Len(c.params) : \E j \in 1..Len(Ev.params) : Ev.params[j].n = c.params[i].n /\ SameField(Ev.params[j], c.params[i])
        /\ (c.mode = "nd" => /\ Ev.order = c.order /\ Ev.target = c.target /\ Ev.lhs = c.lhs
                             /\ Names(Ev.coords) = Names(c.coords) /\ \A n \in Names(c.coords) : Get(Ev.coords, n).v = Coord(c, n)
                             /\ Names(Ev.fields) = Names(c.fields) /\ \A n \in Names(c.fields) : SameField(Get(Ev.fields, n), Get(c.fields, n)))
InRange(i, n) == i \in 0..(n - 1)
Datapoint == IF IsXT(c) /\ InRange(Ev.i, Len(Coord(c, "x"))) /\ InRange(Ev.j, Len(Coord(c, "t")))
             THEN Ev.ok /\ Ev.v = <<Coord(c, "x")[Ev.i + 1], Coord(c, "t")[Ev.j + 1], At(c, Target(c), [x |-> Ev.i + 1, t |-> Ev.j + 1])>>
             ELSE ~Ev.ok
Mesh == IF ~IsXT(c) THEN ~Ev.ok
        ELSE Ev.ok /\ (IF Ev.xy THEN Ev.pts = [q \in 1..Total(c) |-> <<PointAt(c, <<"t", "x">>, q - 1)[2], PointAt(c, <<"t", "x">>, q - 1)[1]>>]
                       ELSE Ev.pts = Listing(c, XT))
MeshBounds == IF ~IsXT(c) THEN ~Ev.ok
              ELSE Ev.ok /\ Ev.lo = <<MinOf(Coord(c, "x")), MinOf(Coord(c, "t"))>> /\ Ev.hi = <<MaxOf(Coord(c, "x")), MaxOf(Coord(c, "t"))>>
(* the sub-block between two coordinates; whether the upper end is included is not promised *)
Between(v, w, lo, hi) == \E up \in {hi - 1, hi} : w = SelectSeq(v, LAMBDA a : lo <= a /\ a <= up)
SubRange == IF ~IsXT(c) THEN ~Ev.ok
         ELSE /\ Ev.ok /\ Between(Coord(c, "x"), Ev.x, Ev.xlo, Ev.xhi) /\ Between(Coord(c, "t"), Ev.t, Ev.tlo, Ev.thi)
              /\ Ev.usol.shape = <<Len(Ev.x), Len(Ev.t)>>
              /\ \A q \in 1..Len(Ev.usol.v) : Ev.usol.v[q] = ValueAt(c, XT, <<Ev.x[((q - 1) \div Len(Ev.t)) + 1], Ev.t[((q - 1) % Len(Ev.t)) + 1]>>)
(* fields a + b x + d t + e x t (Ev.poly): the derivative along an axis does not depend on the scheme *)
Deriv == IF ~IsXT(c) \/ Ev.axis \notin {"x", "t"} THEN ~Ev.ok
         ELSE /\ Ev.ok /\ Ev.shape = <<Len(Coord(c, "x")), Len(Coord(c, "t"))>>
              /\ Ev.v = [q \in 1..Total(c) |-> LET p == PointAt(c, XT, q - 1) IN IF Ev.axis = "x" THEN Ev.poly[2] + Ev.poly[4] * p[2] ELSE Ev.poly[3] + Ev.poly[4] * p[1]]
(* ---- drawing observations ------------------------------------------------ *)
Floor(num, den, n) == (n * num) \div den
Want == IF Ev.ratio[2] = 0 THEN Ev.n ELSE Floor(Ev.ratio[1], Ev.ratio[2], Total(c))
Root(n) == CHOOSE r \in 0..n : r * r <= n /\ (r + 1) * (r + 1) > n
PairedXT(pts, vals) == Len(pts) = Len(vals) /\ \A i \in 1..Len(pts) : OnGrid(c, XT, pts[i]) /\ vals[i] = ValueAt(c, XT, pts[i])
Abs(a) == IF a < 0 THEN -a ELSE a
Sample == IF ~IsXT(c) \/ Want > Total(c) \/ Ev.method \notin {"random", "uniform", "spline"} THEN ~Ev.ok
          ELSE /\ Ev.ok
               /\ CASE Ev.method = "random" -> Len(Ev.pts) = Want /\ Sampled(c, XT, Ev.pts, Ev.vals) /\ Ev.again = [pts |-> Ev.pts, vals |-> Ev.vals]
                    [] Ev.method = "uniform" -> Len(Ev.pts) = Root(Want) * Root(Want) /\ PairedXT(Ev.pts, Ev.vals) /\ Ev.again = [pts |-> Ev.pts, vals |-> Ev.vals]
                    (* interpolated: all numbers times 10000, on a field a + b x + d t *)
                    [] OTHER -> /\ Len(Ev.pts) = Root(Want) * Root(Want) /\ Len(Ev.pts) = Len(Ev.vals)
                                /\ \A i \in 1..Len(Ev.pts) : /\ Abs(Ev.vals[i] - (10000 * Ev.poly[1] + Ev.poly[2] * Ev.pts[i][1] + Ev.poly[3] * Ev.pts[i][2])) <= Abs(Ev.poly[2]) + Abs(Ev.poly[3]) + 2
                                                             /\ 10000 * MinOf(Coord(c, "x")) <= Ev.pts[i][1] /\ Ev.pts[i][1] <= 10000 * MaxOf(Coord(c, "x"))
                                                             /\ 10000 * MinOf(Coord(c, "t")) <= Ev.pts[i][2] /\ Ev.pts[i][2] <= 10000 * MaxOf(Coord(c, "t"))
(* ---- hand-over to the neural genetic search ------------------------------ *)
Pairs == /\ Len(Ev.pts) = Ev.count /\ Sampled(c, XT, Ev.pts, Ev.vals) /\ Len(Ev.pts) = (IF Ev.full THEN Total(c) ELSE Want)
(* ---- hand-over to the symbolic search: regular grids ---------------------- *)
Uniform(v) == \A i \in 1..(Len(v) - 1) : v[i + 1] - v[i] = v[2] - v[1]
LhsOK == LET tv == Coord(c, c.lhs) IN Len(tv) >= 3 /\ Uniform(tv) /\ tv[2] # tv[1]
RegOK == /\ Ev.finite /\ LhsOK /\ (Ev.asked = 0 \/ Ev.asked = Len(Spatial(c)))
         /\ (c.mode = "nd" => /\ Len(Spatial(c)) \in {2, 3} /\ \A n \in Rng(Spatial(c)) : Len(Coord(c, n)) >= 4 /\ NoDup(Coord(c, n)))
RegOrder == IF c.mode = "legacy" THEN XT ELSE <<c.lhs>> \o Spatial(c)
(* twice the grid step times the time derivative, second order everywhere    *)
Slope(order, q) == LET p == PosAt(c, order, q - 1)
                       n == Len(Coord(c, c.lhs))
                       u(i) == At(c, Target(c), [p EXCEPT ![c.lhs] = i])
                       k == p[c.lhs]
                   IN IF k = 1 THEN 4 * u(2) - 3 * u(1) - u(3) ELSE IF k = n THEN 3 * u(n) - 4 * u(n - 1) + u(n - 2) ELSE u(k + 1) - u(k - 1)
ParamsAs(order) == /\ Len(Ev.params) = Len(c.params) /\ Ev.nparam = Len(c.params)
                   /\ \A i \in 1..Len(c.params) : Ev.params[i].n = c.params[i].n /\ Ev.params[i].v = LaidOut(c, c.params[i], order)
                                                  /\ Ev.params[i].shape = [k \in 1..Len(order) |-> Len(Coord(c, order[k]))]
Regular == IF ~RegOK THEN ~Ev.ok
           ELSE /\ Ev.ok /\ Ev.dim = Len(Spatial(c)) /\ Ev.shape = [k \in 1..Len(RegOrder) |-> Len(Coord(c, RegOrder[k]))]
                /\ Ev.u = LaidOut(c, Target(c), RegOrder)
                /\ Ev.x = [k \in 1..Len(Spatial(c)) |-> Coord(c, Spatial(c)[k])]
                /\ Ev.ut = [q \in 1..Total(c) |-> Slope(RegOrder, q)]
                /\ ParamsAs(RegOrder)
(* ---- hand-over to the symbolic search: sparse observations ---------------- *)
(* the dataset after cutting the quantile o.cut from both ends of every axis *)
CutLow(n) == IF n - 2 * Floor(Ev.cut[1], Ev.cut[2], n) < 2 THEN 0 ELSE Floor(Ev.cut[1], Ev.cut[2], n)
CutSeq(v) == SubSeq(v, CutLow(Len(v)) + 1, Len(v) - CutLow(Len(v)))
CutField(f) == LET lens == [k \in 1..2 |-> Len(CutSeq(Coord(c, XT[k])))] IN
   [f EXCEPT !.shape = lens, !.v = [q \in 1..Prod(lens) |-> At(c, f, [x |-> CutLow(Len(Coord(c, "x"))) + ((q - 1) \div lens[2]) + 1, t |-> CutLow(Len(Coord(c, "t"))) + ((q - 1) % lens[2]) + 1])]]
CutData == IF Ev.cut[1] = 0 \/ c.mode = "nd" THEN c
           ELSE [c EXCEPT !.coords = [k \in 1..2 |-> [n |-> XT[k], v |-> CutSeq(Coord(c, XT[k]))]], !.fields = <<CutField(Target(c))>>, !.params = [i \in 1..Len(c.params) |-> CutField(c.params[i])]]
SpOrder(d) == IF d.mode = "legacy" THEN XT ELSE Spatial(d) \o <<d.lhs>>
Least1(n) == IF n < 1 THEN 1 ELSE n
Min2(a, b) == IF a < b THEN a ELSE b
Count(d) == IF Ev.n > 0 THEN Ev.n ELSE Least1(Floor(Ev.ratio[1], Ev.ratio[2], Total(d)))
SplineX(d) == Min2(Len(Coord(d, "x")), IF Ev.n > 0 THEN Least1(Ev.n \div Len(Coord(d, "t"))) ELSE Least1(Floor(Ev.sratio[1], Ev.sratio[2], Len(Coord(d, "x")))))
SparseOK(d) == /\ (d.mode = "nd" => Ev.finite)
               /\ (d.mode = "nd" => ~Ev.spline /\ Ev.cut[1] = 0 /\ Ev.thin[2] = 0)
               /\ (Ev.spline \/ Count(d) <= Total(d))
Thinned(n) == IF Ev.thin[2] = 0 THEN n ELSE Floor(Ev.thin[1], Ev.thin[2], n)
SparseGood(d) == LET o == SpOrder(d)
                     M == Ev.measured
                     T == Ev.xtrain
                     V == Ev.xval
                 IN /\ Distinct(M) /\ \A i \in 1..Len(M) : OnGrid(d, o, M[i])
                    /\ IF Ev.spline THEN /\ Len(M) = SplineX(d) * Len(Coord(d, "t"))
                                         /\ Cardinality({M[i][1] : i \in 1..Len(M)}) = SplineX(d)
                       ELSE Len(M) = Count(d)
                    /\ Ev.again = M
                    /\ Rng(T) \cap Rng(V) = {} /\ Rng(T) \cup Rng(V) \subseteq Rng(M) /\ Distinct(T) /\ Distinct(V)
                    /\ (Ev.thin[2] = 0 => Len(T) + Len(V) = Len(M))
                    /\ (Ev.thin[2] # 0 => \E tr \in (((4 * Len(M)) \div 5) - 1)..(((4 * Len(M)) \div 5) + 1) :
                            /\ Len(T) \in {Least1(Thinned(tr)), Min2(tr, Least1(Thinned(tr)))}
                            /\ Len(V) \in {Least1(Thinned(Len(M) - tr)), Min2(Len(M) - tr, Least1(Thinned(Len(M) - tr)))})
                    /\ (~Ev.noisy => Sampled(d, o, T, Ev.utrain) /\ Sampled(d, o, V, Ev.uval))
                    /\ Len(Ev.utrain) = Len(T) /\ Len(Ev.uval) = Len(V)
                    /\ Ev.lb = [k \in 1..Len(o) |-> MinOf(Coord(d, o[k]))] /\ Ev.ub = [k \in 1..Len(o) |-> MaxOf(Coord(d, o[k]))]
                    (* collocation points: asked-for number inside the box, then the training points *)
                    /\ Ev.ncol = Ev.colloc + Len(T) /\ Ev.coltail = T
                    /\ \A k \in 1..Len(o) : Ev.collo[k] >= 1000 * Ev.lb[k] /\ Ev.colhi[k] <= 1000 * Ev.ub[k]
                    /\ Ev.star = Listing(d, o) /\ Ev.ustar = LaidOut(d, Target(d), o) /\ Ev.shape = [k \in 1..Len(o) |-> Len(Coord(d, o[k]))]
                    /\ Len(Ev.params) = Len(d.params)
                    /\ \A i \in 1..Len(d.params) : Ev.params[i].n = d.params[i].n /\ Ev.params[i].v = LaidOut(d, d.params[i], o) /\ Ev.params[i].shape = [k \in 1..Len(o) |-> Len(Coord(d, o[k]))]
Sparse == LET d == CutData IN IF ~SparseOK(d) THEN ~Ev.ok ELSE Ev.ok /\ SparseGood(d)
(* ---- hand-over to the genetic symbolic search ------------------------------ *)
Handed == /\ SameField(Ev.u, Target(c)) /\ Names(Ev.coords) = Names(c.coords) /\ \A n \in Names(c.coords) : Get(Ev.coords, n).v = Coord(c, n)
          /\ Ev.order = c.order /\ Ev.lhs = c.lhs
          /\ Len(Ev.params) = Len(c.params) /\ \A i \in 1..Len(c.params) : Ev.params[i].n = c.params[i].n /\ SameField(Ev.params[i], c.params[i])
(* ---- whatever was read, the caller's arrays are as they were --------------- *)
End == Ev.kept
OK == CASE Ev.ev = "construct" -> Construct
        [] Ev.ev = "size" -> Size
        [] Ev.ev = "bounds" -> AllBounds(Ev.b)
        [] Ev.ev = "read" -> Read
        [] Ev.ev = "datapoint" -> Datapoint
        [] Ev.ev = "mesh" -> Mesh
        [] Ev.ev = "meshbounds" -> MeshBounds
        [] Ev.ev = "range" -> SubRange
        [] Ev.ev = "deriv" -> Deriv
        [] Ev.ev = "sample" -> Sample
        [] Ev.ev = "pairs" -> Pairs
        [] Ev.ev = "regular" -> Regular
        [] Ev.ev = "sparse" -> Sparse
        [] Ev.ev = "handed" -> Handed
        [] Ev.ev = "end" -> End
        [] OTHER -> FALSE
Steps == More /\ \E ok \in {OK} :
   IF ok THEN Advance /\ c' = (IF Ev.ev = "construct" THEN Ev.c ELSE c)
   ELSE Rejected(<<Ev.ev>>) /\ SkipTrace /\ UNCHANGED c
TraceInit == l = 1 /\ c = [mode |-> "none"]
TraceSpec == TraceInit /\ [][Steps]_<<l, c>>
=============================================================================

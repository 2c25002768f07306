------------------------------ MODULE Dataset ------------------------------
(* A gridded dataset: named axes with coordinate lists, fields stored row    *)
(* major in the declared axis order.  A construction request is a record     *)
(*   mode    "legacy" (x, t, usol) or "nd" (fields, coords, axis order)      *)
(*   has     which arguments were given at all                               *)
(*   order   axis names (legacy: <<"x","t">>), coords: [n, v] per axis       *)
(*   fields  [n, shape, v] (v flat, row major), target, lhs                  *)
(*   params  [n, shape, v, finite]                                           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
Rng(s) == {s[i] : i \in 1..Len(s)}
Names(rs) == {rs[i].n : i \in 1..Len(rs)}
Get(rs, n) == rs[CHOOSE i \in 1..Len(rs) : rs[i].n = n]
Coord(c, n) == Get(c.coords, n).v
Lens(c) == [k \in 1..Len(c.order) |-> Len(Coord(c, c.order[k]))]
NoDup(s) == Cardinality(Rng(s)) = Len(s)
Target(c) == Get(c.fields, c.target)
ParamsOK(c, shape) == \A i \in 1..Len(c.params) : c.params[i].shape = shape /\ c.params[i].finite
ValidLegacy(c) == /\ {"x", "t", "u"} \subseteq Rng(c.has)
                  /\ Target(c).shape = Lens(c)
                  /\ ParamsOK(c, Lens(c))
ValidNd(c) == /\ {"fields", "coords", "order"} \subseteq Rng(c.has)
              /\ Len(c.order) > 0 /\ NoDup(c.order) /\ Rng(c.order) = Names(c.coords)
              /\ Len(c.fields) > 0 /\ c.target \in Names(c.fields) /\ c.lhs \in Rng(c.order)
              /\ \A i \in 1..Len(c.fields) : c.fields[i].shape = Lens(c)
              /\ ParamsOK(c, Lens(c))
Valid(c) == IF c.mode = "legacy" THEN ValidLegacy(c) ELSE ValidNd(c)
(* ---- reading a valid dataset -------------------------------------------- *)
Prod(s) == FoldSeq(LAMBDA a, b : a * b, 1, s)
Total(c) == Prod(Lens(c))
(* row-major offset (from 1) of a position given per axis name (from 1)      *)
Offset(order, lens, pos) == 1 + FoldLeftDomain(LAMBDA acc, k : acc * lens[k] + pos[order[k]] - 1, 0, order)
At(c, f, pos) == f.v[Offset(c.order, Lens(c), pos)]
Positions(c, names) == [Rng(names) -> Nat]
IdxOf(v, a) == CHOOSE i \in 1..Len(v) : v[i] = a
OnAxis(c, n, a) == \E i \in 1..Len(Coord(c, n)) : Coord(c, n)[i] = a
(* the point p lists a coordinate for every name of cols, in that order      *)
OnGrid(c, cols, p) == Len(p) = Len(cols) /\ \A k \in 1..Len(cols) : OnAxis(c, cols[k], p[k])
PosOf(c, cols, p) == [n \in Rng(cols) |-> IdxOf(Coord(c, n), p[CHOOSE k \in 1..Len(cols) : cols[k] = n])]
ValueAt(c, cols, p) == At(c, Target(c), PosOf(c, cols, p))
(* position (per name) of the q-th point (from 0) when listing row major in the order cols *)
RECURSIVE Unrank(_, _, _)
Unrank(c, cols, q) == IF cols = <<>> THEN <<>>
   ELSE LET n == Len(Coord(c, cols[Len(cols)])) IN Append(Unrank(c, SubSeq(cols, 1, Len(cols) - 1), q \div n), (q % n) + 1)
PointAt(c, cols, q) == LET u == Unrank(c, cols, q) IN [k \in 1..Len(cols) |-> Coord(c, cols[k])[u[k]]]
PosAt(c, cols, q) == LET u == Unrank(c, cols, q) IN [n \in Rng(cols) |-> u[CHOOSE k \in 1..Len(cols) : cols[k] = n]]
Listing(c, cols) == [q \in 1..Total(c) |-> PointAt(c, cols, q - 1)]
(* field f laid out row major in the axis order cols                         *)
LaidOut(c, f, cols) == [q \in 1..Total(c) |-> At(c, f, PosAt(c, cols, q - 1))]
XT == <<"x", "t">>
IsXT(c) == Len(c.order) = 2 /\ Rng(c.order) = {"x", "t"}
Spatial(c) == SelectSeq(c.order, LAMBDA n : n # c.lhs)
Distinct(pts) == Cardinality(Rng(pts)) = Len(pts)
Sampled(c, cols, pts, vals) == /\ Len(pts) = Len(vals) /\ Distinct(pts)
                               /\ \A i \in 1..Len(pts) : OnGrid(c, cols, pts[i]) /\ vals[i] = ValueAt(c, cols, pts[i])
MinOf(v) == CHOOSE a \in Rng(v) : \A b \in Rng(v) : a <= b
MaxOf(v) == CHOOSE a \in Rng(v) : \A b \in Rng(v) : a >= b
=============================================================================

------------------------------ MODULE FigureMC ------------------------------
(* Cutting a stack of dimensions down to a picture, and which data are taken  *)
(* together, over every small combination.                                   *)
EXTENDS Figure, Json
CONSTANTS Emit
VARIABLE c
Sizes == {<<2>>, <<3, 2>>, <<2, 3, 4>>, <<3, 2, 2>>, <<2, 3, 2, 3>>, <<1, 2, 1>>, <<2, 2, 1, 2, 2>>}
Cases == [k : {"slice"}, sizes : Sizes, nt : {1, 2}, ax : (0 - 6)..5, ix : ((0 - 2)..4) \cup {None}]
(* shapes offered together: spatial sizes, time size, and the shapes of the   *)
(* two fields and of the residual (<<>>: left out)                           *)
Shp == {<<2, 3>>, <<3, 2>>, <<2>>, <<6>>, <<2, 2, 3>>, <<1, 3>>}
Fields == [k : {"field"}, sizes : {<<2>>, <<2, 2>>, <<3>>}, nt : {2, 3}, t : Shp, p : Shp, r : Shp \cup {<<>>}]
Slices == [k : {"times"}, sizes : {<<2>>}, nt : {3}, t : {<<2, 3>>, <<3, 2>>}, p : {<<2, 3>>, <<2>>}, times : {<<0>>, <<4>>, <<0, 2, 4>>, <<5>>, <<0 - 1, 2>>, <<3, 1>>, <<>>}]
Pairs == [k : {"parity", "residual"}, t : Shp, p : Shp, r : Shp \cup {<<>>}, coords : {0, 1, 2, 3, 6}]
Hist == [k : {"optimization", "reward"}, n : 0..2, m : 0..2, a : (0 - 1)..2, b : (0 - 1)..2, d : (0 - 1)..1]
Term == [k : {"terms"}, n : 1..3, ls : {<<>>, <<1>>, <<2>>, <<3>>, <<2, 2>>, <<3, 2>>}]
All == Cases \cup Fields \cup Slices \cup Pairs \cup Hist \cup Term
Init == c \in All
Next == UNCHANGED c
Done == Emit /\ PrintT("@@CASE " \o ToJson(c)) /\ UNCHANGED c
Spec == Init /\ [][Next \/ Done]_c
K(x) == Cut(x.sizes, x.ax, x.ix)
(* two axes are left (or what there was), in their order, the rest is cut     *)
(* within its range                                                          *)
Kept == c.k = "slice" => LET k == K(c) IN /\ Len(k.keep) = (IF Len(c.sizes) < 2 THEN Len(c.sizes) ELSE 2)
                                          /\ \A i \in 1..Len(k.keep) : k.fix[k.keep[i]] = 0 - 1 /\ (i > 1 => k.keep[i - 1] < k.keep[i])
                                          /\ \A a \in 1..Len(c.sizes) : a \notin Elems(k.keep) => k.fix[a] \in 0..(c.sizes[a] - 1)
(* the axis and index asked for are the ones cut                             *)
Asked == c.k = "slice" /\ Len(c.sizes) >= 3 /\ c.ax \in 0..(Len(c.sizes) - 1) =>
           K(c).fix[c.ax + 1] = (IF c.ix \in 0..(c.sizes[c.ax + 1] - 1) THEN c.ix ELSE IndexOf(c.sizes[c.ax + 1], c.ix))
(* cutting one axis after the other is looking up at the cut                 *)
RECURSIVE Walk(_, _, _, _)
Walk(shape, f, ax, ix) == IF Len(shape) <= 3 THEN f ELSE LET a == AxisOf(Len(shape) - 1, ax) + 1 IN Walk(Without(shape, a), TLCEval(Take(shape, f, a, IndexOf(shape[a], ix))), 0 - 1, None)
Looked(shape, f, k, n) == LET sh == [i \in 1..Len(k.keep) |-> shape[k.keep[i]]] \o <<shape[n + 1]>>
                          IN [j \in 1..Times(sh) |-> LET p == Point(sh, j) IN f[Place(shape, [a \in 1..(n + 1) |-> IF a = n + 1 THEN p[Len(sh)] ELSE IF k.fix[a] >= 0 THEN k.fix[a] ELSE p[CHOOSE i \in 1..Len(k.keep) : k.keep[i] = a]])]]
Same == c.k = "slice" => LET sh == c.sizes \o <<c.nt>> f == [i \in 1..Times(sh) |-> i] IN Walk(sh, f, c.ax, c.ix) = Looked(sh, f, K(c), Len(c.sizes))
(* reordering the axes and back changes nothing                              *)
Back == c.k = "slice" => LET n == Len(c.sizes) + 1 sh == c.sizes \o <<c.nt>> ord == [k \in 1..n |-> n + 1 - k] rev == [k \in 1..n |-> sh[ord[k]]] f == [i \in 1..Times(sh) |-> 7 * i] IN Canon(rev, ord, Canon(sh, ord, f)) = f
(* polynomials: the product rule, and a derivative of a product of values    *)
U == <<[c |-> 2, e |-> <<2, 1>>], [c |-> 0 - 3, e |-> <<1, 0>>], [c |-> 5, e |-> <<0, 2>>]>>
V == <<[c |-> 1, e |-> <<1, 1>>], [c |-> 4, e |-> <<0, 0>>]>>
Leibniz == \A x \in (0 - 2)..2, t \in (0 - 1)..1 : /\ PVal(PDer(PMul(U, V), 1), <<x, t>>) = PVal(PMul(PDer(U, 1), V) \o PMul(U, PDer(V, 1)), <<x, t>>)
                                                   /\ PVal(PMul(U, V), <<x, t>>) = PVal(U, <<x, t>>) * PVal(V, <<x, t>>)
                                                   /\ PVal(PolyAt(<<"mul", "u1", "diff", "n2", "u1", "x1">>, 1, U, 1), <<x, t>>) = PVal(U, <<x, t>>) * 2 * PVal(U, <<x, t>>) * PVal(PDer(U, 1), <<x, t>>)
=============================================================================

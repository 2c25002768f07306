----------------------------- MODULE DatasetMC ------------------------------
(* Construction, sampling, the train/validation split and its thinning, on   *)
(* every small grid and axis order; Emit prints the construction requests    *)
(* (well-formed and with one defect each) that are replayed on the code.     *)
EXTENDS Dataset, TLC, Json
CONSTANTS Emit, Orders, Sizes, Defects, MaxDraw
VARIABLES c, phase, pts, vals, train, val
vs == <<c, phase, pts, vals, train, val>>
OrdersOf(m) == IF m = "legacy" THEN {XT} ELSE Orders
Base == [x |-> 10, t |-> 20, y |-> 30, z |-> 40, r |-> 50]
(* a request over the given order and sizes; field values encode the position by axis name *)
Enc(order, sizes, q) == LET U[k \in 0..Len(order)] == IF k = 0 THEN q ELSE U[k-1] \div sizes[Len(order) - k + 1]
                            p == [k \in 1..Len(order) |-> (U[Len(order) - k] % sizes[k]) + 1]
                        IN p
Weight == [x |-> 1, t |-> 10, y |-> 100, z |-> 1000, r |-> 10000]
FieldOf(order, sizes) == [q \in 1..Prod(sizes) |-> LET p == Enc(order, sizes, q - 1) IN FoldLeftDomain(LAMBDA acc, k : acc + p[k] * Weight[order[k]], 0, order)]
Req(m, order, sizes) == [mode |-> m, has |-> (IF m = "legacy" THEN <<"x", "t", "u">> ELSE <<"fields", "coords", "order">>), order |-> order,
   coords |-> [k \in 1..Len(order) |-> [n |-> order[k], v |-> [i \in 1..sizes[k] |-> Base[order[k]] + i]]],
   fields |-> <<[n |-> "u", shape |-> sizes, v |-> FieldOf(order, sizes)]>>, target |-> "u", lhs |-> order[Len(order)], params |-> <<>>, defect |-> "none"]
Init == \E m \in {"legacy", "nd"} : \E order \in OrdersOf(m) : \E sizes \in [1..Len(order) -> Sizes] :
          /\ c = Req(m, order, sizes) /\ phase = "request" /\ pts = <<>> /\ vals = <<>> /\ train = {} /\ val = {}
Build == phase = "request" /\ Valid(c) /\ phase' = "built" /\ UNCHANGED <<c, pts, vals, train, val>>
         /\ (Emit => \A d \in Defects : PrintT("@@CASE " \o ToJson([mode |-> c.mode, order |-> c.order, sizes |-> Lens(c), lhs |-> c.lhs, defect |-> d])))
Draw == /\ phase = "built" /\ ~Emit
        /\ \E S \in SUBSET (1..Total(c)) : S # {} /\ Cardinality(S) <= MaxDraw /\ \E s \in {SetToSeq(S)} :
             /\ pts' = [i \in 1..Len(s) |-> PointAt(c, c.order, s[i] - 1)]
             /\ vals' = [i \in 1..Len(s) |-> Target(c).v[s[i]]]
        /\ phase' = "drawn" /\ UNCHANGED <<c, train, val>>
Split == /\ phase = "drawn" /\ \E S \in SUBSET (1..Len(pts)) : train' = S /\ val' = (1..Len(pts)) \ S
         /\ phase' = "split" /\ UNCHANGED <<c, pts, vals>>
Thin == /\ phase = "split" /\ \E A \in SUBSET train : \E B \in SUBSET val : train' = A /\ val' = B
        /\ phase' = "thinned" /\ UNCHANGED <<c, pts, vals>>
Next == Build \/ Draw \/ Split \/ Thin
Spec == Init /\ [][Next]_vs
Paired == Sampled(c, c.order, pts, vals)
Apart == train \cap val = {} /\ (phase = "split" => train \cup val = 1..Len(pts))
(* layouts are permutations of one another: the field read through any axis order is the same function *)
Layouts == phase = "built" => \A o \in {<<"t">> \o SelectSeq(c.order, LAMBDA n : n # "t"), Spatial(c) \o <<c.lhs>>} :
     Rng(o) = Rng(c.order) => \A q \in 1..Total(c) : LaidOut(c, Target(c), o)[q] = ValueAt(c, o, PointAt(c, o, q - 1))
Complete == phase = "built" => /\ Distinct(Listing(c, c.order))
     /\ \A q \in 1..Total(c) : At(c, Target(c), PosAt(c, c.order, q - 1)) = FoldLeftDomain(LAMBDA acc, k : acc + (PointAt(c, c.order, q - 1)[k] - Base[c.order[k]]) * Weight[c.order[k]], 0, c.order)
(* every listed defect makes the request invalid (checked on the requests the spec itself can build) *)
Swap == phase = "request" => (c.mode = "legacy" /\ Lens(c)[1] # Lens(c)[2] => ~Valid([c EXCEPT !.fields[1].shape = <<Lens(c)[2], Lens(c)[1]>>]))
=============================================================================

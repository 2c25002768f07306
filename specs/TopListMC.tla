------------------------------ MODULE TopListMC ------------------------------
(* Design check: rounds of candidates, some without a number, some earning   *)
(* the same reward, merged by insertion into a list of at most Size.         *)
EXTENDS TopList, TLC
CONSTANTS Texts, Earn, Batch, Rounds
VARIABLES list, seen, n
vars == <<list, seen, n>>
Rec(t) == [r |-> Earn[t], t |-> t]
(* insertion of one candidate                                                *)
Ins(q, c) == IF c.r < 0 \/ c.r \in Rewards(q) THEN q ELSE
   LET k == Cardinality({i \in 1..Len(q) : q[i].r > c.r}) r == SubSeq(q, 1, k) \o <<c>> \o SubSeq(q, k + 1, Len(q)) IN IF Len(r) > Size THEN SubSeq(r, 1, Size) ELSE r
RECURSIVE Fold(_, _)
Fold(q, cs) == IF cs = <<>> THEN q ELSE Fold(Ins(q, Head(cs)), Tail(cs))
Init == list = <<>> /\ seen = {} /\ n = 0
Next == n < Rounds /\ \E b \in [1..Batch -> Texts] : LET cs == [i \in 1..Batch |-> Rec(b[i])] IN
          list' = Fold(list, cs) /\ seen' = seen \cup {b[i] : i \in 1..Batch} /\ n' = n + 1
Spec == Init /\ [][Next]_vars
TheBest == Rewards(list) = Best({Earn[t] : t \in {x \in seen : Earn[x] >= 0}}, Size)
Distinct == Apart(list)
Legal == [][\E b \in [1..Batch -> Texts] : Merged(list, [i \in 1..Batch |-> Rec(b[i])], list')]_vars
Leads == [][list # <<>> => list'[1].r >= list[1].r]_vars
=============================================================================

------------------------------ MODULE DlgaPopMC ------------------------------
(* Design check: one generation keeps the first individual aside, varies all *)
(* of them arbitrarily, puts the kept one back in front, ranks, keeps the    *)
(* better half (by looking each value up again in the score list) and fills  *)
(* up with new ones.  Scores may tie.                                        *)
EXTENDS DlgaPop, TLC
CONSTANTS Size, Rank
Ids == 1..Len(Rank)
VARIABLES pop, kept, best, gen
vars == <<pop, kept, best, gen>>
F(q) == [i \in 1..Len(q) |-> Rank[q[i]]]
Keep == IF Size \div 2 < 1 THEN 1 ELSE Size \div 2
(* the k-th smallest value of a sequence, ties counted                       *)
Kth(f, k) == CHOOSE v \in Members(f) : Cardinality({i \in 1..Len(f) : f[i] < v}) < k /\ Cardinality({i \in 1..Len(f) : f[i] <= v}) >= k
At(f, v) == CHOOSE i \in 1..Len(f) : f[i] = v /\ \A j \in 1..(i - 1) : f[j] # v
Init == pop \in [1..Size -> Ids] /\ kept = <<>> /\ best = 0 /\ gen = 0
Gen == \E v \in [2..Size -> Ids], fill \in [1..(Size - Keep) -> Ids] :
   LET q == [i \in 1..Size |-> IF i = 1 THEN pop[1] ELSE v[i]] f == F(q)
       r == [i \in 1..Size |-> IF i <= Keep THEN q[At(f, Kth(f, i))] ELSE fill[i - Keep]]
   IN pop' = r /\ kept' = [i \in 1..Keep |-> Kth(f, i)] /\ best' = Kth(f, 1) /\ gen' = 1
Next == Gen
Spec == Init /\ [][Next]_vars
Aligned == \A i \in 1..Len(kept) : kept[i] = Rank[pop[i]]
Sorted == \A i \in 1..(Len(kept) - 1) : kept[i] <= kept[i + 1]
Full == Len(pop) = Size
Elite == [][gen = 1 => best' <= best]_vars
Head1 == gen = 1 => best = Rank[pop[1]]
=============================================================================

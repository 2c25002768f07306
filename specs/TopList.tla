------------------------------- MODULE TopList -------------------------------
(* The list of best equations.  Rewards are integer ranks (larger is better, *)
(* NaN < 0 is not a number); equations are texts.  cand, list: sequences of  *)
(* [r, t].                                                                   *)
EXTENDS Integers, Sequences, FiniteSets
Size == 10
Rewards(q) == {q[i].r : i \in 1..Len(q)}
Members(q) == {q[i] : i \in 1..Len(q)}
Numeric(q) == SelectSeq(q, LAMBDA x : x.r >= 0)
Best(S, k) == {x \in S : Cardinality({y \in S : y > x}) < k}
(* the k best distinct rewards of the old list and the round's candidates, best first, each with an equation that earned it *)
Merged(old, cand, new) ==
  LET R == Rewards(Numeric(old)) \cup Rewards(Numeric(cand)) IN
  /\ Rewards(new) = Best(R, Size) /\ Len(new) = Cardinality(Rewards(new))
  /\ \A i \in 1..(Len(new) - 1) : new[i].r > new[i + 1].r
  /\ \A i \in 1..Len(new) : new[i] \in Members(old) \cup Members(cand)
Apart(q) == \A i, j \in 1..Len(q) : i < j => q[i].t # q[j].t
=============================================================================

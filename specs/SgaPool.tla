------------------------------- MODULE SgaPool -------------------------------
(* The population of the genetic symbolic search: a sequence of [t, s]       *)
(* (equation, integer rank of its score; smaller is better, ranks from Bad   *)
(* upwards are no scores at all).                                            *)
EXTENDS Integers, Sequences, FiniteSets
Bad == 1000000
Scores(q) == {q[i].s : i \in 1..Len(q)}
Least(S) == CHOOSE m \in S : \A x \in S : m <= x
Sorted(q) == \A i \in 1..(Len(q) - 1) : q[i].s <= q[i + 1].s
Members(q) == {q[i] : i \in 1..Len(q)}
(* a legal round: truncation is free in what it drops as long as the best of old pool and new candidates is kept *)
Round(before, cands, after, num) ==
  /\ Len(after) = num /\ Sorted(after)
  /\ \A i \in 1..num : after[i] \in Members(before) \cup Members(cands)
  /\ after[1].s = Least(Scores(before) \cup Scores(cands))
Born(cands, after, num) == /\ Len(after) = num /\ Sorted(after) /\ \A i \in 1..num : after[i] \in Members(cands) /\ after[i].s < Bad
                           /\ after[1].s = Least(Scores(cands))
=============================================================================

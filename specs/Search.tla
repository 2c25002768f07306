------------------------------- MODULE Search -------------------------------
(* One risk-seeking search: batches of candidates are evaluated, the elite   *)
(* of each batch trains the sampler and enters the memory, the best so far   *)
(* is remembered.  A candidate is [id, sc, ok, ln]; sc is its reward (0 if   *)
(* not a number), ok says whether evaluation called it valid.                *)
EXTENDS Memory, SequencesExt

Sorted(sc) == SortSeq(sc, <)
(* the (1-num/den) quantile rounded up to a member of the sample             *)
QuantileHigher(sc, num, den) ==
  LET n == Len(sc) k == (n - 1) * (den - num) IN Sorted(sc)[1 + (k + den - 1) \div den]
Scores(b) == [i \in 1..Len(b) |-> b[i].sc]
(* the elite, in batch order                                                 *)
Elite(b, num, den) ==
  LET q == QuantileHigher(Scores(b), num, den) keep(c) == c.sc >= q /\ c.ok IN SelectSeq(b, keep)
Positive(b) == {i \in 1..Len(b) : b[i].ok /\ b[i].sc > 0}
(* nothing to learn from: no elite, or nothing valid with a positive reward  *)
NoTraining(b, num, den) == Elite(b, num, den) = <<>> \/ Positive(b) = {}
BestOf(b, old) == LET s == {b[i].sc : i \in Positive(b)} \cup {old} IN CHOOSE m \in s : \A x \in s : x <= m
Entry(c) == [id |-> c.id, sc |-> c.sc, ln |-> c.ln]
RECURSIVE Remember(_, _, _)
Remember(ms, cap, cs) == IF cs = <<>> THEN ms
                         ELSE Remember(UNION {AfterInsert(m, cap, Entry(Head(cs))) : m \in ms}, cap, Tail(cs))
=============================================================================

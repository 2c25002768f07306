------------------------------- MODULE Memory -------------------------------
(* The bounded best-candidate memory of the symbolic search.                 *)
(* An entry is a record [id, sc, ln]: candidate identity, reward, expression *)
(* length.  mem is the set of entries; Step relations are used both by the   *)
(* design model (MemoryMC) and by trace validation (MemoryTrace).            *)
EXTENDS Integers, FiniteSets, Sequences

Ids(m) == {e.id : e \in m}
MinSc(m) == CHOOSE s \in {e.sc : e \in m} : \A f \in m : s <= f.sc
MaxSc(m) == CHOOSE s \in {e.sc : e \in m} : \A f \in m : s >= f.sc

(* All memories an insertion of e may lead to ("best" discipline).           *)
AfterInsert(m, cap, e) ==
  IF e.id \in Ids(m) THEN {m}
  ELSE IF Cardinality(m) < cap THEN {m \cup {e}}
  ELSE LET all == m \cup {e} IN {all \ {v} : v \in {w \in all : w.sc = MinSc(all)}}

(* Variant that also refuses a longer expression of a reward already held,   *)
(* and lets a shorter-or-equal one take the place of an equally good one.    *)
SameSc(m, e) == {w \in m : w.sc = e.sc}
AfterInsertRmSame(m, cap, e) ==
  IF e.id \in Ids(m) THEN {m}
  ELSE LET same == SameSc(m, e) IN
       IF same = {} THEN AfterInsert(m, cap, e)
       ELSE (IF \E w \in same : w.ln < e.ln THEN {m} ELSE {})
            \cup (IF \E w \in same : w.ln >= e.ln
                  THEN IF Cardinality(m) < cap THEN {m \cup {e}} ELSE {(m \ {w}) \cup {e} : w \in {v \in same : v.ln >= e.ln}}
                  ELSE {})

(* First-in-first-out discipline over a sequence of entries: a repeated      *)
(* candidate moves to the back, a full memory forgets the oldest.            *)
AfterInsertFifo(q, cap, e) ==
  IF \E i \in 1..Len(q) : q[i].id = e.id
  THEN LET same(x) == x.id # e.id IN SelectSeq(q, same) \o <<e>>
  ELSE (IF Len(q) >= cap THEN Tail(q) ELSE q) \o <<e>>

AfterPop(m) == {m \ {v} : v \in {w \in m : w.sc = MinSc(m)}}

(* What a reader must see.                                                   *)
SortedSeq(s) == \A i \in 1..Len(s)-1 : s[i].sc >= s[i+1].sc
IsListing(s, m) == /\ Len(s) = Cardinality(m) /\ {s[i] : i \in 1..Len(s)} = m /\ SortedSeq(s)
=============================================================================

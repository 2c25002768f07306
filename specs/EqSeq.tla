-------------------------------- MODULE EqSeq --------------------------------
(* Equation sequences of the language-model search.  A sequence (without the *)
(* start symbol) alternates terms and operators and begins with the time     *)
(* derivative and a plus; + separates groups of factors, E ends it.          *)
EXTENDS Integers, Sequences, FiniteSets
End == 1
Plus == 2
Times == 3
Over == 4
Start == 5
Ut == 6
Ops == {End, Plus, Times, Over}
Odd(i) == i % 2 = 1
Alternates(s) == \A i \in 1..Len(s) : IF Odd(i) THEN s[i] >= Ut ELSE s[i] \in Ops
Ended(s) == Len(s) >= 1 /\ s[Len(s)] = End
(* ended once, at the end, or cut at the limit                               *)
Sequence(s, max) == /\ Len(s) >= 2 /\ s[1] = Ut /\ s[2] = Plus /\ Alternates(s) /\ Len(s) <= max
                    /\ \A i \in 1..(Len(s) - 1) : s[i] # End
                    /\ (Ended(s) \/ Len(s) = max)
(* -------- reading: groups of terms with the operator in front of each      *)
Body(s) == IF Ended(s) THEN SubSeq(s, 1, Len(s) - 1) ELSE s
RECURSIVE Split(_, _)
Split(s, cur) == IF s = <<>> THEN <<cur>> ELSE IF Head(s) = Plus THEN <<cur>> \o Split(Tail(s), <<>>) ELSE Split(Tail(s), Append(cur, Head(s)))
Groups(s) == Split(Body(s), <<>>)
TermsOf(g) == [i \in 1..((Len(g) + 1) \div 2) |-> g[2 * i - 1]]
Count(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Count(a, a[i]) = Count(b, a[i])
(* a group repeating the terms of an earlier one is dropped                  *)
RECURSIVE Drop(_, _)
Drop(gs, seen) == IF gs = <<>> THEN <<>> ELSE IF \E k \in 1..Len(seen) : SameBag(TermsOf(seen[k]), TermsOf(Head(gs))) THEN Drop(Tail(gs), seen)
                  ELSE <<Head(gs)>> \o Drop(Tail(gs), Append(seen, Head(gs)))
RECURSIVE Join(_)
Join(gs) == IF gs = <<>> THEN <<>> ELSE IF Len(gs) = 1 THEN gs[1] ELSE gs[1] \o <<Plus>> \o Join(Tail(gs))
Concise(s) == Append(Join(Drop(Groups(s), <<>>)), End)
Readable(s) == Alternates(s) /\ Ended(s)
=============================================================================

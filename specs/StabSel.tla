------------------------------ MODULE StabSel -------------------------------
(* Stability selection: the vote that decides what a finished search reports *)
(* when it is switched on.  A candidate of the memory is a record            *)
(* [id, ln, err]: identity, length, test error.  A draw gives every          *)
(* candidate asked one product of error and spread; the smallest wins it.    *)
EXTENDS Integers, Sequences, FiniteSets
Errs(list) == {list[i].err : i \in 1..Len(list)}
(* candidates of equal test error are one candidate, its shortest form       *)
Forms(list, e) == {list[i] : i \in {j \in 1..Len(list) : list[j].err = e}}
Shortest(list, e) == {c \in Forms(list, e) : \A d \in Forms(list, e) : c.ln <= d.ln}
FirstAt(list, e) == CHOOSE i \in 1..Len(list) : list[i].err = e /\ \A j \in 1..(i-1) : list[j].err # e
LastAt(list, e) == CHOOSE i \in 1..Len(list) : list[i].err = e /\ \A j \in (i+1)..Len(list) : list[j].err # e
LeadFirst(list, k) == {e \in Errs(list) : Cardinality({f \in Errs(list) : FirstAt(list, f) < FirstAt(list, e)}) < k}
LeadLast(list, k) == {e \in Errs(list) : Cardinality({f \in Errs(list) : LastAt(list, f) < LastAt(list, e)}) < k}
Few(list, k) == IF Cardinality(Errs(list)) < k THEN Cardinality(Errs(list)) ELSE k
(* who may be asked to vote, as a sequence of identities: no candidate twice, none lost, the shortest of each,
   and the leading ones where there are more than k (by the better or by the worse place of a repeated one) *)
ErrOf(list, i) == (CHOOSE c \in {list[j] : j \in 1..Len(list)} : c.id = i).err
LegalVoters(list, k, asked) ==
  /\ Len(asked) = Few(list, k)
  /\ \A i \in 1..Len(asked) : \E e \in Errs(list) : \E c \in Shortest(list, e) : c.id = asked[i]
  /\ LET es == {ErrOf(list, asked[i]) : i \in 1..Len(asked)} IN
     Cardinality(es) = Len(asked) /\ (es = LeadFirst(list, k) \/ es = LeadLast(list, k))
(* prod[i] = the draws of voter i *)
Draws(prod) == 1..Len(prod[1])
Wins(prod, i) == {d \in Draws(prod) : \A j \in 1..Len(prod) : j # i => prod[i][d] < prod[j][d]}
MayWin(prod, i) == {d \in Draws(prod) : \A j \in 1..Len(prod) : prod[i][d] <= prod[j][d]}
LegalWinner(prod, i) == \A j \in 1..Len(prod) : j = i \/ Cardinality(MayWin(prod, i)) >= Cardinality(Wins(prod, j))
=============================================================================

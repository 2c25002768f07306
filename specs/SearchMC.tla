------------------------------ MODULE SearchMC ------------------------------
(* Design model: every search of up to MaxIter batches over a small universe *)
(* of candidates.  Emit: print each finished history for replay.             *)
EXTENDS Search, TLC, Json
CONSTANTS NIds, B, MaxIter, Num, Den, Cap, Emit
VARIABLES iter, best, bestp, ever, mem, hist
vars == <<iter, best, bestp, ever, mem, hist>>
Sc(i) == CASE i = 1 -> 0 [] i = 2 -> 0 [] OTHER -> i - 2
Ok(i) == i # 1
Cand(i) == [id |-> i, sc |-> Sc(i), ok |-> Ok(i), ln |-> 3]
Init == iter = 0 /\ best = 0 /\ bestp = 0 /\ ever = {} /\ mem = {} /\ hist = <<>>
Next == /\ iter < MaxIter
        /\ \E f \in [1..B -> 1..NIds] :
             LET b == [k \in 1..B |-> Cand(f[k])] e == Elite(b, Num, Den) IN
             /\ iter' = iter + 1 /\ hist' = Append(hist, [k \in 1..B |-> f[k]])
             /\ ever' = ever \cup {f[k] : k \in 1..B}
             /\ best' = BestOf(b, best)
             /\ bestp' = IF best' > best THEN CHOOSE i \in {f[k] : k \in 1..B} : Sc(i) = best' /\ Ok(i) ELSE bestp
             /\ IF NoTraining(b, Num, Den) THEN mem' = mem ELSE mem' \in Remember({mem}, Cap, e)
             /\ (Emit /\ iter' = MaxIter => PrintT("@@CASE " \o ToJson(hist')))
Spec == Init /\ [][Next]_vars
Monotone == [][best' >= best]_vars
BestIsMax == best = (LET s == {Sc(i) : i \in {j \in ever : Ok(j)}} \cup {0} IN CHOOSE m \in s : \A x \in s : x <= m)
BestEvaluated == best > 0 => bestp \in ever /\ Sc(bestp) = best /\ Ok(bestp)
BestInMemory == best > 0 => \E e \in mem : e.sc = best
(* every elite holds the batch's best valid candidates *)
EliteHasBest == [][\A b \in {[k \in 1..B |-> Cand(hist'[Len(hist')][k])]} :
                     Positive(b) # {} => Elite(b, Num, Den) # <<>>]_vars
View == <<iter, best, bestp, ever, mem>>
=============================================================================

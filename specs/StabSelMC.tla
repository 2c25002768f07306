----------------------------- MODULE StabSelMC ------------------------------
(* Design model: weeding out repeated candidates pair by pair - the shorter  *)
(* of two equal ones takes the later place - then the vote.  Every memory of *)
(* up to NMax candidates, every outcome of the draws.                        *)
EXTENDS StabSel, TLC, Json
CONSTANTS NMax, NLn, NErr, K, D, V, Emit
VARIABLES list, work, i, kept, asked, prod, win, pc
vars == <<list, work, i, kept, asked, prod, win, pc>>
Lists == UNION {[1..n -> [ln : 1..NLn, err : 1..NErr]] : n \in 1..NMax}
Init == /\ \E f \in Lists : list = [j \in DOMAIN f |-> [id |-> j, ln |-> f[j].ln, err |-> f[j].err]]
        /\ work = list /\ i = 1 /\ kept = <<>> /\ asked = <<>> /\ prod = <<>> /\ win = 0 /\ pc = "weed"
Weed == /\ pc = "weed" /\ i <= Len(work)
        /\ LET c == work[i] later == {j \in (i+1)..Len(work) : work[j].err = c.err} IN
           /\ work' = [j \in DOMAIN work |-> IF j \in later /\ c.ln < work[j].ln THEN c ELSE work[j]]
           /\ kept' = IF later = {} THEN Append(kept, c.id) ELSE kept
        /\ i' = i + 1 /\ UNCHANGED <<list, asked, prod, win, pc>>
Ask == /\ pc = "weed" /\ i > Len(work) /\ pc' = "draw"
       /\ asked' = SubSeq(kept, 1, IF Len(kept) < K THEN Len(kept) ELSE K)
       /\ UNCHANGED <<list, work, i, kept, prod, win>>
Draw == /\ pc = "draw" /\ prod' \in [1..Len(asked) -> [1..D -> 1..V]] /\ pc' = "vote" /\ UNCHANGED <<list, work, i, kept, asked, win>>
Vote == /\ pc = "vote" /\ pc' = "done"
        /\ LET n == [v \in 1..Len(asked) |-> Cardinality({d \in 1..D : (\A j \in 1..Len(asked) : prod[v][d] <= prod[j][d]) /\ \A j \in 1..(v-1) : prod[v][d] < prod[j][d]})] IN
           win' = CHOOSE v \in 1..Len(asked) : (\A w \in 1..Len(asked) : n[w] <= n[v]) /\ \A w \in 1..(v-1) : n[w] < n[v]
        /\ (Emit => PrintT("@@CASE " \o ToJson([list |-> list, prod |-> prod])))
        /\ UNCHANGED <<list, work, i, kept, asked, prod>>
Next == Weed \/ Ask \/ Draw \/ Vote
Spec == Init /\ [][Next]_vars
NoneLost == pc # "weed" => Len(kept) = Cardinality(Errs(list))
Voters == pc # "weed" => LegalVoters(list, K, asked)
Winner == pc = "done" => LegalWinner(prod, win)
(* an exact candidate - the smallest product in every draw - is never voted down *)
ExactWins == pc = "done" => \A v \in 1..Len(asked) : Wins(prod, v) = 1..D => win = v
=============================================================================

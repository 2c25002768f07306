---------------------------- MODULE AlternateMC -----------------------------
(* Design model.  Candidates 1..NC; every field gives them arbitrary scores; *)
(* a search samples any of them and remembers its evaluations until they are *)
(* cleared (with Forget = FALSE, when nothing is cleared, TLC finds Fresh     *)
(* violated: the clearing is what the guarantee rests on).                   *)
EXTENDS Alternate, TLC, Json
CONSTANTS NC, V, K, Forget, Emit
VARIABLES net, field, score, memo, carry, found, fits, pc, hist
vars == <<net, field, score, memo, carry, found, fits, pc, hist>>
C == 1..NC
RECURSIVE SetToSeq0(_)
SetToSeq0(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN <<x>> \o SetToSeq0(S \ {x})
None == [c \in C |-> 0]
Init == net = 0 /\ field = 0 /\ score = [v \in 0..(K + 1) |-> None] /\ memo = None /\ carry = 0 /\ found = 0 /\ fits = 0 /\ pc = "pretrain" /\ hist = <<>>
Pretrain == pc = "pretrain" /\ net' = 1 /\ pc' = "read" /\ UNCHANGED <<field, score, memo, carry, found, fits, hist>>
Read == /\ pc = "read" /\ field' = net /\ pc' = "clear"
        /\ \E s \in [C -> 0..V] : score' = [score EXCEPT ![net] = s]
        /\ UNCHANGED <<net, memo, carry, found, fits, hist>>
Clear == pc = "clear" /\ pc' = "search" /\ memo' = (IF Forget THEN None ELSE memo) /\ UNCHANGED <<net, field, score, carry, found, fits, hist>>
Known(m, c) == IF m[c] = 0 THEN field ELSE m[c]
Val(m, c) == score[Known(m, c)][c]
Search == /\ pc = "search"
          /\ \E S \in SUBSET C : /\ S # {}
               /\ memo' = [c \in C |-> IF c \in S THEN Known(memo, c) ELSE memo[c]]
               /\ \E b \in S : (\A c \in S : Val(memo', c) <= Val(memo', b)) /\ (\A c \in S : Val(memo', c) = Val(memo', b) => b <= c) /\ found' = b
               /\ hist' = Append(hist, [scores |-> score[field], asked |-> SetToSeq0(S)])
          /\ pc' = (IF fits = K THEN "done" ELSE "fit")
          /\ UNCHANGED <<net, field, score, carry, fits>>
Fit == /\ pc = "fit" /\ pc' = "read" /\ fits' = fits + 1 /\ net' = net + 1
       /\ carry' \in Better(found, Val(memo, found), carry, IF carry = 0 THEN 0 ELSE Val(memo, carry))
       /\ UNCHANGED <<field, score, memo, found, hist>>
Done == pc = "done" /\ pc' = "over" /\ (Emit => PrintT("@@CASE " \o ToJson(hist))) /\ UNCHANGED <<net, field, score, memo, carry, found, fits, hist>>
Next == Pretrain \/ Read \/ Clear \/ Search \/ Fit \/ Done
Spec == Init /\ [][Next]_vars
FieldIsNets == pc \in {"clear", "search", "fit", "done", "over"} => field = net
Fresh == pc \in {"search", "fit", "done", "over"} => \A c \in C : memo[c] \in {0, field}
ReportedBest == pc \in {"done", "over"} => \A c \in {x \in C : memo[x] = field} : score[field][c] <= score[field][found]
Rounds == pc \in {"done", "over"} => fits = K /\ net = K + 1
CarryBetter == [][fits' > fits => /\ score[field][carry'] >= score[field][found]
                                  /\ carry # 0 => score[field][carry'] >= score[field][carry]]_vars
=============================================================================

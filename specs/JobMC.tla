-------------------------------- MODULE JobMC --------------------------------
(* Design check: jobs advance in the cloud while the client submits, asks    *)
(* and downloads into folders of its choice, possibly shared between jobs.   *)
EXTENDS Job, TLC, Json
CONSTANTS Jobs, Dirs, Depth, Emit
VARIABLES code, left, dir, got, hist
vars == <<code, left, dir, got, hist>>
Remotes == {"success", "error", "absent", "garbled", "broken"}
Init == code = [j \in Jobs |-> 0 - 1] /\ left = [j \in Jobs |-> "none"] /\ dir = [d \in Dirs |-> "none"] /\ got = <<>> /\ hist = <<>>
Submit(j) == code[j] = 0 - 1 /\ code' = [code EXCEPT ![j] = 3] /\ UNCHANGED <<left, dir, got, hist>>
Run(j) == code[j] \in {3, 4} /\ \E c \in {4, 9, 12, 13} : c > code[j] /\ code' = [code EXCEPT ![j] = c] /\ UNCHANGED <<left, dir, got, hist>>
Finish(j) == code[j] = 9 /\ code' = [code EXCEPT ![j] = 10] /\ \E r \in Remotes : left' = [left EXCEPT ![j] = r] /\ UNCHANGED <<dir, got, hist>>
(* fetching clears what the folder held, then copies what the job left       *)
Fetch(j, d) == code[j] = 10 /\ Len(hist) < Depth /\ dir' = [dir EXCEPT ![d] = IF left[j] \in {"success", "error"} THEN left[j] ELSE "none"]
               /\ got' = <<j, Outcome(left[j])>> /\ hist' = Append(hist, <<j, left[j], d>>) /\ UNCHANGED <<code, left>>
Next == \E j \in Jobs : Submit(j) \/ Run(j) \/ Finish(j) \/ \E d \in Dirs : Fetch(j, d)
Spec == Init /\ [][Next]_vars
Honest == got # <<>> => (got[2] = "success" <=> left[got[1]] = "success")
Apart == \A j \in Jobs : LET f == Flags(code[j]) IN ~(f.finished /\ f.failed) /\ (left[j] # "none" => f.finished)
Forward == [][\A j \in Jobs : (Flags(code[j]).finished => Flags(code'[j]).finished) /\ (Flags(code[j]).failed => Flags(code'[j]).failed)]_vars
Told == (Emit /\ Len(hist) = Depth) => PrintT("@@CASE " \o ToJson(hist))
=============================================================================

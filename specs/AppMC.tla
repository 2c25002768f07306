-------------------------------- MODULE AppMC --------------------------------
(* Every short session.  truth[k]: what became of run k as far as anyone     *)
(* could know ("going" while its job has not been seen to end).              *)
EXTENDS App, TLC, Json
CONSTANTS Depth, Emit
VARIABLES s, truth, hist
vars == <<s, truth, hist>>
k == Len(truth) + 1
Grow(a) == Len(hist) < Depth /\ hist' = Append(hist, a)
Init == s = Nothing /\ truth = <<>> /\ hist = <<>>
Train == \E m \in {"KD_SGA", "KD_DSCV", "KD_DLGA"}, o \in {"equation", "raises", "nothing"} :
           Grow([act |-> "train", model |-> m, o |-> o, login |-> FALSE]) /\ s' = Trained(k, o) /\ truth' = Append(truth, o)
Submit == \E m \in Gpu, o \in {"sent", "refused"} : Grow([act |-> "train", model |-> m, o |-> o, login |-> TRUE]) /\ s' = Submitted(k, o) /\ truth' = Append(truth, IF o = "sent" THEN "going" ELSE "raises")
Check == s.job # 0 /\ \E o \in {"running", "unreachable", "failed", "success", "error", "missing", "broken"} :
           Grow([act |-> "check", o |-> o]) /\ s' = Checked(s, o) /\ truth' = IF Over(o) THEN [truth EXCEPT ![s.job] = IF o = "success" THEN "equation" ELSE "raises"] ELSE truth
Cancel == Grow([act |-> "cancel"]) /\ s' = Nothing /\ UNCHANGED truth
Figure == \E o \in {"figure", "warned", "file", "message", "nothing", "raises"} : Grow([act |-> "figure", o |-> o]) /\ UNCHANGED <<s, truth>>
Next == Train \/ Submit \/ Check \/ Cancel \/ Figure
Spec == Init /\ [][Next]_vars
Honest == s.eq # 0 => truth[s.eq] = "equation"
Own == (s.kept # 0 => truth[s.kept] = "equation") /\ (s.kept # 0 /\ s.eq # 0 => s.kept = s.eq)
Followed == s.job # 0 => truth[s.job] = "going" /\ s.eq = 0
(* a job nobody saw end is followed until the user asks for something else   *)
Kept == [][(s.job # 0 /\ s'.job = 0) => truth'[s.job] # "going" \/ hist'[Len(hist')].act \in {"train", "cancel"}]_vars
Told == (Emit /\ Len(hist) = Depth) => PrintT("@@CASE " \o ToJson(hist))
=============================================================================

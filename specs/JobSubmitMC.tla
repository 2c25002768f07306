----------------------------- MODULE JobSubmitMC -----------------------------
(* Every kind of submission: exactly one job, in the right project, or none. *)
EXTENDS Job, TLC, Json
VARIABLES s, st, sent
vars == <<s, st, sent>>
Kinds == [explicit : {0, 7}, env : {0, 5}, projects : {<<>>, <<3>>, <<6, 9, 4>>}, file : {"none", "there", "missing"}, login : BOOLEAN, fault : {"none", "list", "submit", "serialise"}, ds : BOOLEAN]
Init == s \in Kinds /\ st = "start" /\ sent = <<>>
Check == st = "start" /\ st' = (IF s.file = "missing" \/ ~s.login \/ s.fault = "serialise" THEN "refused" ELSE "resolving") /\ UNCHANGED <<s, sent>>
Resolve == st = "resolving" /\ st' = (IF s.explicit = 0 /\ s.env = 0 /\ (s.fault = "list" \/ s.projects = <<>>) THEN "refused" ELSE "sending") /\ UNCHANGED <<s, sent>>
Send == st = "sending" /\ sent' = Append(sent, Project(s)) /\ st' = (IF s.fault = "submit" THEN "broken" ELSE "submitted") /\ UNCHANGED s
Next == Check \/ Resolve \/ Send
Spec == Init /\ [][Next]_vars
Once == Len(sent) <= 1 /\ (st = "refused" => Refused(s) /\ sent = <<>>) /\ (st = "submitted" => Accepted(s) /\ sent = <<Project(s)>> /\ sent[1] # 0)
Told == st = "start" => PrintT("@@CASE " \o ToJson(s))
=============================================================================

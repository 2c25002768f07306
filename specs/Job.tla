--------------------------------- MODULE Job ---------------------------------
(* Cloud jobs seen from the client: submit, ask, fetch the result.           *)
EXTENDS Integers, Sequences, FiniteSets
Finished == {10, 11}
FailedCodes == {12, 13}
Flags(code) == [finished |-> code \in Finished, failed |-> code \in FailedCodes]
(* a submission: explicit and configured project (0 = none), the projects    *)
(* the account has, the data file (none, there, missing), whether the        *)
(* credentials are there and which call of the service breaks                *)
Project(s) == IF s.explicit # 0 THEN s.explicit ELSE IF s.env # 0 THEN s.env ELSE IF s.projects # <<>> THEN s.projects[1] ELSE 0
Refused(s) == s.file = "missing" \/ ~s.login \/ s.fault = "serialise" \/ (s.explicit = 0 /\ s.env = 0 /\ s.fault = "list") \/ Project(s) = 0
Accepted(s) == ~Refused(s) /\ s.fault # "submit"
(* what a download yields from what the remote job left behind               *)
Outcome(remote) == CASE remote \in {"success", "error"} -> remote [] remote = "absent" -> "error" [] OTHER -> "raised"
=============================================================================

------------------------------ MODULE DlgaLibMC ------------------------------
(* Design check: configure, build the library column by column, score an     *)
(* individual on the library and name its genes from the configuration.      *)
EXTENDS DlgaLib, TLC, Json
CONSTANTS Max, Unknown, Emit
VARIABLES ops, cols, st
vars == <<ops, cols, st>>
All == Supported \cup Unknown
Init == ops = <<>> /\ cols = <<>> /\ st = "configuring"
Add == st = "configuring" /\ Len(ops) < Max /\ \E o \in All : (\A i \in 1..Len(ops) : ops[i] # o) /\ ops' = Append(ops, o) /\ UNCHANGED <<cols, st>>
Fit == st = "configuring" /\ st' = (IF Accepted(ops) THEN "building" ELSE "refused") /\ UNCHANGED <<ops, cols>>
Build == st = "building" /\ Len(cols) < Len(ops) /\ cols' = Append(cols, ops[Len(cols) + 1]) /\ UNCHANGED <<ops, st>>
Ready == st = "building" /\ Len(cols) = Len(ops) /\ st' = "searching" /\ UNCHANGED <<ops, cols>>
Next == Add \/ Fit \/ Build \/ Ready
Spec == Init /\ [][Next]_vars
(* every gene has a column, and its name is that column's operator           *)
Aligned == st = "searching" => Len(cols) = Len(ops) /\ \A g \in 1..Len(ops) : cols[g] = ops[g] /\ ops[g] \in Supported
Refused == st = "refused" => ops = <<>> \/ \E i \in 1..Len(ops) : ops[i] \in Unknown
Told == (Emit /\ st \in {"searching", "refused"}) => PrintT("@@CASE " \o ToJson(ops))
=============================================================================

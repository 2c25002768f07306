------------------------------ MODULE RunnerMC -------------------------------
(* Design check: stages in order, a fault possible at each; a result file of *)
(* an earlier run may be lying about.                                        *)
EXTENDS Runner, TLC, Json
CONSTANTS Emit, Wide
VARIABLES c, stage, res, exit, data
vars == <<c, stage, res, exit, data>>
Cases == [cfg : {"ok", "absent", "garbled", "list"}, model : {"dlga", "dscv_spr", "sga", "none"}, ds : {"none", "burgers", "nosuch"} \cup (IF Wide THEN {"kdv"} ELSE {}),
          file : FileGood \cup FileBad \cup {"none"}, fit : {"equation", "raises", "nothing", "exits"}, plot : {"fine", "raises"}, old : BOOLEAN]
(* leave out combinations that differ only after the run has ended           *)
Sensible(k) == /\ (k.cfg # "ok" => k.model = "dlga" /\ k.ds = "burgers" /\ k.file = "none" /\ k.fit = "equation" /\ k.plot = "fine")
               /\ (k.model \notin Models => k.file \in {"none", "mat"} /\ k.fit = "equation" /\ k.plot = "fine")
               /\ (Data(k) = "refused" => k.fit = "equation" /\ k.plot = "fine")
               /\ (k.fit # "equation" => k.plot = "fine")
Init == c \in {k \in Cases : Sensible(k)} /\ stage = "read" /\ res = (IF c.old THEN "old success" ELSE "none") /\ exit = 0 - 1 /\ data = "none"
Fail(e) == stage' = "over" /\ res' = "error" /\ exit' = 1 /\ UNCHANGED <<c, data>>
Read == stage = "read" /\ (IF Readable(c) THEN stage' = "choose" /\ res' = "none" /\ UNCHANGED <<c, exit, data>> ELSE Fail("read"))
Choose == stage = "choose" /\ (IF c.model \in Models THEN stage' = "load" /\ UNCHANGED <<c, res, exit, data>> ELSE Fail("choose"))
Load == stage = "load" /\ (IF Data(c) # "refused" THEN stage' = "fit" /\ data' = Data(c) /\ UNCHANGED <<c, res, exit>> ELSE Fail("load"))
Fit == stage = "fit" /\ (CASE c.fit = "equation" -> stage' = "plot" /\ res' = "success" /\ UNCHANGED <<c, exit, data>>
                           [] c.fit \in {"raises", "nothing"} -> Fail("fit")
                           [] c.fit = "exits" -> stage' = "over" /\ exit' = 1 /\ UNCHANGED <<c, res, data>>)
Plot == stage = "plot" /\ stage' = "over" /\ exit' = 0 /\ UNCHANGED <<c, res, data>>
Next == Read \/ Choose \/ Load \/ Fit \/ Plot
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Truthful == stage = "over" => /\ (exit = 0 <=> res = "success") /\ (res = "success" => Succeeds(c)) /\ (Succeeds(c) => exit = 0) /\ res # "old success"
RightData == data # "none" => data = Data(c) /\ (c.file # "none" => data = c.file)
Ends == <>(stage = "over")
Told == (Emit /\ stage = "read") => PrintT("@@CASE " \o ToJson(c))
=============================================================================

----------------------------- MODULE RunnerTrace -----------------------------
(* Recorded runs: what was trained on what with which parameters, the exit   *)
(* status and the result file left behind.                                   *)
EXTENDS TraceBase, Runner
C == Ev.case
R == Ev.result
Equal(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]
Used == /\ Len(Ev.fits) = 1 /\ Ev.fits[1].model = C.model /\ Ev.fits[1].data = Data(C)
        /\ \A i \in 1..Len(Ev.params) : Ev.params[i][1] \in DOMAIN Ev.fits[1].args /\ Ev.fits[1].args[Ev.params[i][1]] = Ev.params[i][2]
Success == /\ Ev.exit = 0 /\ R.status = "success" /\ R.equation = Ev.found /\ ~R.has_error /\ R.model = C.model /\ R.dataset = Ev.name /\ R.params = Ev.asked /\ Used
(* an abrupt end need not leave a result, but never one that claims success  *)
Failure == /\ Ev.exit # 0 /\ R.status # "success" /\ (C.fit # "exits" => R.status = "error" /\ R.has_error /\ R.equation # Ev.found)
           /\ (IF Fits(C) THEN Used ELSE Ev.fits = <<>>)
Verdict == IF Ev.ev = "run" THEN (IF Succeeds(C) THEN Success ELSE Failure) ELSE FALSE
Steps == More /\ \E ok \in {Verdict} : IF ok THEN Advance ELSE Rejected(<<Succeeds(C)>>) /\ Advance
TraceInit == l = 1
TraceSpec == TraceInit /\ [][Steps]_<<l>>
=============================================================================

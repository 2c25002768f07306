----------------------------- MODULE TopListTrace ----------------------------
(* Recorded rounds and the final report.                                     *)
EXTENDS TraceBase, TopList
VARIABLES list
RoundOK == Ev.old = list /\ Merged(Ev.old, Ev.cand, Ev.new) /\ Apart(Ev.new)
ReportOK == Ev.entries = list /\ Ev.best = (IF list = <<>> THEN [r |-> 0 - 1, t |-> ""] ELSE list[1])
Steps == More /\
  \/ Ev.ev = "round" /\ \E ok \in {RoundOK} : IF ok THEN Advance /\ list' = Ev.new ELSE Rejected(<<Ev.old = list, Merged(Ev.old, Ev.cand, Ev.new), Apart(Ev.new)>>) /\ SkipTrace /\ list' = <<>>
  \/ Ev.ev = "report" /\ UNCHANGED list /\ \E ok \in {ReportOK} : IF ok THEN Advance ELSE Rejected(<<Ev.ev>>) /\ Advance
  \/ Ev.ev = "handed" /\ UNCHANGED list /\ \E ok \in {Ev.same} : IF ok THEN Advance ELSE Rejected(<<Ev.ev>>) /\ Advance
  \/ Ev.ev = "begin" /\ list' = <<>> /\ Advance
  \/ Ev.ev = "raised" /\ UNCHANGED list /\ Rejected(<<Ev.what>>) /\ SkipTrace
TraceInit == l = 1 /\ list = <<>>
TraceSpec == TraceInit /\ [][Steps]_<<l, list>>
=============================================================================

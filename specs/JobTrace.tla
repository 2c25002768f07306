------------------------------ MODULE JobTrace -------------------------------
EXTENDS TraceBase, Job
VARIABLE homes
S == Ev.sub
Item(k, f) == \E i \in 1..Len(Ev.sent[1].uploads) : Ev.sent[1].uploads[i].field = k /\ f = Ev.sent[1].uploads[i].content
SubmitOK ==
  /\ Ev.leftovers = 0
  /\ IF Refused(S) THEN Ev.outcome = "raised" /\ Ev.sent = <<>>
     ELSE /\ Len(Ev.sent) = 1 /\ Ev.sent[1].project = Project(S)
          /\ Ev.outcome = (IF Accepted(S) THEN "submitted" ELSE "raised")
          /\ (Accepted(S) => Ev.job = Ev.sent[1].job)
          /\ Ev.sent[1].app = Ev.app /\ Ev.sent[1].sub_model = Ev.sub_model /\ Ev.sent[1].key = Ev.key /\ Ev.sent[1].client = Ev.client
          /\ Item("config", Ev.config)
          /\ (S.file = "there" => Item("dataset_file", Ev.data))
          /\ Len(Ev.sent[1].uploads) = (IF S.file = "there" THEN 2 ELSE 1)
          /\ \A i \in 1..Len(Ev.sent[1].uploads) : Ev.sent[1].uploads[i].field \in {Ev.sent[1].inputs[k] : k \in 1..Len(Ev.sent[1].inputs)}
CheckOK == Ev.asked = Ev.job /\ Ev.code = Ev.given /\ Ev.finished = Flags(Ev.given).finished /\ Ev.failed = Flags(Ev.given).failed
FetchOK == Ev.asked = Ev.job /\ Ev.outcome = Outcome(Ev.remote) /\ (Ev.remote \in {"success", "error"} => Ev.result = Ev.left /\ Ev.dir = Ev.saved /\ Ev.copied)
Verdict == CASE Ev.ev = "submit" -> SubmitOK [] Ev.ev = "check" -> CheckOK [] Ev.ev = "fetch" -> FetchOK [] OTHER -> FALSE
(* a job downloaded without naming a folder gets one no other job is given    *)
Own == Ev.ev = "fetch" /\ Ev.where = "own" /\ Ev.saved # ""
Before == IF Ev.first THEN {} ELSE homes
Next1 == homes' = IF Own THEN Before \union {<<Ev.saved, Ev.job>>} ELSE Before
Separate == Own => \A h \in Before : h[1] = Ev.saved => h[2] = Ev.job
Steps == More /\ Next1 /\ \E ok \in {Verdict /\ Separate} : IF ok THEN Advance ELSE Rejected(<<Ev.ev>>) /\ Advance
TraceInit == l = 1 /\ homes = {}
TraceSpec == TraceInit /\ [][Steps]_<<l, homes>>
=============================================================================

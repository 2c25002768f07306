---------------------------- MODULE WrapperTrace ---------------------------
EXTENDS TraceBase, Wrapper
VARIABLES last, backs, cfg
vs == <<last, backs, cfg>>
(* fit k with plan p: the outcome, whether the backend was contacted and what it was given *)
FitOK == /\ Ev.raised = (Ev.plan # "ok")
         /\ Ev.contacted = ~Refused(Ev.plan)
         /\ (Ev.contacted => Ev.kwargs = cfg)
         /\ (Ev.plan = "ok" => Ev.seen = Ev.given)
UseOK == /\ Ev.predict_raised = (last = 0) /\ Ev.latex_raised = (last = 0)
         /\ IF last = 0 THEN Ev.best = "None" /\ Ev.train = <<>>
            ELSE LET b == backs[last] IN
                 /\ Ev.pred = [i \in 1..Len(Ev.x) |-> 1000 * last + Ev.x[i]]
                 /\ Ev.latex = LatexOf(b, Ev.lhs) /\ Ev.best = BestOf(b) /\ Ev.train = b.data
Verdict == CASE Ev.ev = "new" -> Ev.best = "None" [] Ev.ev = "fit" -> FitOK [] Ev.ev = "use" -> UseOK [] OTHER -> FALSE
Steps == More /\ \E ok \in {Verdict} : IF ~ok THEN Rejected(<<Ev.ev, last>>) /\ SkipTrace /\ UNCHANGED vs
  ELSE Advance /\ (IF Ev.ev = "new" THEN last' = 0 /\ backs' = <<>> /\ cfg' = Ev.kwargs
       ELSE IF Ev.ev = "fit" THEN last' = After(last, Len(backs) + 1, Ev.plan) /\ backs' = Append(backs, Ev.backend) /\ UNCHANGED cfg
       ELSE UNCHANGED vs)
TraceInit == l = 1 /\ last = 0 /\ backs = <<>> /\ cfg = <<>>
TraceSpec == TraceInit /\ [][Steps]_<<l, vs>>
=============================================================================

---------------------------- MODULE StabSelTrace ----------------------------
(* ev = "vote": one finished search - the memory as listed, whom it asked,   *)
(* the draws they gave, what it reported.  ev = "estimate": the real test of *)
(* one equation - its error and spread per mille of what the full sample     *)
(* says, and whether anything else was changed.  ev = "duel": the exact      *)
(* equation against a wrong one, draw by draw.                               *)
EXTENDS TraceBase, StabSel
StVote == /\ Ev.ev = "vote"
          /\ LegalVoters(Ev.list, Ev.k, Ev.asked)
          /\ \E v \in 1..Len(Ev.asked) : Ev.asked[v] = Ev.win /\ LegalWinner(Ev.prod, v)
          /\ Ev.shown = Ev.win /\ Ev.rew = Ev.own /\ Ev.after = [j \in 1..Len(Ev.list) |-> Ev.list[j].id]
StOff == /\ Ev.ev = "off" /\ Ev.asked = <<>> /\ Ev.win = Ev.best /\ Ev.shown = Ev.win
StEstimate == /\ Ev.ev = "estimate" /\ Ev.draws > 1 /\ Ev.spreads = Ev.draws /\ Ev.kept
              /\ Ev.mse \in 960..1040 /\ Ev.cv \in 850..1150
StDuel == /\ Ev.ev = "duel" /\ Ev.won = Ev.draws /\ Ev.draws > 1
Step == More /\ (StVote \/ StOff \/ StEstimate \/ StDuel) /\ Advance
Reject == More /\ ~ENABLED Step /\ Rejected(Ev) /\ SkipTrace
TraceInit == l = 1
TraceSpec == TraceInit /\ [][Step \/ Reject]_l
=============================================================================

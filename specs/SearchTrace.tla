----------------------------- MODULE SearchTrace ----------------------------
EXTENDS TraceBase, Search
VARIABLES cf, best, bestp, seen, mem
vs == <<cf, best, bestp, seen, mem>>
NoCand == [id |-> 0, sc |-> 0, ok |-> FALSE, ln |-> 0]
StNew == /\ Ev.ev = "new" /\ cf' = [cap |-> Ev.cap, num |-> Ev.num, den |-> Ev.den]
         /\ best' = 0 /\ bestp' = 0 /\ seen' = {} /\ mem' = {}
(* a further search on the same object: history dropped or kept as asked     *)
StAgain == /\ Ev.ev = "again" /\ cf' = cf
           /\ IF Ev.keep THEN UNCHANGED <<best, bestp, seen, mem>>
              ELSE best' = 0 /\ bestp' = 0 /\ mem' = {} /\ seen' = (IF mem = {} THEN seen ELSE {})
Row(c, i) == [id |-> c.id, sc |-> c.sc, ln |-> c.ln, obs |-> c.id, prior |-> c.id, on |-> c.on]
RowsOf(cs) == [i \in 1..Len(cs) |-> Row(cs[i], i)]
StStep == /\ Ev.ev = "step" /\ cf' = cf
          /\ LET b == Ev.batch e == Elite(b, cf.num, cf.den) q == QuantileHigher(Scores(b), cf.num, cf.den) IN
             /\ seen' = seen \cup {b[i] : i \in 1..Len(b)}
             /\ best' = BestOf(b, best)
             /\ IF NoTraining(b, cf.num, cf.den)
                THEN /\ Ev.trained = FALSE /\ mem' = mem /\ Ev.ret = 0
                ELSE /\ Ev.trained = TRUE /\ Ev.rows = RowsOf(e) /\ Ev.base = q
                     /\ mem' \in Remember({mem}, cf.cap, e)
                     /\ \E i \in 1..Len(e) : e[i].id = Ev.ret /\ \A k \in 1..Len(e) : e[k].sc <= e[i].sc
                     /\ \A i \in 1..Len(Ev.mini) : \E m \in mem' : m.id = Ev.mini[i].id /\ m.sc = Ev.mini[i].sc /\ m.ln = Ev.mini[i].ln
                                                                    /\ Ev.mini[i].obs = m.id /\ Ev.mini[i].prior = m.id
             /\ IsListing(Ev.list, mem')
             /\ (best' > 0 => Ev.best = best')
             /\ (best' = 0 => Ev.best <= 0)
             /\ bestp' = Ev.bestp
             /\ (best' > 0 => \E c \in seen' : c.id = bestp' /\ c.sc = best' /\ c.ok)
StEnd == /\ Ev.ev = "end" /\ UNCHANGED vs
         /\ IF best > 0 THEN /\ \E c \in seen : c.id = Ev.id /\ c.sc = best /\ c.ok
                             /\ Ev.sc = best /\ Ev.expr = Ev.id
            ELSE seen # {} => \E c \in seen : c.id = Ev.id
Step == More /\ (StNew \/ StAgain \/ StStep \/ StEnd) /\ Advance
Reject == More /\ ~ENABLED Step /\ Rejected(<<cf, best, bestp, mem>>) /\ SkipTrace /\ UNCHANGED vs
TraceInit == l = 1 /\ cf = [cap |-> 1, num |-> 1, den |-> 1] /\ best = 0 /\ bestp = 0 /\ seen = {} /\ mem = {}
TraceSpec == TraceInit /\ [][Step \/ Reject]_<<l, vs>>
=============================================================================

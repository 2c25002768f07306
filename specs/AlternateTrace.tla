--------------------------- MODULE AlternateTrace ---------------------------
EXTENDS TraceBase, Alternate
VARIABLES net, field, carry, found, fits, k, pc
vs == <<net, field, carry, found, fits, k, pc>>
StBegin == /\ Ev.ev = "begin" /\ net' = Ev.net /\ field' = 0 /\ carry' = 0 /\ found' = 0 /\ fits' = 0 /\ k' = Ev.k /\ pc' = "pretrain"
(* fitted to the observations set apart for it; from then on all observations are used, coordinate and value together *)
StPretrain == /\ Ev.ev = "pretrain" /\ pc = "pretrain" /\ Ev.before = net /\ Ev.lost = 0 /\ Ev.strange = 0
              /\ net' = Ev.after /\ pc' = "read" /\ UNCHANGED <<field, carry, found, fits, k>>
(* the field is that of the network as it is, at the collocation points inside the cut *)
StField == /\ Ev.ev = "field" /\ pc = "read" /\ Ev.net = net /\ Ev.value /\ Ev.rate /\ Ev.slopes /\ Ev.strange = 0 /\ Ev.outside = 0 /\ Ev.missing = 0
           /\ field' = net /\ pc' = "search" /\ UNCHANGED <<net, carry, found, fits, k>>
(* every score in use is of this field *)
StSearch == /\ Ev.ev = "search" /\ pc = "search" /\ Ev.net = net /\ field = net /\ Ev.stale = 0 /\ Ev.scored > 0 /\ Ev.own
            /\ found' = [eq |-> Ev.found, sc |-> Ev.fs, was |-> Ev.cs] /\ pc' = "fit" /\ UNCHANGED <<net, field, carry, fits, k>>
StFit == /\ Ev.ev = "fit" /\ pc = "fit" /\ fits < k /\ Ev.before = net
         /\ Ev.eq \in Better(found.eq, found.sc, carry, found.was)
         /\ Ev.coefs /\ Ev.weight = Ev.asked /\ (Ev.signs > 0 => Ev.agree * 100 >= Ev.signs * 97)
         /\ Ev.far = 0 /\ Ev.observed = 0
         /\ carry' = Ev.eq /\ net' = Ev.after /\ fits' = fits + 1 /\ pc' = "read" /\ UNCHANGED <<field, found, k>>
StEnd == /\ Ev.ev = "end" /\ pc = "fit" /\ fits = k /\ Ev.eq = found.eq /\ Ev.own /\ field = net /\ UNCHANGED <<net, field, carry, found, fits, k>> /\ pc' = "over"
(* the penalty of an equation at given points, per mille of the mean squared mismatch computed apart *)
StLoss == /\ Ev.ev = "loss" /\ Ev.ratio \in 999..1001 /\ Ev.zero /\ UNCHANGED vs
Step == More /\ (StBegin \/ StPretrain \/ StField \/ StSearch \/ StFit \/ StEnd \/ StLoss) /\ Advance
Reject == More /\ ~ENABLED Step /\ Rejected(<<net, field, carry, found, fits, k, pc>>) /\ SkipTrace /\ UNCHANGED vs
TraceInit == l = 1 /\ net = 0 /\ field = 0 /\ carry = 0 /\ found = 0 /\ fits = 0 /\ k = 0 /\ pc = "none"
TraceSpec == TraceInit /\ [][Step \/ Reject]_<<l, vs>>
=============================================================================

---------------------------- MODULE DlgaPopTrace -----------------------------
(* Recorded generations, single operators, scores and results.               *)
EXTENDS TraceBase, DlgaPop
VARIABLES c, best, head
vs == <<c, best, head>>
Abs(x) == IF x < 0 THEN -x ELSE x
OpOK == CASE Ev.op = "cross" -> Crossed(Ev.before, Ev.after) /\ PopOK(Ev.after, c.size, c.lib)
          [] Ev.op = "mutate" -> PopOK(Ev.after, c.size, c.lib)
          [] Ev.op = "dedup" -> \A i \in 1..Len(Ev.before) : Ev.after[i] = Dedup(Ev.before[i])
          [] Ev.op = "born" -> PopOK(Ev.after, c.size, c.lib)
(* every kept record is the one a fresh evaluation of the individual at its position gives *)
SelectOK == /\ PopOK(Ev.before, c.size, c.lib)
            /\ Selected(Ev.before, Ev.scores, Ev.after, Ev.kept, c.size, c.lib)
            /\ Ev.recs = Ev.again
            /\ (best # <<>> => Ev.kept[1] <= best[1])
(* residual of the reported coefficients: all numbers in units of 1/16       *)
RECURSIVE Energy(_)
Energy(k) == IF k = 0 THEN 0 ELSE LET d == (Ev.y[k] - Fit(Ev.rows[k], Ev.chrom, Ev.w, Len(Ev.chrom))) \div 16 IN d * d + Energy(k - 1)
(* and no worse than explaining the other time derivative would be            *)
ScoreOK == Len(Ev.w) = Len(Ev.chrom) /\ (Ev.fit - Ev.other) <= 2 + Ev.other \div 1000 /\
           LET e == Energy(Len(Ev.rows)) want == Ev.fit - Genes(Ev.chrom, Len(Ev.chrom)) * Ev.pen IN Abs(e - want) * 20 <= want + 60 * Len(Ev.rows) + 2000
(* what the search returns is its last best record                           *)
ResultOK == /\ Ev.chrom = head.chrom /\ Ev.rec = head.rec /\ Ev.rank = best[1]
            /\ \A i \in 1..(Len(Ev.history) - 1) : Ev.history[i + 1] <= Ev.history[i]
            /\ Len(Ev.history) = Ev.gens /\ Ev.history[Len(Ev.history)] = best[1]
            /\ Ev.log = [i \in 1..Ev.gens |-> [g |-> i, f |-> Ev.history[i], p |-> c.size]]
Steps == More /\
  \/ Ev.ev = "begin" /\ c' = [lib |-> Ev.lib, size |-> Ev.size] /\ best' = <<>> /\ head' = [chrom |-> <<>>, rec |-> ""] /\ Advance
  \/ Ev.ev = "select" /\ \E ok \in {SelectOK} : (IF ok THEN Advance ELSE Rejected(<<"select", PopOK(Ev.before, c.size, c.lib), PopOK(Ev.after, c.size, c.lib), Selected(Ev.before, Ev.scores, Ev.after, Ev.kept, c.size, c.lib), Ev.recs = Ev.again>>) /\ SkipTrace)
        /\ best' = <<Ev.kept[1]>> /\ head' = [chrom |-> Ev.after[1], rec |-> Ev.recs[1]] /\ UNCHANGED c
  \/ Ev.ev \in {"op", "score", "result"} /\ UNCHANGED vs /\
     \E ok \in {IF Ev.ev = "op" THEN OpOK ELSE IF Ev.ev = "score" THEN ScoreOK ELSE ResultOK} : IF ok THEN Advance ELSE Rejected(<<Ev.ev>> \o (IF Ev.ev = "score" THEN <<Energy(Len(Ev.rows)), Ev.fit - Genes(Ev.chrom, Len(Ev.chrom)) * Ev.pen>> ELSE <<>>)) /\ Advance
  \/ Ev.ev = "raised" /\ UNCHANGED vs /\ Rejected(<<Ev.what>>) /\ SkipTrace
TraceInit == l = 1 /\ c = [lib |-> 0, size |-> 0] /\ best = <<>> /\ head = [chrom |-> <<>>, rec |-> ""]
TraceSpec == TraceInit /\ [][Steps]_<<l, vs>>
=============================================================================

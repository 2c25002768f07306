----------------------------- MODULE VizStyleMC -----------------------------
EXTENDS Viz, TLC, Json
CONSTANTS MaxOps, Emit
VARIABLES S, mine, hist
vs == <<S, mine, hist>>
Keys == {"font.size", "axes.labelsize", "lines.linewidth"}
Dflt == [k \in {"font.size", "axes.labelsize"} |-> 12]
Rc0 == [k \in Keys |-> IF k = "lines.linewidth" THEN 2 ELSE 10]
Fresh_ == 20 + Len(hist)
Styles == {<<>>, [k \in {"font.size"} |-> Fresh_], [k \in {"lines.linewidth"} |-> Fresh_]}
Depth == Len(S.stack)
Rec(op, s, how) == hist' = Append(hist, [op |-> op, s |-> s, how |-> how])
Conf == \E s \in Styles : S' = [S EXCEPT !.cfg = Configured(Dflt, s)] /\ mine' = mine /\ Rec("configure", s, "")
User == \E k \in {"font.size", "lines.linewidth"} : /\ S' = SetRc(S, k, Fresh_) /\ mine' = (IF Depth = 0 THEN Upd(mine, k, Fresh_) ELSE mine)
            /\ Rec("set", [x \in {k} |-> Fresh_], "")
Ask == Depth < 2 /\ \E s \in Styles : S' = Begin(S, s) /\ mine' = mine /\ Rec("begin", s, "")
Stop == Depth > 0 /\ \E how \in {"returns", "raises"} : S' = End(S) /\ mine' = mine /\ Rec("end", <<>>, how)
Init == S = [rc |-> Rc0, cfg |-> Dflt, stack |-> <<>>] /\ mine = Rc0 /\ hist = <<>>
Next == Len(hist) < MaxOps /\ (Conf \/ User \/ Ask \/ Stop)
Done == Emit /\ Len(hist) = MaxOps /\ Depth = 0 /\ (\E i \in 1..Len(hist) : hist[i].op = "begin") /\ PrintT("@@CASE " \o ToJson(hist)) /\ UNCHANGED vs
Spec == Init /\ [][Next \/ Done]_vs
(* the caller's own settings survive every request, however it ends           *)
Restored == Depth = 0 => S.rc = mine
(* what the caller set is what the outermost request saved                    *)
Saved == Depth > 0 => S.stack[1] = mine
=============================================================================

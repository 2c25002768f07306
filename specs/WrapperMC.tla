----------------------------- MODULE WrapperMC -----------------------------
(* The wrapper's steps inside one call of fit, interrupted anywhere: checks, *)
(* building the backend, fitting it, publishing.  Whatever the history, what *)
(* a caller can use is a model that was fitted, and the newest such.         *)
EXTENDS Wrapper, TLC, Json
CONSTANTS MaxFits, Emit
VARIABLES hist, pc, cur, model, contacted
vars == <<hist, pc, cur, model, contacted>>
Init == hist = <<>> /\ pc = "idle" /\ cur = "none" /\ model = [id |-> 0, fitted |-> TRUE] /\ contacted = FALSE
Call == /\ pc = "idle" /\ Len(hist) < MaxFits /\ \E p \in Plans : cur' = p /\ hist' = Append(hist, p)
        /\ pc' = "check" /\ contacted' = FALSE /\ UNCHANGED model
        /\ (Emit /\ Len(hist') = MaxFits => PrintT("@@CASE " \o ToJson(hist')))
Check == pc = "check" /\ pc' = (IF Refused(cur) THEN "idle" ELSE "build") /\ UNCHANGED <<hist, cur, model, contacted>>
Build == pc = "build" /\ contacted' = TRUE /\ pc' = (IF cur = "build" THEN "idle" ELSE "fit") /\ UNCHANGED <<hist, cur, model>>
Fit == pc = "fit" /\ pc' = (IF cur = "fit" THEN "idle" ELSE "publish") /\ UNCHANGED <<hist, cur, model, contacted>>
Publish == pc = "publish" /\ model' = [id |-> Len(hist), fitted |-> TRUE] /\ pc' = "idle" /\ UNCHANGED <<hist, cur, contacted>>
Next == Call \/ Check \/ Build \/ Fit \/ Publish
Spec == Init /\ [][Next]_vars
RECURSIVE Expect(_, _)
Expect(h, k) == IF k = 0 THEN 0 ELSE After(Expect(h, k - 1), k, h[k])
LastSuccess == pc = "idle" => model.id = Expect(hist, Len(hist))
NeverHalf == model.fitted
NoContact == contacted => ~Refused(cur)
=============================================================================

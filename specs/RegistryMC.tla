----------------------------- MODULE RegistryMC -----------------------------
EXTENDS Registry, TLC, Json
CONSTANTS Names_, Shared, MaxLoads, Emit
VARIABLES store, objs, hist
vs == <<store, objs, hist>>
Init == store = [n \in Names_ |-> Fresh(n)] /\ objs = <<>> /\ hist = <<>>
Load(n) == /\ Len(hist) < MaxLoads
           /\ objs' = Append(objs, [n |-> n, at |-> store[n], dirty |-> FALSE]) /\ hist' = Append(hist, [op |-> "load", n |-> n]) /\ UNCHANGED store
(* a caller scribbles over everything reachable from what it was given *)
Scribble(i) == /\ Len(hist) < MaxLoads /\ ~objs[i].dirty
               /\ objs' = [objs EXCEPT ![i].dirty = TRUE] /\ hist' = Append(hist, [op |-> "scribble", n |-> objs[i].n])
               /\ store' = IF Shared THEN [store EXCEPT ![objs[i].n] = [m \in Meta |-> <<0, m, 1>>]] ELSE store
Next == (\E n \in Names_ : Load(n)) \/ (\E i \in 1..Len(objs) : Scribble(i))
Done == Emit /\ Len(hist) = MaxLoads /\ PrintT("@@CASE " \o ToJson(hist)) /\ UNCHANGED vs
Spec == Init /\ [][Next \/ Done]_vs
Pristine == \A i \in 1..Len(objs) : objs[i].at = Fresh(objs[i].n)
=============================================================================

--------------------------- MODULE ProgramCacheMC ---------------------------
(* Design model over the library u(1) x(2) n2(3) add(4); every history of    *)
(* building, evaluating and clearing up to MaxSteps.                         *)
EXTENDS ProgramCache, TLC, Json
CONSTANTS MaxSteps, MaxLen, Emit
Ar == <<0, 0, 1, 2>>
Fill == {2}
VARIABLES objs, cache, clock, hist
vars == <<objs, cache, clock, hist>>
Seqs == UNION {[1..n -> 1..4] : n \in 1..MaxLen}
Complete(s) == IF ClosedAt(Ar, s) # {} THEN SubSeq(s, 1, MinOf(ClosedAt(Ar, s)))
               ELSE s \o [k \in 1..NeedAt(Ar, s, Len(s)) |-> 2]
Init == objs = <<>> /\ cache = <<>> /\ clock = 0 /\ hist = <<>>
Go == Len(hist) < MaxSteps
Build(s, skip) == LET t == Complete(s) IN
  /\ Go /\ hist' = Append(hist, [op |-> "build", seq |-> s, skip |-> skip]) /\ UNCHANGED clock
  /\ IF ~skip /\ t \in DOMAIN cache
     THEN objs' = [objs EXCEPT ![cache[t]] = Counted(@, TRUE)] /\ cache' = cache
     ELSE /\ objs' = Append(objs, Fresh(t, TRUE))
          /\ cache' = IF skip THEN cache ELSE [x \in DOMAIN cache \cup {t} |-> IF x = t THEN Len(objs') ELSE cache[x]]
Eval(i) == /\ Go /\ i \in 1..Len(objs) /\ hist' = Append(hist, [op |-> "eval", obj |-> i]) /\ cache' = cache
           /\ clock' = clock + 1
           /\ objs' = IF objs[i].r = "none" THEN [objs EXCEPT ![i].r = ToString(clock)] ELSE objs
Clear == Go /\ cache # <<>> /\ cache' = <<>> /\ hist' = Append(hist, [op |-> "clear"]) /\ UNCHANGED <<objs, clock>>
Next == /\ \/ \E s \in Seqs, skip \in BOOLEAN : Build(s, skip)
           \/ \E i \in 1..MaxSteps : Eval(i)
           \/ Clear
        /\ (Emit /\ Len(hist') = MaxSteps => PrintT("@@CASE " \o ToJson(hist')))
Spec == Init /\ [][Next]_vars
Complete_ == \A i \in 1..Len(objs) : IsComplete(Ar, objs[i].toks)
CacheRight == \A t \in DOMAIN cache : objs[cache[t]].toks = t
NoSharing == \A s, t \in DOMAIN cache : s # t => cache[s] # cache[t]
ViewV == <<objs, cache, Len(hist)>>
=============================================================================

------------------------------ MODULE MemoryMC ------------------------------
(* Design model: every history of insertions over a small universe.          *)
EXTENDS Memory, TLC, Json, SequencesExt
CONSTANTS NIds, MaxSc_, Cap, MaxSteps, Mode, Emit
VARIABLES mem, ever, evicted, hist
vars == <<mem, ever, evicted, hist>>
Score(i) == 1 + ((i * 2) % MaxSc_)
Length(i) == 1 + (i % 2)
Entry(i) == [id |-> i, sc |-> Score(i), ln |-> Length(i)]
Init == mem = {} /\ ever = {} /\ evicted = {} /\ hist = <<>>
After(e) == IF Mode = "rm" THEN AfterInsertRmSame(mem, Cap, e) ELSE AfterInsert(mem, Cap, e)
Ins == /\ Len(hist) < MaxSteps
       /\ \E i \in 1..NIds : \E m2 \in After(Entry(i)) :
            /\ mem' = m2 /\ ever' = ever \cup {Entry(i)}
            /\ evicted' = (evicted \cup ((mem \cup {Entry(i)}) \ m2)) \ m2
            /\ hist' = Append(hist, i)
            /\ (Emit => PrintT("@@CASE " \o ToJson(hist')))
Next == Ins
Spec == Init /\ [][Next]_vars
NoTwins == \A e, f \in mem : e.id = f.id => e = f
Bounded == Cardinality(mem) <= Cap
BestKept == ever # {} => \E e \in mem : e.sc = MaxSc(ever)
(* the memory holds the Cap best scores of everything ever inserted *)
TopK == Mode # "rm" => \A e \in ever \ mem : \A f \in mem : f.sc >= e.sc
FullIfPossible == Mode # "rm" => Cardinality(mem) = (IF Cardinality(ever) < Cap THEN Cardinality(ever) ELSE Cap)
=============================================================================

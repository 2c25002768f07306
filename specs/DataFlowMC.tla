----------------------------- MODULE DataFlowMC -----------------------------
EXTENDS DataFlow, TLC, Json, SequencesExt
CONSTANTS NKinds, MaxOps, Emit
VARIABLES mem, parts, sched, pc
vars == <<mem, parts, sched, pc>>
DSS == <<<<1, 2>>, <<3, 4>>>>
Init == mem = [a \in 1..4 |-> a * 10] /\ parts = <<>> /\ sched = <<>> /\ pc = "caller"
(* the caller starts a fit with a fresh or the previously used model, or rewrites its own data *)
Fit(k, d, reuse) == /\ pc = "caller" /\ Len(sched) < MaxOps
                    /\ reuse => \E i \in DOMAIN sched : sched[i].op = "fit" /\ sched[i].k = k
                    /\ \E copied \in SUBSET {1, 2} :
                         LET base == 100 * (Len(sched) + 1) IN
                         parts' = Take(mem, DSS[d], copied, base) /\ mem' = TakeMem(mem, DSS[d], copied, base)
                    /\ sched' = Append(sched, [op |-> "fit", k |-> k, d |-> d, reuse |-> reuse])
                    /\ pc' = "fitting"
Write(d) == /\ pc = "caller" /\ Len(sched) < MaxOps /\ \E i \in DOMAIN sched : sched[i].op = "fit"
            /\ \A i \in DOMAIN sched : sched[i].op # "write"
            /\ mem' = [mem EXCEPT ![DSS[d][1]] = @ + 1]
            /\ sched' = Append(sched, [op |-> "write", k |-> 0, d |-> d, reuse |-> FALSE]) /\ UNCHANGED <<parts, pc>>
Scratch == pc = "fitting" /\ \E a \in MayWrite(parts, DSS) : mem[a] < 1000 /\ mem' = [mem EXCEPT ![a] = 1000] /\ UNCHANGED <<parts, sched, pc>>
Done == pc = "fitting" /\ pc' = "caller" /\ parts' = <<>> /\ mem' = [a \in 1..4 |-> mem[a]] /\ UNCHANGED sched
Next == (\E k \in 1..NKinds, d \in 1..2, r \in BOOLEAN : Fit(k, d, r)) \/ (\E d \in 1..2 : Write(d)) \/ Scratch \/ Done
Spec == Init /\ [][Next]_vars
CallerDataSafe == [][pc = "fitting" \/ pc' = "fitting" => Untouched(mem, mem', DSS)]_vars
(* a copy is a faithful one until the model itself writes it *)
Faithful == pc = "fitting" => \A i \in DOMAIN parts : mem[parts[i]] = 1000 \/ \E d \in 1..2 : mem[parts[i]] = mem[DSS[d][i]]



Out == Emit /\ pc = "caller" /\ Len(sched) = MaxOps /\ sched[1].d = 1 => PrintT("@@CASE " \o ToJson(sched))
=============================================================================

----------------------------- MODULE SamplerMC -----------------------------
(* Design check: the step-wise masks enforce exactly the constraints on      *)
(* finished expressions, never dead-end and always terminate in bounds.      *)
EXTENDS Sampler, Json
VARIABLES seq, k
Confs == ndJsonDeserialize("confs.ndjson")
vars == <<seq, k>>
S == StateAt(seq, Confs[k].lib)
Init == seq = <<>> /\ k \in 1..Len(Confs)
Choose(t) == ~Complete(S) /\ t \in Allowed(S, Confs[k].cons, Confs[k].lib) /\ seq' = Append(seq, t) /\ UNCHANGED k
Next == \E t \in Toks(Confs[k].lib) : Choose(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
NoDeadEnd == ~Complete(S) => Allowed(S, Confs[k].cons, Confs[k].lib) # {}
Finished == Complete(S) => /\ WellFormed(seq, Confs[k].lib)
                           /\ \A i \in 1..Len(Confs[k].cons) : ~Violates(Confs[k].cons[i], seq, Confs[k].lib)
OpenOK == S.open >= 0 /\ (Complete(S) <=> WellFormed(seq, Confs[k].lib))
(* the masks remove nothing else: whatever is not allowed would make every completion violate something or overrun *)
Bounded == Len(seq) <= 12
Tight == \A t \in Toks(Confs[k].lib) : (~Complete(S) /\ t \notin Allowed(S, Confs[k].cons, Confs[k].lib) /\ S.open + Confs[k].lib[t].ar = 1)
            => LET full == Append(seq, t) IN
               (Len(full) = 1 \/ \E i \in 1..Len(Confs[k].cons) : Violates(Confs[k].cons[i], full, Confs[k].lib))
Ends == <>Complete(S)
=============================================================================

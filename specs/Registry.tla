------------------------------ MODULE Registry ------------------------------
(* Loading registered datasets: every load of a name yields the same thing,  *)
(* whatever was loaded before and whatever the callers did to what they got. *)
EXTENDS Integers, Sequences, FiniteSets
Meta == {"file", "aliases", "domain"}
Fresh(n) == [m \in Meta |-> <<n, m, 0>>]
(* a loaded array must be the stored one, in (x, t) order *)
Orientation(raw, nx, nt) == IF raw = <<nx, nt>> THEN "asis" ELSE IF raw = <<nt, nx>> THEN "turned" ELSE "wrong"
(* prefix expressions of the declared true equation                           *)
Arity(t) == CASE t \in {"add", "sub", "mul", "div", "diff", "diff2", "diff3", "diff4"} -> 2 [] t \in {"n2", "n3", "n4", "n5"} -> 1 [] OTHER -> 0
Known(t) == Arity(t) > 0 \/ t \in {"u1", "x1"}
RECURSIVE Open(_, _, _)
Open(ts, i, k) == IF i > Len(ts) THEN k ELSE IF k = 0 THEN -1 ELSE Open(ts, i + 1, k + Arity(ts[i]) - 1)
Complete(ts) == Len(ts) > 0 /\ Open(ts, 1, 1) = 0 /\ \A i \in 1..Len(ts) : Known(ts[i])
=============================================================================

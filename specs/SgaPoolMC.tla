------------------------------ MODULE SgaPoolMC ------------------------------
(* Every history of scores over a few rounds: whatever candidates variation  *)
(* produces, truncation selection keeps the best and the best never worsens. *)
EXTENDS SgaPool, TLC, Json
CONSTANTS Num, Ranks, MaxC, Rounds, Emit
VARIABLES pool, seen, r, hist
vars == <<pool, seen, r, hist>>
SeqsTo(n) == UNION {[1..k -> Ranks] : k \in 0..n}
Eqs(q, base) == [i \in 1..Len(q) |-> [t |-> base + i, s |-> q[i]]]
(* the Num best of a set, ordered                                            *)
RECURSIVE Take(_, _)
Take(M, n) == IF n = 0 \/ M = {} THEN <<>> ELSE LET m == CHOOSE m \in M : \A x \in M : m.s < x.s \/ (m.s = x.s /\ m.t <= x.t) IN <<m>> \o Take(M \ {m}, n - 1)
Init == \E q \in [1..Num -> Ranks] : pool = Take(Members(Eqs(q, 0)), Num) /\ seen = Scores(pool) /\ r = 0 /\ hist = <<q>>
Turn == r < Rounds /\ \E q \in SeqsTo(MaxC) : LET c == Eqs(q, 100 * (r + 1)) IN
        /\ pool' = Take(Members(pool) \cup Members(c), Num) /\ seen' = seen \cup Scores(c) /\ r' = r + 1 /\ hist' = Append(hist, q)
        /\ (Emit /\ r + 1 = Rounds => PrintT("@@CASE " \o ToJson(hist')))
Next == Turn
Spec == Init /\ [][Next]_vars
Elite == pool[1].s = Least(seen) /\ Len(pool) = Num /\ Sorted(pool)
Monotone == [][pool'[1].s <= pool[1].s]_vars
Legal == [][\E c \in {[i \in 1..Len(hist'[Len(hist')]) |-> [t |-> 100 * r' + i, s |-> hist'[Len(hist')][i]]]} : Round(pool, c, pool', Num)]_vars
=============================================================================

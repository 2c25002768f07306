------------------------------- MODULE DlgaPop -------------------------------
(* The population of the network-assisted genetic search.  An individual is  *)
(* a sequence of modules (terms), a module a sequence of genes; gene g names  *)
(* column g of the term library, g in 0..L-1.                                *)
EXTENDS Integers, Sequences, FiniteSets
ModOK(m, L) == m # <<>> /\ \A i \in 1..Len(m) : m[i] \in 0..(L - 1)
IndOK(c, L) == c # <<>> /\ \A i \in 1..Len(c) : ModOK(c[i], L)
PopOK(q, n, L) == Len(q) = n /\ \A i \in 1..n : IndOK(q[i], L)
Members(q) == {q[i] : i \in 1..Len(q)}
Least(S) == CHOOSE m \in S : \A x \in S : m <= x
(* -------- duplicates                                                       *)
Count(m, g) == Cardinality({i \in 1..Len(m) : m[i] = g})
SameMod(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Count(a, a[i]) = Count(b, a[i])
RECURSIVE Ordered(_)
Ordered(m) == IF m = <<>> THEN <<>> ELSE LET x == Least(Members(m)) k == Count(m, x) IN [i \in 1..k |-> x] \o Ordered(SelectSeq(m, LAMBDA g : g # x))
RECURSIVE Distinct(_, _)
Distinct(c, seen) == IF c = <<>> THEN <<>> ELSE LET m == Ordered(Head(c)) IN IF m \in seen THEN Distinct(Tail(c), seen) ELSE <<m>> \o Distinct(Tail(c), seen \cup {m})
Dedup(c) == Distinct(c, {})
(* -------- crossover: neighbours exchange one module each                   *)
Swapped(a, b, c, d) == \E i \in 1..Len(a), j \in 1..Len(b) : c = [a EXCEPT ![i] = b[j]] /\ d = [b EXCEPT ![j] = a[i]]
Crossed(q, r) == /\ Len(r) = Len(q)
                 /\ \A k \in 1..Len(q) : IF k % 2 = 1 /\ k < Len(q) THEN (Swapped(q[k], q[k + 1], r[k], r[k + 1]) \/ (r[k] = q[k] /\ r[k + 1] = q[k + 1]))
                                         ELSE (k % 2 = 1) => r[k] = q[k]
(* -------- selection: f is the score (a rank) of every individual of q; the kept ones come first, best first *)
Selected(q, f, r, kept, n, L) ==
  /\ PopOK(r, n, L) /\ Len(kept) >= 1 /\ Len(kept) <= n
  /\ \A i \in 1..Len(kept) : \E j \in 1..Len(q) : r[i] = q[j] /\ kept[i] = f[j]
  /\ \A i \in 1..(Len(kept) - 1) : kept[i] <= kept[i + 1]
  /\ kept[1] = Least(Members(f))
(* -------- the score of an individual: residual energy plus a penalty per gene *)
RECURSIVE Prod(_, _)
Prod(row, m) == IF m = <<>> THEN 1 ELSE row[Head(m) + 1] * Prod(row, Tail(m))
RECURSIVE Fit(_, _, _, _)
Fit(row, c, w, k) == IF k = 0 THEN 0 ELSE w[k] * Prod(row, c[k]) + Fit(row, c, w, k - 1)
RECURSIVE Genes(_, _)
Genes(c, k) == IF k = 0 THEN 0 ELSE Len(c[k]) + Genes(c, k - 1)
=============================================================================

------------------------------- MODULE SgaTree -------------------------------
(* Candidate terms as the layered trees the genetic search keeps: a sequence *)
(* of levels; a node is [n, c, st, p, ok]: its name, number of children,     *)
(* (0-based) position of its first child in the next level, position of its  *)
(* parent in the previous one, and whether it carries the data of its name.  *)
EXTENDS Integers, Sequences, FiniteSets
Bin == {"+", "-", "*", "/", "d", "d^2"}
Un == {"^2", "^3"}
Ops == Bin \cup Un
Der == {"d", "d^2"}
Roots == Ops \ {"+", "-"}           \* a term is not itself a sum of terms
Arity(n) == IF n \in Bin THEN 2 ELSE IF n \in Un THEN 1 ELSE 0
RECURSIVE Before(_, _)              \* children of the nodes left of position k
Before(lev, k) == IF k = 1 THEN 0 ELSE Before(lev, k - 1) + lev[k - 1].c
Width(lev) == Before(lev, Len(lev) + 1)
(* well-formed over operands vars, derivatives against den only              *)
WellFormed(T, vars, den, depth) ==
  /\ Len(T) >= 2 /\ Len(T) <= depth /\ Len(T[1]) = 1 /\ T[1][1].n \in Roots
  /\ \A i \in 1..Len(T) : \A k \in 1..Len(T[i]) : LET x == T[i][k] IN
       /\ x.ok /\ x.c = Arity(x.n) /\ (x.c = 0 => x.n \in vars)
       /\ x.c > 0 => /\ i < Len(T) /\ x.st = Before(T[i], k) /\ x.st + x.c <= Len(T[i + 1])
                     /\ \A j \in 1..x.c : T[i + 1][x.st + j].p = k - 1
                     /\ x.n \in Der => T[i + 1][x.st + 2].n \in den /\ T[i + 1][x.st + 2].c = 0
  /\ \A i \in 1..(Len(T) - 1) : Len(T[i + 1]) = Width(T[i])
  /\ Width(T[Len(T)]) = 0
RECURSIVE Pre(_, _, _)
Pre(T, i, k) == LET x == T[i][k] IN <<x.n>> \o (IF x.c = 0 THEN <<>> ELSE IF x.c = 1 THEN Pre(T, i + 1, x.st + 1) ELSE Pre(T, i + 1, x.st + 1) \o Pre(T, i + 1, x.st + 2))
RECURSIVE Text(_, _, _)
Text(T, i, k) == LET x == T[i][k] IN
  IF x.c = 0 THEN x.n ELSE IF x.c = 1 THEN "(" \o x.n \o Text(T, i + 1, x.st + 1) \o ")"
  ELSE "(" \o Text(T, i + 1, x.st + 1) \o x.n \o Text(T, i + 1, x.st + 2) \o ")"
(* a recorded tree: its levels together with its two readings                *)
Told(r, vars, den, depth) == WellFormed(r.lv, vars, den, depth) /\ r.pre = Pre(r.lv, 1, 1) /\ r.text = Text(r.lv, 1, 1)
Shape(T) == [i \in 1..Len(T) |-> [k \in 1..Len(T[i]) |-> T[i][k].c]]
(* mutation exchanges names within an arity class, below the root            *)
Mutant(A, B) == Shape(A) = Shape(B) /\ A[1][1].n = B[1][1].n
(* offspring of two equations: one of a's terms replaced by one of b's       *)
Swapped(c, a, b) == \E i \in 1..Len(a), j \in 1..Len(b) : c = [a EXCEPT ![i] = b[j]]
=============================================================================

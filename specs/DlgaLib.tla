------------------------------- MODULE DlgaLib -------------------------------
(* The configured operators of the network-assisted genetic search: gene i   *)
(* is the i-th operator, in the term library, in the text and in the typeset *)
(* equation.  The field is the polynomial sum c[i][j] x^(i-1) t^(j-1).       *)
EXTENDS Integers, Sequences, FiniteSets
Supported == {"u", "u_x", "u_t", "u_xx", "u_xxx", "u_tt"}
DX(op) == CASE op = "u_x" -> 1 [] op = "u_xx" -> 2 [] op = "u_xxx" -> 3 [] OTHER -> 0
DT(op) == CASE op = "u_t" -> 1 [] op = "u_tt" -> 2 [] OTHER -> 0
RECURSIVE Fall(_, _)
Fall(n, k) == IF k = 0 THEN 1 ELSE n * Fall(n - 1, k - 1)
RECURSIVE PowI(_, _)
PowI(a, n) == IF n = 0 THEN 1 ELSE a * PowI(a, n - 1)
RECURSIVE RowSum(_, _, _, _, _, _)
RowSum(row, j, dt, t, f, i) == IF j = 0 THEN 0 ELSE RowSum(row, j - 1, dt, t, f, i) + (IF j - 1 < dt THEN 0 ELSE row[j] * f * Fall(j - 1, dt) * PowI(t, j - 1 - dt))
RECURSIVE PolySum(_, _, _, _, _, _)
PolySum(c, i, dx, dt, x, t) == IF i = 0 THEN 0 ELSE PolySum(c, i - 1, dx, dt, x, t) + (IF i - 1 < dx THEN 0 ELSE RowSum(c[i], Len(c[i]), dt, t, Fall(i - 1, dx) * PowI(x, i - 1 - dx), i))
Value(c, op, x, t) == PolySum(c, Len(c), DX(op), DT(op), x, t)
Accepted(ops) == ops # <<>> /\ \A i \in 1..Len(ops) : ops[i] \in Supported
Library(c, ops, pts) == [r \in 1..Len(pts) |-> [k \in 1..Len(ops) |-> Value(c, ops[k], pts[r][1], pts[r][2])]]
Column(c, op, pts) == [r \in 1..Len(pts) |-> Value(c, op, pts[r][1], pts[r][2])]
(* how an individual reads: gene g (from 0) is operator g                    *)
Reads(ops, ind) == [i \in 1..Len(ind) |-> [k \in 1..Len(ind[i]) |-> ops[ind[i][k] + 1]]]
=============================================================================

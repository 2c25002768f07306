------------------------------- MODULE EqTerm --------------------------------
(* The value of a vocabulary term at a point, from the Taylor coefficients   *)
(* of u there (in x up to order D; and the first two t-derivatives' own      *)
(* coefficients), modulo a prime.                                            *)
EXTENDS Integers, Sequences, TLC
P == 46337
D == 8
M(x) == x % P
RECURSIVE PowM(_, _)
PowM(a, n) == IF n = 0 THEN 1 ELSE LET h == PowM(a, n \div 2) s == M(h * h) IN IF n % 2 = 0 THEN s ELSE M(s * a)
InvM(a) == PowM(a, P - 2)
(* a series is a sequence of D coefficients, s[k+1] of h^k                   *)
Zeros == [k \in 1..D |-> 0]
Const(v) == [Zeros EXCEPT ![1] = M(v)]
Lin(x0) == [Zeros EXCEPT ![1] = M(x0), ![2] = 1]
AddS(a, b) == [k \in 1..D |-> M(a[k] + b[k])]
RECURSIVE Conv(_, _, _, _)
Conv(a, b, k, i) == IF i > k THEN 0 ELSE M(a[i] * b[k + 1 - i] + Conv(a, b, k, i + 1))
MulS(a, b) == [k \in 1..D |-> Conv(a, b, k, 1)]
RECURSIVE PowS(_, _)
PowS(a, n) == IF n = 0 THEN Const(1) ELSE MulS(a, PowS(a, n - 1))
DerS(a) == [k \in 1..D |-> IF k < D THEN M(k * a[k + 1]) ELSE 0]
RECURSIVE DerN(_, _)
DerN(a, n) == IF n = 0 THEN a ELSE DerN(DerS(a), n - 1)
(* 1/a by recursion on the coefficients: a[1] # 0                            *)
RECURSIVE InvTo(_, _)
InvTo(a, k) == IF k = 1 THEN <<InvM(a[1])>> ELSE LET q == InvTo(a, k - 1)
   RECURSIVE S(_) S(i) == IF i >= k THEN 0 ELSE M(q[i] * a[k + 1 - i] + S(i + 1))
   IN Append(q, M((P - S(1)) * InvM(a[1])))
InvS(a) == InvTo(a, D)
At0(a) == a[1]
Known == {"u", "ux", "uxx", "uxxx", "uxxxx", "uxxxxx", "ux^2", "u^2", "u^3", "(uux)x", "(uux)xx", "(u^3)xx", "(u^4)xx", "(u(u^2)xx)xx", "(1/u)xx", "(u^-2*ux)x",
          "x", "x^2", "x^4", "(uxx+ux/x)^2", "ut", "ut^2", "ut^3", "utt", "uxt", "uxxt", "uxxtt", "(uux)t"}
(* u, v = u_t and w = u_tt as series in x at the point x0                    *)
Term(word, u, v, w, x0) ==
  CASE word = "u" -> At0(u) [] word = "ux" -> At0(DerN(u, 1)) [] word = "uxx" -> At0(DerN(u, 2)) [] word = "uxxx" -> At0(DerN(u, 3))
    [] word = "uxxxx" -> At0(DerN(u, 4)) [] word = "uxxxxx" -> At0(DerN(u, 5))
    [] word = "ux^2" -> At0(PowS(DerS(u), 2)) [] word = "u^2" -> At0(PowS(u, 2)) [] word = "u^3" -> At0(PowS(u, 3))
    [] word = "(uux)x" -> At0(DerS(MulS(u, DerS(u)))) [] word = "(uux)xx" -> At0(DerN(MulS(u, DerS(u)), 2))
    [] word = "(u^3)xx" -> At0(DerN(PowS(u, 3), 2)) [] word = "(u^4)xx" -> At0(DerN(PowS(u, 4), 2))
    [] word = "(u(u^2)xx)xx" -> At0(DerN(MulS(u, DerN(PowS(u, 2), 2)), 2))
    [] word = "(1/u)xx" -> At0(DerN(InvS(u), 2)) [] word = "(u^-2*ux)x" -> At0(DerS(MulS(PowS(InvS(u), 2), DerS(u))))
    [] word = "x" -> M(x0) [] word = "x^2" -> M(x0 * x0) [] word = "x^4" -> M(M(x0 * x0) * M(x0 * x0))
    [] word = "(uxx+ux/x)^2" -> At0(PowS(AddS(DerN(u, 2), MulS(DerS(u), InvS(Lin(x0)))), 2))
    [] word = "ut" -> At0(v) [] word = "ut^2" -> At0(PowS(v, 2)) [] word = "ut^3" -> At0(PowS(v, 3)) [] word = "utt" -> At0(w)
    [] word = "uxt" -> At0(DerS(v)) [] word = "uxxt" -> At0(DerN(v, 2)) [] word = "uxxtt" -> At0(DerN(w, 2))
    [] word = "(uux)t" -> M(At0(v) * At0(DerS(u)) + At0(u) * At0(DerS(v)))
=============================================================================

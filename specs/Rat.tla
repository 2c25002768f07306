-------------------------------- MODULE Rat ---------------------------------
(* Exact rational arithmetic <<n, d>>, d > 0, in lowest terms, small enough  *)
(* for TLC's 32-bit integers.  Two marks: Undef (the operation has no value: *)
(* division by zero ...) and Big (the value leaves the verified range).      *)
EXTENDS Integers, Sequences
Lim == 30000
Undef == <<0, 0>>
Big == <<1, 0>>
RAbs(a) == IF a < 0 THEN -a ELSE a
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Mk(n, d) == IF d = 0 THEN Undef
            ELSE LET g == Gcd(RAbs(n), RAbs(d)) s == IF d < 0 THEN -1 ELSE 1 m == (s * n) \div g e == (s * d) \div g
                 IN IF RAbs(m) > Lim \/ e > Lim THEN Big ELSE <<m, e>>
Marked(a) == a[2] = 0
Mark2(a, b) == IF a = Undef \/ b = Undef THEN Undef ELSE Big
R(n) == <<n, 1>>
Add(a, b) == IF Marked(a) \/ Marked(b) THEN Mark2(a, b) ELSE Mk(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
Neg(a) == IF Marked(a) THEN a ELSE <<-a[1], a[2]>>
Sub(a, b) == Add(a, Neg(b))
Mul(a, b) == IF Marked(a) \/ Marked(b) THEN Mark2(a, b) ELSE Mk(a[1] * b[1], a[2] * b[2])
Inv(a) == IF Marked(a) THEN a ELSE Mk(a[2], a[1])
Div(a, b) == IF Marked(a) \/ Marked(b) THEN Mark2(a, b) ELSE IF b[1] = 0 THEN Undef ELSE Mul(a, Inv(b))
AbsR(a) == IF Marked(a) THEN a ELSE <<RAbs(a[1]), a[2]>>
Less(a, b) == a[1] * b[2] < b[1] * a[2]
RECURSIVE Pow(_, _)
Pow(a, k) == IF k = 1 THEN a ELSE Mul(a, Pow(a, k - 1))
RECURSIVE ISqrtFrom(_, _)
ISqrtFrom(n, k) == IF k * k >= n THEN k ELSE ISqrtFrom(n, k + 1)
ISqrtUp(n) == ISqrtFrom(n, 0)
(* the square root when it is rational, Big (unverified) when it is not      *)
Sqrt(a) == IF Marked(a) THEN a ELSE IF a[1] < 0 THEN Undef
           ELSE LET p == ISqrtUp(a[1]) q == ISqrtUp(a[2]) IN IF p * p = a[1] /\ q * q = a[2] THEN <<p, q>> ELSE Big
RECURSIVE Dyadic(_)
Dyadic(d) == IF d = 1 THEN TRUE ELSE IF d % 2 = 1 THEN FALSE ELSE Dyadic(d \div 2)
=============================================================================

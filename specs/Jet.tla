-------------------------------- MODULE Jet --------------------------------
(* Expressions over functions of several variables, decided by evaluating    *)
(* them on truncated power series with coefficients modulo a prime: the      *)
(* unknown functions are pseudo-random series, so two expressions with the   *)
(* same value denote the same expression (up to a chance of order 1/P).      *)
(* Expressions:                                                              *)
(*   <<"num", n, d>>   <<"var", name>>   <<"add", a, b>>  <<"sub", a, b>>    *)
(*   <<"mul", a, b>>   <<"div", a, b>>   <<"pow", a, n>>                     *)
(*   <<"der", a, axis>>   <<"lap", a>>   <<"fn", a, name>>   <<"err", why>>  *)
(* c = [axes |-> sequence of axis names, space |-> those the Laplacian sums  *)
(* over, deg |-> order kept, seed |-> which instance]                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
P == 46337
MaxI(a, b) == IF a > b THEN a ELSE b
(* how many derivatives are nested                                           *)
RECURSIVE Ord(_)
Ord(e) == CASE e[1] \in {"add", "sub", "mul", "div"} -> MaxI(Ord(e[2]), Ord(e[3]))
            [] e[1] \in {"pow", "fn"} -> Ord(e[2])
            [] e[1] = "der" -> 1 + Ord(e[2])
            [] e[1] = "lap" -> 2 + Ord(e[2])
            [] OTHER -> 0
RECURSIVE Bad(_)
Bad(e) == CASE e[1] \in {"add", "sub", "mul", "div"} -> Bad(e[2]) \/ Bad(e[3])
            [] e[1] \in {"pow", "der", "lap", "fn"} -> Bad(e[2])
            [] e[1] = "err" -> TRUE
            [] OTHER -> FALSE
RECURSIVE Names(_)
Names(e) == CASE e[1] \in {"add", "sub", "mul", "div"} -> Names(e[2]) \cup Names(e[3])
            [] e[1] \in {"pow", "lap", "fn"} -> Names(e[2])
            [] e[1] = "der" -> Names(e[2]) \cup {e[3]}
            [] e[1] = "var" -> {e[2]}
            [] OTHER -> {}
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1 ELSE LET h == Pow(a, n \div 2) s == (h * h) % P IN IF n % 2 = 0 THEN s ELSE (s * a) % P
Inv(a) == Pow(a, P - 2)
Monos(c) == LET d == c.deg n == Len(c.axes) IN {m \in [1..n -> 0..d] : LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE m[i] + S(i - 1) IN S(n) <= d}
Zero(c) == [i \in 1..Len(c.axes) |-> 0]
(* one multi-index below another, and the sum over everything below          *)
RECURSIVE Boxes(_, _)
Boxes(m, k) == IF k = 0 THEN {<<>>} ELSE {Append(b, i) : b \in Boxes(m, k - 1), i \in 0..m[k]}
RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN 0 ELSE LET b == CHOOSE b \in S : TRUE IN (f[b] + SumOver(S \ {b}, f)) % P
JC(c, v) == [m \in Monos(c) |-> IF m = Zero(c) THEN v ELSE 0]
JAdd(f, g) == [m \in DOMAIN f |-> (f[m] + g[m]) % P]
JScale(f, k) == [m \in DOMAIN f |-> (f[m] * k) % P]
JMul(f, g) == [m \in DOMAIN f |-> LET B == Boxes(m, Len(m)) IN SumOver(B, [b \in B |-> (f[b] * g[[i \in 1..Len(m) |-> m[i] - b[i]]]) % P])]
RECURSIVE JPow(_, _, _)
JPow(c, f, n) == IF n = 0 THEN JC(c, 1) ELSE IF n = 1 THEN f ELSE JMul(f, JPow(c, f, n - 1))
(* 1/f = sum of (-h)^i / f0^(i+1), h the part without constant (Horner)      *)
RECURSIVE Geo(_, _, _, _)
Geo(c, h, i, k) == IF k = 0 THEN JC(c, 1) ELSE JAdd(JC(c, 1), JMul(JScale(h, (P - i) % P), Geo(c, h, i, k - 1)))
JInv(c, f) == LET i == Inv(f[Zero(c)]) h == [f EXCEPT ![Zero(c)] = 0] IN JScale(Geo(c, h, i, c.deg), i)
JDer(c, f, a) == [m \in DOMAIN f |-> LET q == [m EXCEPT ![a] = @ + 1] IN IF q \in DOMAIN f THEN (f[q] * q[a]) % P ELSE 0]
(* the unknown functions and coordinates                                     *)
RECURSIVE Mix(_, _)
Mix(h, q) == IF q = <<>> THEN (h * h + 12345) % P ELSE Mix((((h * h + 7 * h + 977) % P) + Head(q) * 3571 + 11) % P, Tail(q))
AxIx(c, a) == CHOOSE i \in 1..Len(c.axes) : c.axes[i] = a
IsAxis(c, a) == \E i \in 1..Len(c.axes) : c.axes[i] = a
JVar(c, n, k) == IF IsAxis(c, n) THEN LET a == AxIx(c, n) IN
                     [m \in Monos(c) |-> IF m = Zero(c) THEN Mix(c.seed, <<900 + a>>) ELSE IF m = [Zero(c) EXCEPT ![a] = 1] THEN 1 ELSE 0]
                 ELSE [m \in Monos(c) |-> Mix(c.seed, <<k>> \o m)]
(* functions of one variable: their value at a point is pseudo-random, their  *)
(* Taylor coefficients there are those of the function; the   *)
(* ones without a rule of their own are told apart only                       *)
FnIx(n) == CASE n = "sin" -> 1 [] n = "cos" -> 2 [] n = "exp" -> 3 [] n = "log" -> 4 [] n = "sqrt" -> 5 [] n = "tan" -> 6 [] n = "abs" -> 7 [] OTHER -> 8
Root(v) == LET S == {r \in 1..((P - 1) \div 2) : (r * r) % P = v} IN IF S = {} THEN 0 ELSE CHOOSE r \in S : TRUE
RECURSIVE Fact(_)
Fact(k) == IF k = 0 THEN 1 ELSE (k * Fact(k - 1)) % P
(* the k-th Taylor coefficient at v, given the values there                   *)
RECURSIVE HalfOver(_)
HalfOver(k) == IF k = 0 THEN 1 ELSE (((HalfOver(k - 1) * ((3 - 2 * k + 2 * P) % P)) % P) * Inv(2 * k)) % P
Taylor(n, v, k) == LET H(i) == Mix(31 + v, <<i, v>>) iv == Inv(v) IN
  CASE n = "exp" -> (H(3) * Inv(Fact(k))) % P
    [] n \in {"sin", "cos"} -> LET j == (k + (IF n = "cos" THEN 1 ELSE 0)) % 4 w == IF j = 0 THEN H(1) ELSE IF j = 1 THEN H(2) ELSE IF j = 2 THEN P - H(1) ELSE P - H(2) IN (w * Inv(Fact(k))) % P
    [] n = "log" -> IF k = 0 THEN H(4) ELSE ((IF k % 2 = 1 THEN 1 ELSE P - 1) * ((Pow(iv, k) * Inv(k)) % P)) % P
    [] n = "sqrt" -> (((HalfOver(k) * Pow(iv, k)) % P) * Root(v)) % P
    [] OTHER -> IF k = 0 THEN H(FnIx(n)) ELSE Mix(77 + k, <<FnIx(n), v>>)
RECURSIVE Compose(_, _, _, _, _)
Compose(c, n, v, h, k) == IF k = c.deg THEN JC(c, Taylor(n, v, k)) ELSE JAdd(JC(c, Taylor(n, v, k)), JMul(h, Compose(c, n, v, h, k + 1)))
JFn(c, n, f) == LET v == f[Zero(c)] IN IF (n = "log" /\ v = 0) \/ (n = "sqrt" /\ (v = 0 \/ Root(v) = 0)) THEN <<>> ELSE Compose(c, n, v, [f EXCEPT ![Zero(c)] = 0], 0)
(* value: a series, or <<>> where something divides by zero                  *)
Ix(q, n) == CHOOSE i \in 1..Len(q) : q[i] = n
RECURSIVE JEval(_, _, _)
JEval(c, vs, e) ==
  LET Two(F(_, _)) == LET f == JEval(c, vs, e[2]) g == JEval(c, vs, e[3]) IN IF f = <<>> \/ g = <<>> THEN <<>> ELSE F(f, g)
      One(F(_)) == LET f == JEval(c, vs, e[2]) IN IF f = <<>> THEN <<>> ELSE F(f)
  IN CASE e[1] = "num" -> JC(c, ((e[2] % P) * Inv(e[3] % P)) % P)
       [] e[1] = "var" -> JVar(c, e[2], IF IsAxis(c, e[2]) THEN 0 ELSE Ix(vs, e[2]))
       [] e[1] = "add" -> Two(LAMBDA f, g : JAdd(f, g))
       [] e[1] = "sub" -> Two(LAMBDA f, g : JAdd(f, JScale(g, P - 1)))
       [] e[1] = "mul" -> Two(LAMBDA f, g : JMul(f, g))
       [] e[1] = "div" -> Two(LAMBDA f, g : IF g[Zero(c)] = 0 THEN <<>> ELSE JMul(f, JInv(c, g)))
       [] e[1] = "pow" -> One(LAMBDA f : IF e[3] >= 0 THEN JPow(c, f, e[3]) ELSE IF f[Zero(c)] = 0 THEN <<>> ELSE JPow(c, JInv(c, f), 0 - e[3]))
       [] e[1] = "fn" -> One(LAMBDA f : JFn(c, e[3], f))
       [] e[1] = "der" -> One(LAMBDA f : JDer(c, f, AxIx(c, e[3])))
       [] e[1] = "lap" -> One(LAMBDA f : LET S(i) == JDer(c, JDer(c, f, AxIx(c, c.space[i])), AxIx(c, c.space[i]))
                                             RECURSIVE T(_) T(i) == IF i = 1 THEN S(1) ELSE JAdd(T(i - 1), S(i)) IN T(Len(c.space)))
JVal(c, vs, e) == LET f == JEval(c, vs, e) IN IF f = <<>> THEN 0 - 1 ELSE f[Zero(c)]
=============================================================================

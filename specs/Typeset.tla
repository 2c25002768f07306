------------------------------ MODULE Typeset ------------------------------
(* Reading a typeset expression by ordinary mathematical convention.  A      *)
(* sequence of LaTeX tokens is read as an expression of Jet:                 *)
(*   - juxtaposition and \cdot multiply, + and - are looser;                 *)
(*   - a subscript of axis letters on a symbol or on a parenthesised group   *)
(*     differentiates it, and binds tighter than a power on the same atom;   *)
(*     a subscript that is a number is part of the name;                     *)
(*   - \frac{\partial f}{\partial x} differentiates f; with nothing after    *)
(*     \partial it differentiates the next factor;                           *)
(*   - a symbol followed by {(arguments)} is applied to them.                *)
(* Two subscripts or two superscripts on the same atom cannot be typeset.    *)
(* n = [names |-> displayed name -> meaning, axes |-> displayed axis -> axis *)
(*      fun |-> names of functions applied to their argument]                *)
EXTENDS Jet
Err(w) == <<<<"err", w>>, 0>>
IsErr(r) == r[2] = 0
Tok(T, i) == IF i >= 1 /\ i <= Len(T) THEN T[i] ELSE [k |-> "end"]
Is(T, i, s) == Tok(T, i).k = "sym" /\ T[i].s = s
IsId(T, i) == Tok(T, i).k = "id"
IsIdent(T, i, s) == IsId(T, i) /\ T[i].s = s
(* the token after a balanced { } or ( ) opened at i                         *)
RECURSIVE Close(_, _, _)
Close(T, i, d) == IF i > Len(T) THEN 0
   ELSE IF T[i].k = "sym" /\ T[i].s \in {"{", "("} THEN Close(T, i + 1, d + 1)
   ELSE IF T[i].k = "sym" /\ T[i].s \in {"}", ")"} THEN (IF d = 1 THEN i ELSE Close(T, i + 1, d - 1))
   ELSE Close(T, i + 1, d)
(* a script argument: one token or a braced group; <<tokens, next>>          *)
Script(T, i) == IF Is(T, i, "{") THEN LET c == Close(T, i, 0) IN IF c = 0 THEN <<<<>>, 0>> ELSE <<SubSeq(T, i + 1, c - 1), c + 1>>
                ELSE IF i <= Len(T) THEN <<<<T[i]>>, i + 1>> ELSE <<<<>>, 0>>
IntTok(q) == (Len(q) = 1 /\ q[1].k = "num" /\ q[1].d = 1) \/ (Len(q) = 2 /\ q[1].k = "sym" /\ q[1].s = "-" /\ q[2].k = "num" /\ q[2].d = 1)
IntOf(q) == IF Len(q) = 1 THEN q[1].n ELSE 0 - q[2].n
RECURSIVE Der(_, _)
Der(e, as) == IF as = <<>> THEN e ELSE Der(<<"der", e, Head(as)>>, Tail(as))
(* the letters of a derivative subscript: a list of axes, or <<"?">>         *)
Letters(n, q) == LET ls == IF Len(q) = 1 /\ q[1].k = "id" THEN q[1].ls ELSE <<>> IN
   IF ls # <<>> /\ \A i \in 1..Len(ls) : ls[i] \in DOMAIN n.axes THEN [i \in 1..Len(ls) |-> n.axes[ls[i]]] ELSE <<"?">>
(* scripts after an atom: <<subscript, superscript, next>>, absent = <<>>; next 0 = cannot be typeset *)
RECURSIVE Scripts(_, _, _, _)
Scripts(T, i, sub, sup) ==
  IF Is(T, i, "_") THEN (IF sub # <<>> THEN <<sub, sup, 0>> ELSE LET s == Script(T, i + 1) IN IF s[2] = 0 \/ s[1] = <<>> THEN <<sub, sup, 0>> ELSE Scripts(T, s[2], s[1], sup))
  ELSE IF Is(T, i, "^") THEN (IF sup # <<>> THEN <<sub, sup, 0>> ELSE LET s == Script(T, i + 1) IN IF s[2] = 0 \/ s[1] = <<>> THEN <<sub, sup, 0>> ELSE Scripts(T, s[2], sub, s[1]))
  ELSE <<sub, sup, i>>
Raise(e, sup, i) == IF sup = <<>> THEN <<e, i>> ELSE IF IntTok(sup) THEN <<<<"pow", e, IntOf(sup)>>, i>> ELSE Err("power")
Meaning(n, s) == IF s \in DOMAIN n.names THEN <<"var", n.names[s]>> ELSE IF s \in DOMAIN n.axes THEN <<"var", n.axes[s]>> ELSE <<"err", s>>
(* the axes of a Leibniz denominator: \partial x_{1}^{2} \partial y ...      *)
Functions == {"sin", "cos", "tan", "log"}
Bare(q) == IF Len(q) > 1 /\ Is(q, 1, "{") /\ Close(q, 1, 0) = Len(q) THEN SubSeq(q, 2, Len(q) - 1) ELSE q
DTok(T, i) == Is(T, i, "\\partial") \/ IsIdent(T, i, "d")
Times(as, k) == [j \in 1..(Len(as) * k) |-> as[1]]
RECURSIVE Denom(_, _, _, _)
Denom(n, T, i, acc) == IF i > Len(T) THEN acc
   ELSE IF ~DTok(T, i) \/ ~IsId(T, i + 1) THEN <<"?">>
   ELSE LET s == Scripts(T, i + 2, <<>>, <<>>)
            nm == IF s[1] = <<>> THEN T[i + 1].s ELSE IF Len(s[1]) = 1 /\ s[1][1].k = "num" THEN T[i + 1].s \o "_" \o s[1][1].t ELSE "?"
            k == IF s[2] = <<>> THEN 1 ELSE IF IntTok(s[2]) THEN IntOf(s[2]) ELSE 0
        IN IF s[3] = 0 \/ k < 1 \/ nm \notin DOMAIN n.axes THEN <<"?">> ELSE Denom(n, T, s[3], acc \o Times(<<n.axes[nm]>>, k))
StartsFactor(T, i) == i <= Len(T) /\ (T[i].k \in {"num", "id"} \/ (T[i].k = "sym" /\ T[i].s \in {"(", "|", "\\frac"}))
RECURSIVE ExprR(_, _, _), TermR(_, _, _), FactorR(_, _, _), MoreTerms(_, _, _, _), MoreFactors(_, _, _, _), Atom(_, _, _)
(* a whole token sequence                                                    *)
Whole(n, T) == LET r == ExprR(n, T, 1) IN IF IsErr(r) THEN r[1] ELSE IF r[2] = Len(T) + 1 THEN r[1] ELSE <<"err", "trailing">>
ExprR(n, T, i) == LET neg == Is(T, i, "-") r == TermR(n, T, IF neg THEN i + 1 ELSE i) IN
   IF IsErr(r) THEN r ELSE MoreTerms(n, T, r[2], IF neg THEN <<"sub", <<"num", 0, 1>>, r[1]>> ELSE r[1])
MoreTerms(n, T, i, e) == IF Is(T, i, "+") \/ Is(T, i, "-") THEN
     LET r == TermR(n, T, i + 1) IN IF IsErr(r) THEN r ELSE MoreTerms(n, T, r[2], <<IF Is(T, i, "+") THEN "add" ELSE "sub", e, r[1]>>)
   ELSE <<e, i>>
TermR(n, T, i) == LET r == FactorR(n, T, i) IN IF IsErr(r) THEN r ELSE MoreFactors(n, T, r[2], r[1])
MoreFactors(n, T, i, e) == LET j == IF Is(T, i, "\\cdot") THEN i + 1 ELSE i IN
   IF j > i \/ StartsFactor(T, j) THEN (IF Tok(T, j).k = "num" /\ j = i /\ e[1] = "num" THEN Err("two numbers side by side")
                                        ELSE LET r == FactorR(n, T, j) IN IF IsErr(r) THEN r ELSE MoreFactors(n, T, r[2], <<"mul", e, r[1]>>))
   ELSE <<e, i>>
FactorR(n, T, i) ==
  IF Is(T, i, "\\frac") THEN
     LET a == IF Is(T, i + 1, "{") THEN Close(T, i + 1, 0) ELSE 0
         b == IF a > 0 /\ Is(T, a + 1, "{") THEN Close(T, a + 1, 0) ELSE 0
     IN IF b = 0 THEN Err("frac") ELSE
        LET A == SubSeq(T, i + 2, a - 1) B == SubSeq(T, a + 2, b - 1) IN
        IF Is(T, b + 1, "_") \/ Is(T, b + 1, "^") THEN Err("script on a fraction")
        ELSE IF DTok(A, 1) /\ DTok(B, 1) THEN
           LET s == Scripts(A, 2, <<>>, <<>>)
               k == IF s[2] = <<>> THEN 1 ELSE IF IntTok(s[2]) THEN IntOf(s[2]) ELSE 0
               as == Denom(n, B, 1, <<>>)
           IN IF s[3] = 0 \/ s[1] # <<>> \/ as = <<"?">> \/ Len(as) # k THEN Err("derivative")
              ELSE IF s[3] > Len(A) THEN LET r == FactorR(n, T, b + 1) IN IF IsErr(r) THEN r ELSE <<Der(r[1], as), r[2]>>
              ELSE LET e == Whole(n, SubSeq(A, s[3], Len(A))) IN <<Der(e, as), b + 1>>
        ELSE LET x == Whole(n, A) y == Whole(n, B) IN <<<<"div", x, y>>, b + 1>>
  ELSE Atom(n, T, i)
Atom(n, T, i) ==
  IF Tok(T, i).k = "num" THEN
     LET s == Scripts(T, i + 1, <<>>, <<>>) e == <<"num", T[i].n, T[i].d>> IN
     IF s[3] = 0 THEN Err("scripts") ELSE
     IF s[1] = <<>> THEN Raise(e, s[2], s[3])
     ELSE LET as == Letters(n, s[1]) IN IF as = <<"?">> THEN Err("subscript") ELSE Raise(Der(e, as), s[2], s[3])
  ELSE IF Is(T, i, "(") THEN
     LET c == Close(T, i, 0) IN IF c = 0 THEN Err("open group") ELSE
     LET e == Whole(n, SubSeq(T, i + 1, c - 1)) s == Scripts(T, c + 1, <<>>, <<>>) IN
     IF s[3] = 0 THEN Err("scripts")
     ELSE IF s[1] = <<>> THEN Raise(e, s[2], s[3])
     ELSE LET as == Letters(n, s[1]) IN IF as = <<"?">> THEN Err("subscript") ELSE Raise(Der(e, as), s[2], s[3])
  ELSE IF Is(T, i, "|") THEN
     LET E == {k \in (i + 1)..Len(T) : Is(T, k, "|")} c == IF E = {} THEN 0 ELSE CHOOSE k \in E : \A j \in E : k <= j IN IF c = 0 THEN Err("open bars") ELSE
     LET e == Whole(n, Bare(SubSeq(T, i + 1, c - 1))) s == Scripts(T, c + 1, <<>>, <<>>) IN
     IF s[3] = 0 \/ s[1] # <<>> THEN Err("scripts") ELSE Raise(<<"fn", e, "abs">>, s[2], s[3])
  ELSE IF IsIdent(T, i, "e") /\ "e" \notin DOMAIN n.names THEN
     LET s == Scripts(T, i + 1, <<>>, <<>>) IN IF s[3] = 0 \/ s[1] # <<>> \/ s[2] = <<>> THEN Err("e") ELSE <<<<"fn", Whole(n, s[2]), "exp">>, s[3]>>
  ELSE IF IsIdent(T, i, "sqrt") THEN
     LET g == Script(T, i + 1) IN IF g[2] = 0 \/ ~Is(T, i + 1, "{") THEN Err("sqrt") ELSE
     LET s == Scripts(T, g[2], <<>>, <<>>) IN IF s[3] = 0 \/ s[1] # <<>> THEN Err("scripts") ELSE Raise(<<"fn", Whole(n, g[1]), "sqrt">>, s[2], s[3])
  ELSE IF IsId(T, i) THEN
     LET s == Scripts(T, i + 1, <<>>, <<>>) IN
     IF s[3] = 0 THEN Err("scripts") ELSE
     LET num == Len(s[1]) = 1 /\ s[1][1].k = "num"
         nm == IF num THEN T[i].s \o "_" \o s[1][1].t ELSE T[i].s
         as == IF s[1] = <<>> \/ num THEN <<>> ELSE Letters(n, s[1])
         call == Is(T, s[3], "{") /\ Is(T, s[3] + 1, "(")
         end == IF call THEN Close(T, s[3], 0) ELSE 0
         arg == IF end > 0 THEN SubSeq(T, s[3] + 2, end - 2) ELSE <<>>
     IN IF as = <<"?">> THEN Err("subscript")
        ELSE IF nm \in n.fun THEN (IF end = 0 THEN Err("call") ELSE Raise(Der(<<"lap", Whole(n, arg)>>, as), s[2], end + 1))
        ELSE IF nm \in Functions THEN (IF end = 0 \/ as # <<>> THEN Err("call") ELSE Raise(<<"fn", Whole(n, arg), nm>>, s[2], end + 1))
        ELSE IF Bad(Meaning(n, nm)) THEN Err(nm)
        ELSE Raise(Der(Meaning(n, nm), as), s[2], IF end > 0 THEN end + 1 ELSE s[3])
  ELSE Err("factor")
=============================================================================

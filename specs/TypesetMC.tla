----------------------------- MODULE TypesetMC -----------------------------
(* The convention is unambiguous on what has to be typeset: every expression *)
(* up to a size can be written so that it reads back as itself.              *)
EXTENDS Typeset, Json
CONSTANTS Depth, Leaves, Emit
VARIABLES e, done
Axs == <<"x", "y">>
RECURSIVE Trees(_)
Trees(d) == LET L == {<<"var", v>> : v \in Leaves} IN IF d = 0 THEN L ELSE LET S == Trees(d - 1) IN
   L \cup {<<o, a, b>> : o \in {"add", "sub", "mul", "div"}, a \in S, b \in S}
     \cup {<<"pow", a, k>> : a \in S, k \in {2, 3}} \cup {<<"der", a, x>> : a \in S, x \in {"x", "y"}}
S(s) == [k |-> "sym", s |-> s]
I(s) == [k |-> "id", s |-> s, ls |-> IF s \in {"x", "y"} THEN <<s>> ELSE <<"?">>]
Nu(v) == [k |-> "num", n |-> v, d |-> 1, t |-> ToString(v)]
Par(q) == <<S("(")>> \o q \o <<S(")")>>
Simple(t) == t[1] = "var"
(* one way of writing it, with subscripts                                    *)
RECURSIVE Show(_)
Grp(t) == IF Simple(t) THEN Show(t) ELSE Par(Show(t))
Show(t) == CASE t[1] = "var" -> <<I(t[2])>>
  [] t[1] = "add" -> Show(t[2]) \o <<S("+")>> \o Grp(t[3])
  [] t[1] = "sub" -> Show(t[2]) \o <<S("-")>> \o Grp(t[3])
  [] t[1] = "mul" -> Grp(t[2]) \o <<S("\\cdot")>> \o Grp(t[3])
  [] t[1] = "div" -> <<S("\\frac"), S("{")>> \o Show(t[2]) \o <<S("}"), S("{")>> \o Show(t[3]) \o <<S("}")>>
  [] t[1] = "pow" -> Grp(t[2]) \o <<S("^"), S("{"), Nu(t[3]), S("}")>>
  [] t[1] = "der" -> Grp(t[2]) \o <<S("_"), S("{"), I(t[3]), S("}")>>
(* and with quotients of differentials                                       *)
RECURSIVE Lei(_)
LGrp(t) == IF Simple(t) THEN Lei(t) ELSE Par(Lei(t))
Lei(t) == CASE t[1] = "var" -> <<I(t[2])>>
  [] t[1] = "add" -> Lei(t[2]) \o <<S("+")>> \o LGrp(t[3])
  [] t[1] = "sub" -> Lei(t[2]) \o <<S("-")>> \o LGrp(t[3])
  [] t[1] = "mul" -> LGrp(t[2]) \o LGrp(t[3])
  [] t[1] = "div" -> <<S("\\frac"), S("{")>> \o Lei(t[2]) \o <<S("}"), S("{")>> \o Lei(t[3]) \o <<S("}")>>
  [] t[1] = "pow" -> LGrp(t[2]) \o <<S("^"), Nu(t[3])>>
  [] t[1] = "der" -> IF Simple(t[2]) THEN <<S("\\frac"), S("{"), S("\\partial"), S("}"), S("{"), S("\\partial"), I(t[3]), S("}")>> \o Lei(t[2])
                     ELSE <<S("\\frac"), S("{"), S("\\partial")>> \o LGrp(t[2]) \o <<S("}"), S("{"), S("\\partial"), I(t[3]), S("}")>>
Nm == [names |-> [v \in Leaves \ {"x", "y"} |-> v], axes |-> [a \in {"x", "y"} |-> a], fun |-> {}]
(* prefix form, for the conformance harness                                  *)
RECURSIVE Pre(_)
Pre(t) == CASE t[1] = "var" -> <<t[2]>> [] t[1] = "pow" -> <<IF t[3] = 2 THEN "n2" ELSE "n3">> \o Pre(t[2])
  [] t[1] = "der" -> <<"diff">> \o Pre(t[2]) \o <<t[3]>> [] OTHER -> <<t[1]>> \o Pre(t[2]) \o Pre(t[3])
Init == e \in Trees(Depth) /\ done = 0
Go == done = 0 /\ done' = 1 /\ UNCHANGED e /\ (Emit => PrintT("@@CASE " \o ToJson(Pre(e))))
Spec == Init /\ [][Go]_<<e, done>>
C == [axes |-> Axs, space |-> Axs, deg |-> Ord(e), seed |-> 101]
ReadsBack == Whole(Nm, Show(e)) = e /\ Whole(Nm, Lei(e)) = e
Vals == JVal(C, <<"u", "p">>, e)
(* the oracle separates: an expression with two operands exchanged is another one unless they commute *)
Separates == e[1] \in {"sub", "div"} /\ e[2] # e[3] => LET v == Vals w == JVal(C, <<"u", "p">>, <<e[1], e[3], e[2]>>) IN v # w \/ v = 0 - 1 \/ w = 0 - 1 \/ v = 0 \/ v = 1
=============================================================================

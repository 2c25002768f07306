------------------------------- MODULE ExprMC -------------------------------
(* All complete expressions of a small library up to MaxLen tokens, grown    *)
(* token by token; checks that splitting preserves the sum and emits every   *)
(* expression for evaluation by the real code.                               *)
EXTENDS Expr, Json
CONSTANTS MaxLen, Emit, Lib
VARIABLES seq, open
vars == <<seq, open>>
G == [dim |-> 1, shape |-> <<4, 2>>, x |-> << <<R(-1), <<-1, 2>>, R(0), H>> >>, leaf |-> ("u1" :> [k |-> "u", i |-> 1] @@ "x1" :> [k |-> "x", i |-> 1]),
      u |-> << <<R(1), R(-2), R(3), H, R(-1), R(2), R(2), R(1)>> >>, p |-> <<>>]
Init == seq = <<>> /\ open = 1
RightOfDeriv(s) == \* is the next position the right operand of a derivative whose left operand has just closed?
  \E i \in 1..Len(s) : s[i] \in Derivs /\ i < Len(s) /\ (LET RECURSIVE need(_, _) need(j, o) == IF j > Len(s) THEN o ELSE IF o = 0 THEN -1 ELSE need(j + 1, o - 1 + Arity(s[j])) IN need(i + 1, 1) = 0)
LeftOfDeriv(s) == s # <<>> /\ s[Len(s)] \in Derivs
Next == /\ open > 0
        /\ \E t \in Lib : /\ Len(seq) + open + Arity(t) <= MaxLen
             /\ (RightOfDeriv(seq) => t = "x1")
             /\ (LeftOfDeriv(seq) => t # "x1")
             /\ seq' = Append(seq, t) /\ open' = open - 1 + Arity(t)
             /\ (Emit /\ open' = 0 => PrintT("@@CASE " \o ToJson(seq')))
Spec == Init /\ [][Next]_vars
RECURSIVE SumTerms(_, _, _)
SumTerms(ts, sg, k) == IF k = 0 THEN Seal(TRUE, [p \in 1..8 |-> R(0)])
  ELSE Map2(LAMBDA a, b : IF sg[k] = 1 THEN Add(a, b) ELSE Sub(a, b), SumTerms(ts, sg, k - 1), Eval(G, ts[k]))
SplitSound == open = 0 => LET ts == Terms(seq) w == Eval(G, seq) s == SumTerms(ts, Signs(seq), Len(ts)) IN
                 /\ \A i \in 1..Len(ts) : ts[i][1] \notin Sums
                 /\ (w.st = "ok" /\ s.st = "ok") => w.v = s.v
                 /\ (w.st = "undef" <=> s.st = "undef")
=============================================================================

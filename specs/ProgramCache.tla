---------------------------- MODULE ProgramCache ----------------------------
(* Identity of search candidates.  A candidate is built from a token         *)
(* sequence; building truncates after a complete prefix expression and       *)
(* completes an unfinished one with coordinate tokens.  The cache maps a     *)
(* complete sequence to the candidate that owns its evaluation.              *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE Need(_, _)
(* operands still missing after the first k tokens                           *)
Need(ar, s) == IF s = <<>> THEN 1 ELSE Need(ar, SubSeq(s, 1, Len(s)-1)) - 1 + ar[s[Len(s)]]
NeedAt(ar, s, k) == Need(ar, SubSeq(s, 1, k))
ClosedAt(ar, s) == {k \in 1..Len(s) : NeedAt(ar, s, k) = 0}
IsComplete(ar, s) == s # <<>> /\ NeedAt(ar, s, Len(s)) = 0 /\ \A k \in 1..Len(s)-1 : NeedAt(ar, s, k) > 0
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
(* t is what building from s may store                                       *)
IsCompletion(ar, fill, s, t) ==
  IF ClosedAt(ar, s) # {} THEN t = SubSeq(s, 1, MinOf(ClosedAt(ar, s)))
  ELSE /\ Len(t) = Len(s) + NeedAt(ar, s, Len(s)) /\ SubSeq(t, 1, Len(s)) = s
       /\ \A k \in Len(s)+1..Len(t) : t[k] \in fill
(* objs: sequence of candidates in order of creation                         *)
Fresh(t, on) == [toks |-> t, consts |-> <<>>, r |-> "none", on |-> IF on THEN 1 ELSE 0, off |-> IF on THEN 0 ELSE 1]
Counted(o, on) == [o EXCEPT !.on = IF on THEN @ + 1 ELSE @, !.off = IF on THEN @ ELSE @ + 1]
=============================================================================

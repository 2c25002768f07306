------------------------------ MODULE Sampler ------------------------------
(* The constrained token sampler of the expression search.                   *)
(* State: the stack of open operator nodes of the partial prefix expression. *)
(* A library is a sequence of token records                                  *)
(*   [nm, ar, kind \in {"state","input","param","const","op"}, diff, trig,   *)
(*    inv]   (inv = token index of the inverse unary operator, or 0)         *)
(* and a configuration a sequence of constraint records [c, ...].            *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

Toks(lib) == 1..Len(lib)
Terminals(lib) == {t \in Toks(lib) : lib[t].ar = 0}
Unaries(lib)   == {t \in Toks(lib) : lib[t].ar = 1}
Binaries(lib)  == {t \in Toks(lib) : lib[t].ar = 2}
Diffs(lib)     == {t \in Toks(lib) : lib[t].diff}
States(lib)    == {t \in Toks(lib) : lib[t].kind = "state"}
(* the variables derivatives are taken against: coordinates, or the fields when there are none *)
Inputs(lib)    == LET i == {t \in Toks(lib) : lib[t].kind = "input"} IN IF i = {} THEN States(lib) ELSE i
Named(lib, ns) == {t \in Toks(lib) : lib[t].nm \in ns}

---------------------------------------------------------------------------
(* Partial expressions *)
Start == [stack |-> <<>>, n |-> 0, open |-> 1, cnt |-> <<>>]
(* an open node: [tok, kids] where kids are the head tokens of its finished or started children *)
RECURSIVE Close(_, _)
Close(st, lib) == \* drop nodes that have all their operands
  IF st # <<>> /\ Len(Last(st).kids) = lib[Last(st).tok].ar /\ Last(st).done = lib[Last(st).tok].ar
  THEN LET r == Front(st) IN
       Close(IF r = <<>> THEN r ELSE [r EXCEPT ![Len(r)].done = @ + 1], lib)
  ELSE st
Push(s, t, lib) ==
  LET st0 == IF s.stack = <<>> THEN s.stack ELSE [s.stack EXCEPT ![Len(s.stack)].kids = Append(@, t)]
      st1 == IF lib[t].ar = 0
             THEN IF st0 = <<>> THEN st0 ELSE [st0 EXCEPT ![Len(st0)].done = @ + 1]
             ELSE Append(st0, [tok |-> t, kids |-> <<>>, done |-> 0])
  IN [stack |-> Close(st1, lib), n |-> s.n + 1, open |-> s.open - 1 + lib[t].ar, cnt |-> Append(s.cnt, t)]
StateAt(seq, lib) == FoldLeft(LAMBDA s, t : Push(s, t, lib), Start, seq)

Parent(s) == IF s.stack = <<>> THEN 0 ELSE Last(s.stack).tok
Sibling(s) == IF s.stack = <<>> \/ Last(s.stack).kids = <<>> THEN 0 ELSE Last(Last(s.stack).kids)
Ancestors(s) == {s.stack[i].tok : i \in 1..Len(s.stack)}
Complete(s) == s.open = 0
Occ(s, T) == Cardinality({i \in 1..Len(s.cnt) : s.cnt[i] \in T})

---------------------------------------------------------------------------
(* Relational constraints: targets T must not stand in relation rel to effectors E *)
RelForbids(rel, T, E, s, t, lib) ==
  CASE rel = "child"      -> t \in T /\ Parent(s) \in E
    [] rel = "descendant" -> t \in T /\ Ancestors(s) \cap E # {}
    [] rel = "sibling"    -> \/ t \in T /\ Sibling(s) \in E
                             \/ t \in E /\ Sibling(s) \in T
    [] rel = "uchild"     -> t \in T /\ \/ Parent(s) \in E /\ lib[Parent(s)].ar = 1
                                        \/ Parent(s) \in E /\ Sibling(s) \in T
    [] rel = "lchild"     -> t \in T /\ Parent(s) \in E /\ Sibling(s) = 0
    [] rel = "rchild"     -> t \in T /\ Parent(s) \in E /\ Sibling(s) # 0

(* every configured constraint as relation/targets/effectors, where it is one *)
RelOf(c, lib) ==
  CASE c.c = "relational" -> [rel |-> c.rel, T |-> Named(lib, ToSet(c.targets)), E |-> Named(lib, ToSet(c.effectors))]
    [] c.c = "trig"       -> [rel |-> "descendant", T |-> {t \in Toks(lib) : lib[t].trig}, E |-> {t \in Toks(lib) : lib[t].trig}]
    [] c.c = "const"      -> [rel |-> "uchild", T |-> {t \in Toks(lib) : lib[t].kind = "const"}, E |-> Unaries(lib) \cup Binaries(lib)]
    [] c.c = "diff_left"  -> [rel |-> "lchild", T |-> Inputs(lib) \cup {t \in Toks(lib) : lib[t].kind = "const"}, E |-> Diffs(lib)]
    [] c.c = "diff_left_strict" -> [rel |-> "lchild", T |-> Toks(lib) \ (Diffs(lib) \cup States(lib)), E |-> Diffs(lib)]
    [] c.c = "diff_right" -> [rel |-> "rchild", T |-> Toks(lib) \ Inputs(lib), E |-> Diffs(lib)]
    [] c.c = "diff_descedent" -> [rel |-> "descendant",
          T |-> Named(lib, {"add","add_t","sub","sub_t"} \cup ToSet(c.extra)) \cup {t \in Toks(lib) : lib[t].kind = "const"}, E |-> Diffs(lib)]
    [] c.c = "diff_descedent2" -> [rel |-> "descendant",
          T |-> Named(lib, {"n2","n3","n4","mul","div","exp","log","sin","cos"}) \cup {t \in Toks(lib) : lib[t].kind = "const"}, E |-> Diffs(lib)]
    [] OTHER -> [rel |-> "none", T |-> {}, E |-> {}]
IsRel(c) == c.c \in {"relational","trig","const","diff_left","diff_left_strict","diff_right","diff_descedent","diff_descedent2"}
(* a constraint that cannot mean anything with this library is skipped by construction *)
Live(c, lib) ==
  IF IsRel(c) THEN LET r == RelOf(c, lib) IN r.T # {} /\ r.E # {}
  ELSE IF c.c = "inverse" THEN \E t \in Toks(lib) : lib[t].inv # 0
  ELSE TRUE

Forbids(c, s, t, lib) ==
  CASE IsRel(c) -> LET r == RelOf(c, lib) IN RelForbids(r.rel, r.T, r.E, s, t, lib)
    [] c.c = "length" ->
         \/ s.n = 0 /\ lib[t].ar = 0                       \* a bare operand is never a candidate
         \/ c.max # 0 /\ s.n + 1 + (s.open - 1 + lib[t].ar) > c.max
         \/ c.min # 0 /\ lib[t].ar = 0 /\ s.open = 1 /\ s.n + 1 < c.min
    [] c.c = "repeat" -> t \in Named(lib, ToSet(c.tokens)) /\ Occ(s, Named(lib, ToSet(c.tokens))) >= c.max
    [] c.c = "inverse" -> Parent(s) # 0 /\ lib[Parent(s)].inv # 0 /\ t = lib[Parent(s)].inv
    [] c.c = "no_inputs" -> s.n > 0 /\ s.open = 1 /\ lib[t].ar = 0 /\ lib[t].kind # "state" /\ Occ(s, States(lib)) = 0
    [] OTHER -> FALSE                                       \* soft priors forbid nothing

Allowed(s, cons, lib) == {t \in Toks(lib) : \A i \in 1..Len(cons) : Live(cons[i], lib) => ~Forbids(cons[i], s, t, lib)}

---------------------------------------------------------------------------
(* What the constraints are for, stated on a finished expression by positions *)
RECURSIVE EndOf(_, _, _)
EndOf(seq, i, lib) == \* last position of the subexpression starting at i
  IF lib[seq[i]].ar = 0 THEN i
  ELSE IF lib[seq[i]].ar = 1 THEN EndOf(seq, i + 1, lib)
  ELSE EndOf(seq, EndOf(seq, i + 1, lib) + 1, lib)
WellFormed(seq, lib) == \* exactly one complete prefix expression
  LET d[k \in 0..Len(seq)] == IF k = 0 THEN 1 ELSE d[k-1] - 1 + lib[seq[k]].ar
  IN seq # <<>> /\ d[Len(seq)] = 0 /\ \A k \in 0..(Len(seq)-1) : d[k] > 0
Under(seq, i, j, lib) == i < j /\ j <= EndOf(seq, i, lib)
KidsOf(seq, i, lib) ==
  IF lib[seq[i]].ar = 0 THEN <<>>
  ELSE IF lib[seq[i]].ar = 1 THEN <<i + 1>>
  ELSE <<i + 1, EndOf(seq, i + 1, lib) + 1>>
Has2(seq, rel, T, E, lib) == \* a violating pair
  \E i \in 1..Len(seq) : LET k == KidsOf(seq, i, lib) IN
    CASE rel = "child" -> seq[i] \in E /\ \E a \in 1..Len(k) : seq[k[a]] \in T
      [] rel = "descendant" -> seq[i] \in E /\ \E j \in 1..Len(seq) : Under(seq, i, j, lib) /\ seq[j] \in T
      [] rel = "sibling" -> Len(k) = 2 /\ ((seq[k[1]] \in E /\ seq[k[2]] \in T) \/ (seq[k[1]] \in T /\ seq[k[2]] \in E))
      [] rel = "uchild" -> seq[i] \in E /\ k # <<>> /\ \A a \in 1..Len(k) : seq[k[a]] \in T
      [] rel = "lchild" -> seq[i] \in E /\ k # <<>> /\ seq[k[1]] \in T
      [] rel = "rchild" -> seq[i] \in E /\ Len(k) = 2 /\ seq[k[2]] \in T
Violates(c, seq, lib) ==
  CASE IsRel(c) -> LET r == RelOf(c, lib) IN Has2(seq, r.rel, r.T, r.E, lib)
    [] c.c = "length" -> (c.max # 0 /\ Len(seq) > c.max) \/ (c.min # 0 /\ Len(seq) < c.min)
    [] c.c = "repeat" -> Cardinality({i \in 1..Len(seq) : seq[i] \in Named(lib, ToSet(c.tokens))}) > c.max
    [] c.c = "inverse" -> \E i \in 1..(Len(seq)-1) : lib[seq[i]].inv # 0 /\ seq[i+1] = lib[seq[i]].inv
    [] c.c = "no_inputs" -> Len(seq) > 1 /\ \A i \in 1..Len(seq) : lib[seq[i]].kind # "state"
    [] OTHER -> FALSE
=============================================================================

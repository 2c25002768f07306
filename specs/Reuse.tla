-------------------------------- MODULE Reuse --------------------------------
(* What a symbolic-search model is configured with, as a function of what its *)
(* caller gave it and of the data set it currently works on - and of nothing  *)
(* else: not of earlier imports, other models or earlier fits.                *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
NumpyDiff == {"diff", "diff2", "diff3", "diff4", "Diff", "Diff2", "lap", "Diff_3", "Diff2_3", "lap_3"}
TorchDiff == {"diff_t", "diff2_t", "diff3_t", "diff4_t", "lap_t"}
AllDiff == NumpyDiff \cup TorchDiff
Torch(base) == \E i \in 1..Len(base) : base[i] \in {"add_t", "sub_t", "mul_t", "div_t", "n2_t", "n3_t", "n4_t", "n5_t"} \cup TorchDiff
(* derivative operators proper to a dimension (of space) and an engine        *)
Proper(torch, dim) == IF torch THEN (IF dim = 1 THEN <<"diff_t", "diff2_t", "diff3_t">> ELSE <<"lap_t">>)
                      ELSE CASE dim = 1 -> <<"diff", "diff2", "diff3">>
                             [] dim = 2 -> <<"Diff", "Diff2", "lap">>
                             [] OTHER -> <<"Diff_3", "Diff2_3", "lap_3">>
NoDup(s) == \A i, j \in 1..Len(s) : s[i] = s[j] => i = j
NonDiff(base) == SelectSeq(base, LAMBDA t : t \notin AllDiff)
(* given: ops (the caller's explicit operators, possibly none), base (the     *)
(* operators of the configuration)                                           *)
Operators(g, dim) == IF g.ops # <<>> THEN g.ops
                     ELSE IF dim = 1 THEN g.base
                     ELSE Proper(Torch(g.base), dim) \o NonDiff(g.base)
Inputs(dim) == CASE dim = 1 -> <<"x1">> [] dim = 2 -> <<"x1", "x2">> [] OTHER -> <<"x1", "x2", "x3">>
Foreign(g, dim) == AllDiff \ {Proper(Torch(g.base), dim)[i] : i \in 1..Len(Proper(Torch(g.base), dim))}
(* the tokens a model searches over: coordinates, the field, parameters, then *)
(* the operators in the order configured                                     *)
Vocabulary(g, d) == Inputs(d.dim) \o <<"u1">> \o d.params \o Operators(g, d.dim)
=============================================================================

------------------------------ MODULE Alternate -----------------------------
(* The sparse-data search: a network is fitted to the observations, the      *)
(* field equations are scored on is read off it, equations are searched, the *)
(* network is fitted again under the better equation, and so on.             *)
(* net: which parameters the network has; field: of which network the field  *)
(* in use was read; carry: the equation of the last constrained fit (0 none).*)
EXTENDS Integers, Sequences, FiniteSets
(* the equation a constrained fit uses, given the scores - on the present field - of what the round found and of what
   was carried into it *)
Better(found, fs, carry, cs) == IF carry = 0 THEN {found}
                                ELSE IF cs > fs THEN {carry} ELSE IF cs = fs THEN {found, carry} ELSE {found}
=============================================================================

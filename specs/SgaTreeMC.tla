------------------------------ MODULE SgaTreeMC ------------------------------
(* Construction of a term level by level and node-wise mutation, with every  *)
(* random choice free: both keep the tree well-formed.  Emits every tree     *)
(* that construction reaches, for replay on the real tree classes.           *)
EXTENDS SgaTree, TLC, Json
CONSTANTS Depth, Vars, Den, UseOps, Emit
VARIABLES T, phase, at
vars == <<T, phase, at>>
Nd(n, st, p) == [n |-> n, c |-> Arity(n), st |-> st, p |-> p, ok |-> TRUE]
Init == /\ \E r \in UseOps \cap Roots : T = << <<Nd(r, 0, -1)>> >> /\ phase = "build" /\ at = <<1, 1, 1>>
(* at = <<level of the parent, position of the parent, which child>>         *)
Cur == IF Len(T) = at[1] THEN <<>> ELSE T[at[1] + 1]
Put(x) == T' = IF Len(T) = at[1] THEN Append(T, <<x>>) ELSE [T EXCEPT ![at[1] + 1] = Append(@, x)]
NextChild == IF at[2] > Len(T[at[1]]) THEN at ELSE at
Grow == /\ phase = "build" /\ at[1] < Depth /\ at[2] <= Len(T[at[1]]) /\ at[3] <= T[at[1]][at[2]].c
        /\ LET par == T[at[1]][at[2]] IN
           \E n \in IF par.n \in Der /\ at[3] = 2 THEN Den ELSE IF at[1] + 1 = Depth THEN Vars ELSE Vars \cup UseOps :
             Put(Nd(n, Width(Cur), at[2] - 1))
        /\ at' = <<at[1], at[2], at[3] + 1>> /\ UNCHANGED phase
Skip == /\ phase = "build" /\ at[1] < Depth /\ at[2] <= Len(T[at[1]]) /\ at[3] > T[at[1]][at[2]].c
        /\ at' = <<at[1], at[2] + 1, 1>> /\ UNCHANGED <<T, phase>>
Deeper == /\ phase = "build" /\ at[1] < Depth /\ at[2] > Len(T[at[1]])
          /\ IF Len(T) = at[1] THEN phase' = "built" /\ at' = at /\ UNCHANGED T
             ELSE at' = <<at[1] + 1, 1, 1>> /\ UNCHANGED <<T, phase>>
Bottom == phase = "build" /\ at[1] = Depth /\ phase' = "built" /\ UNCHANGED <<T, at>>
Finish == phase = "built" /\ (Emit => PrintT("@@CASE " \o ToJson(Pre(T, 1, 1)))) /\ phase' = "ready" /\ UNCHANGED <<T, at>>
(* one node takes another name                                               *)
Choices(i, k) == LET x == T[i][k] par == T[i - 1][x.p + 1] IN
  IF x.c = 0 THEN (IF par.n \in Der THEN Den ELSE Vars)
  ELSE IF x.c = 1 THEN UseOps \cap Un
  ELSE {n \in UseOps \cap Bin : n \in Der => T[i + 1][x.st + 2].n \in Den /\ T[i + 1][x.st + 2].c = 0}
Mutate == phase = "ready" /\ UNCHANGED <<phase, at>> /\ \E i \in 2..Len(T) : \E k \in 1..Len(T[i]) : \E n \in Choices(i, k) : T' = [T EXCEPT ![i][k].n = n]
Next == Grow \/ Skip \/ Deeper \/ Bottom \/ Finish \/ Mutate
Spec == Init /\ [][Next]_vars
Sound == phase # "build" => WellFormed(T, Vars, Den, Depth)
Readable == phase # "build" => Len(Pre(T, 1, 1)) = Before([i \in 1..Len(T) |-> [c |-> Len(T[i])]], Len(T) + 1)
ShapeKept == [][phase = "ready" => Mutant(T, T')]_vars
=============================================================================

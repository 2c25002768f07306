------------------------------- MODULE ReuseMC -------------------------------
(* Design model of the implementation's scheme: every model owns a mutable    *)
(* configuration whose operator list is rewritten at each import from a       *)
(* snapshot taken at construction; the process-wide search context is that of *)
(* the last set-up.  Checked: whatever the history, the effective operators   *)
(* are the function of (given, data) that Reuse defines, and no operator of   *)
(* another dimension survives.                                                *)
EXTENDS Reuse, TLC, Json
CONSTANTS MaxSteps, Emit, Acts
M == {1, 2}
GivenOf == <<[ops |-> <<>>, base |-> <<"add", "mul", "diff", "diff2", "n2">>],
             [ops |-> <<"add", "mul", "n2">>, base |-> <<"add", "mul", "diff", "diff2", "n2">>],
             [ops |-> <<>>, base |-> <<"add_t", "mul_t", "diff_t">>]>>
Data == 1..4    \* two one-dimensional sets, a two- and a three-dimensional one
DimOf(d) == CASE d = 1 -> 1 [] d = 2 -> 1 [] d = 3 -> 2 [] OTHER -> 3
VARIABLES given, cfg, base, data, active, hist, found
vars == <<given, cfg, base, data, active, hist, found>>
None == [m |-> 0, fs |-> <<>>, d |-> 0]
Init == /\ given \in [M -> IF Emit THEN {1} ELSE 1..3]
        /\ base = [m \in M |-> GivenOf[given[m]].base]       \* snapshot at construction
        /\ cfg = [m \in M |-> GivenOf[given[m]].base]
        /\ data = [m \in M |-> 0] /\ active = None /\ hist = <<>>
        /\ found = [m \in M |-> <<>>]                        \* record of the search
(* the algorithm: with explicit operators overwrite; otherwise reset from the *)
(* snapshot, then for more than one dimension strip and inject                *)
Effective(m, d) == LET g == GivenOf[given[m]] IN
                   IF g.ops # <<>> THEN g.ops
                   ELSE IF DimOf(d) <= 1 THEN base[m]
                   ELSE Proper(Torch(base[m]), DimOf(d)) \o SelectSeq(base[m], LAMBDA t : t \notin AllDiff)
Setup(m, d, a) == /\ a \in Acts /\ Len(hist) < MaxSteps
                  /\ cfg' = [cfg EXCEPT ![m] = Effective(m, d)]
                  /\ data' = [data EXCEPT ![m] = d]
                  /\ active' = [m |-> m, fs |-> cfg'[m], d |-> d]
                  /\ hist' = Append(hist, [a |-> a, m |-> m, d |-> d])
                  /\ (Emit /\ Len(hist') = MaxSteps => PrintT("@@CASE " \o ToJson(hist')))
                  /\ found' = [found EXCEPT ![m] = IF a = "fit" THEN <<d, cfg'[m]>> ELSE <<>>]
                  /\ UNCHANGED <<given, base>>
Next == \E m \in M : \/ \E d \in Data : Setup(m, d, "import") \/ Setup(m, d, "fit")
                     \/ data[m] # 0 /\ Setup(m, data[m], "setup")
Spec == Init /\ [][Next]_vars
FunctionOfGiven == \A m \in M : data[m] # 0 => cfg[m] = Operators(GivenOf[given[m]], DimOf(data[m]))
NoForeign == \A m \in M : data[m] # 0 /\ GivenOf[given[m]].ops = <<>> /\ DimOf(data[m]) > 1 =>
               \A i \in 1..Len(cfg[m]) : cfg[m][i] \notin Foreign(GivenOf[given[m]], DimOf(data[m]))
Distinct == \A m \in M : NoDup(cfg[m])
ActiveIsLast == active.m # 0 => active.fs = cfg[active.m] /\ active.d = data[active.m]
View == <<given, cfg, base, data, active, found>>
(* a record tells of the model's own operators and data, and only its own     *)
(* steps touch it                                                            *)
FoundOwn == \A m \in M : found[m] # <<>> => found[m] = <<data[m], Operators(GivenOf[given[m]], DimOf(data[m]))>>
FoundKept == [][\A m \in M : active'.m # m => found'[m] = found[m]]_vars
SnapshotKept == [][base' = base]_vars
=============================================================================

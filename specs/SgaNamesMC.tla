----------------------------- MODULE SgaNamesMC -----------------------------
(* All short names over a small alphabet with a few sets of axes: building   *)
(* and reading back are inverse, ambiguity arises only between axes that are *)
(* powers of one word, and every case is emitted for the real functions.     *)
EXTENDS SgaNames, TLC, Json
CONSTANTS Alpha, KeyLen, Emit
VARIABLES mode, s, ax, k
vars == <<mode, s, ax, k>>
Words(n) == UNION {[1..m -> Alpha] : m \in 0..n}
AxisSets == {{<<"x">>}, {<<"x">>, <<"u">>}, {<<"x">>, <<"x", "x">>}, {<<"x", "u">>, <<"x">>}, {<<"x", "x">>, <<"x", "x", "x">>}, {<<"u", "x">>, <<"x", "u">>}}
FieldSets == {{<<"u">>}, {<<"u">>, <<"u", "x">>}, {<<"u", "_">>, <<"x", "x">>}, {<<"u">>, <<"u", "_", "x">>}}
Out(r) == Emit => PrintT("@@CASE " \o ToJson(r))
AxSeq(A) == A
Init == /\ mode \in {"key", "build", "name", "legacy"} /\ ax \in AxisSets /\ k \in 1..3 /\ s \in Words(KeyLen)
        /\ (mode \in {"key", "legacy"} => k = 1) /\ (mode = "build" => Len(s) <= 2) /\ (mode = "name" => k = 1 /\ ax = {<<"x">>})
        /\ IF mode = "build" THEN \A a \in ax : Out([op |-> "build", f |-> s, a |-> a, k |-> k, ax |-> ax])
           ELSE IF mode = "key" THEN Out([op |-> "parse", key |-> s, ax |-> ax])
           ELSE IF mode = "name" THEN Out([op |-> "name", key |-> s])
           ELSE \A F \in FieldSets : Out([op |-> "legacy", key |-> s, fs |-> F, ax |-> ax])
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
PowersOf(a, b) == a \o b = b \o a       \* two words commute exactly when they are powers of one word
RoundTrip == mode = "build" => \A a \in ax : CanBuild(s, a, k) =>
   LET rs == Readings(Build(s, a, k), ax) IN <<s, a, k>> \in rs /\ \A r \in rs : r[1] = s /\ PowersOf(r[2], a)
SingleChar == mode = "build" => \A a \in ax : CanBuild(s, a, k) /\ Len(a) = 1 => Parse(Build(s, a, k), OneChar(Build(s, a, k))) = <<s, a, k>>
=============================================================================

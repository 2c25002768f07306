------------------------------ MODULE ParamsMC ------------------------------
EXTENDS Params, TLC, Json
CONSTANTS MaxOps, Emit, Chain   \* Chain: begin with a leaf inside an outer inside an outer
VARIABLES H, hist
vs == <<H, hist>>
(* a leaf class with two plain parameters, an outer one holding anything      *)
C == [Leaf |-> [names |-> {"a", "b"}, def |-> [a |-> Val("0"), b |-> Val("1")]],
      Outer |-> [names |-> {"a", "est"}, def |-> [a |-> Val("0"), est |-> Val("0")]]]
Data == {Val("7")}
Room == Len(H) < (IF Chain THEN 4 ELSE 3)
(* objects are created before those that refer to them, so no cycles arise    *)
Values(o) == Data \cup {Ref(i) : i \in {j \in 1..Len(H) : j < o}}
Rec(op, o, req) == Append(hist, [op |-> op, o |-> o, req |-> req])
Paths == {<<"a">>, <<"b">>, <<"est">>, <<"zz">>, <<"est", "a">>, <<"est", "zz">>, <<"a", "b">>, <<"est", "est", "a">>}
Reqs(o) == {<<[p |-> p, v |-> v]>> : p \in {q \in Paths : Len(q) = 1}, v \in Values(o)} \cup {<<[p |-> p, v |-> Val("7")]>> : p \in {q \in Paths : Len(q) > 1}}
           \cup {<<[p |-> p, v |-> Val("7")], [p |-> q, v |-> v]>> : p \in {<<"a">>, <<"est", "a">>}, q \in {<<"est">>, <<"zz">>}, v \in Values(o)}
           \cup {<<[p |-> p, v |-> Val("7")], [p |-> <<"est", "zz">>, v |-> Val("7")]>> : p \in {<<"a">>, <<"est", "a">>}}
New == Room /\ \E cn \in DOMAIN C : \E as \in {<<>>, <<[n |-> "a", v |-> Val("7")]>>} \cup (IF cn = "Outer" /\ Len(H) > 0 THEN {<<[n |-> "est", v |-> Ref(Len(H))]>>} ELSE {}) :
          /\ H' = Append(H, Made(cn, C[cn], as)) /\ hist' = Append(hist, [op |-> "new", o |-> Len(H) + 1, cls |-> cn, req |-> [i \in 1..Len(as) |-> [p |-> <<as[i].n>>, v |-> as[i].v]]])
SetOp == \E o \in 1..Len(H) : \E req \in Reqs(o) : H' = Set(H, o, req) /\ hist' = Rec("set", o, req)
Clone == Room /\ \E o \in 1..Len(H) : H' = Append(H, CloneOf(H, o)) /\ hist' = Rec("clone", o, <<>>)
NewRec(i, cn, req) == [op |-> "new", o |-> i, cls |-> cn, req |-> req]
Holding(j) == <<[n |-> "est", v |-> Ref(j)]>>
Init == IF Chain THEN /\ H = <<Made("Leaf", C["Leaf"], <<>>), Made("Outer", C["Outer"], Holding(1)), Made("Outer", C["Outer"], Holding(2))>>
                      /\ hist = <<NewRec(1, "Leaf", <<>>), NewRec(2, "Outer", <<[p |-> <<"est">>, v |-> Ref(1)]>>), NewRec(3, "Outer", <<[p |-> <<"est">>, v |-> Ref(2)]>>)>>
        ELSE H = <<>> /\ hist = <<>>
Next == Len(hist) < MaxOps /\ (New \/ SetOp \/ Clone)
Done == Emit /\ Len(hist) = MaxOps /\ hist[Len(hist)].op = "set" /\ PrintT("@@CASE " \o ToJson(hist)) /\ UNCHANGED vs
Spec == Init /\ [][Next \/ Done]_vs
View == <<H, IF Emit THEN hist ELSE <<Len(hist)>>>>
(* design checks *)
Typed == \A o \in 1..Len(H) : DOMAIN H[o].par = C[H[o].cls].names /\ \A n \in DOMAIN H[o].par : IsRef(H[o].par[n]) => H[o].par[n].id < o
ReadsBack == \A o \in 1..Len(H) : \A req \in Reqs(o) : LET K == Set(H, o, req) IN
    IF Valid(H, o, req) THEN \A i \in 1..Len(req) : [p |-> req[i].p, v |-> req[i].v] \in Deep(K, o) ELSE K = H
Local == \A o \in 1..Len(H) : \A req \in Reqs(o) : (\A i \in 1..Len(req) : Len(req[i].p) = 1) => \A m \in 1..Len(H) : m # o => Set(H, o, req)[m] = H[m]
=============================================================================

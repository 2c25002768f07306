------------------------------ MODULE NamesMC ------------------------------
EXTENDS Names, TLC, Json
CONSTANTS MaxOps, Emit
VARIABLES L, hist
vs == <<L, hist>>
Mods == Packages \cup Homes
Asked == {<<"kd", "viz">>, <<"kd", "model">>, <<"kd", "KD_Discover_SPR">>, <<"kd", "load_kdv_equation">>, <<"kd.model", "KD_SGA">>, <<"kd.model", "KD_PySR">>, <<"kd.model", "KD_DLGA">>, <<"kd.viz", "render">>, <<"kd.dataset", "load_pde">>}
Of(m) == IF m \in Packages THEN m ELSE "kd"
Add(op, a, b, m) == hist' = Append(hist, [op |-> op, a |-> a, b |-> b]) /\ L' = Load(L, m)
Where(p, n) == IF n \in Classes THEN HomeOf(n) ELSE IF n \in {"viz", "model"} THEN "kd." \o n ELSE p
Imp == \E m \in Mods : Add("import", m, "", m)
Get == \E q \in Asked : \E op \in {"attr", "from"} : hist' = Append(hist, [op |-> op, a |-> q[1], b |-> q[2]]) /\ L' = Load(Load(L, q[1]), Where(q[1], q[2]))
Star == \E p \in Packages : hist' = Append(hist, [op |-> "star", a |-> p, b |-> ""]) /\ L' = UNION {Load(Load(L, p), Where(p, n)) : n \in Offered(p)}
Plot == \E c \in {"KD_DLGA", "KD_PySR", "KD_Discover_SPR"} : hist' = Append(hist, [op |-> "plots", a |-> c, b |-> ""]) /\ L' = Load(Load(L, HomeOf(c)), "kd.viz")
Odd == \E p \in Packages : Add("unknown", p, "", p)
Init == L = {} /\ hist = <<>>
Next == Len(hist) < MaxOps /\ (Imp \/ Get \/ Star \/ Plot \/ Odd)
Done == Emit /\ Len(hist) = MaxOps /\ PrintT("@@CASE " \o ToJson(hist)) /\ UNCHANGED vs
Spec == Init /\ [][Next \/ Done]_vs
View == <<L, IF Emit THEN hist ELSE <<Len(hist)>>>>
(* what is loaded is closed, order never matters, and what a name stands for  *)
(* is there once it was asked for                                             *)
Closed == L = Close(L)
Commute == \A a, b \in Mods : Load(Load(L, a), b) = Load(Load(L, b), a) /\ Load(Load(L, a), a) = Load(L, a)
Known == \A c \in Classes : "kd.viz" \in L => Drawable(L, c) = Family(c)
Ready == \A c \in {"KD_DLGA", "KD_Discover", "KD_SGA"} : "kd.viz" \in L => HomeOf(c) \in L
=============================================================================

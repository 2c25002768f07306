------------------------------ MODULE VizRegMC ------------------------------
EXTENDS Viz, TLC, Json
CONSTANTS MaxOps, Emit
VARIABLES R, hist
vs == <<R, hist>>
(* a diamond and a cousin: 4 derives from 2 and 3, both from 1; 5 from 4;     *)
(* 6 is an unrelated class with the name of 2                                 *)
Cls == 1..6
Mro == <<<<1>>, <<2, 1>>, <<3, 1>>, <<4, 2, 3, 1>>, <<5, 4, 2, 3, 1>>, <<6>>>>
Nm == <<"A", "B", "C", "D", "E", "B">>
Names == {Nm[c] : c \in Cls}
Fresh_ == Len(hist) + 1
Rec(op, c, a) == hist' = Append(hist, [op |-> op, c |-> c, a |-> a])
Reg == \E c \in Cls : R' = Register(R, c, Fresh_) /\ Rec("reg", c, Fresh_)
Lazy == \E c \in {2, 3, 4} : \E a \in {0, Fresh_} : R' = RegisterLazy(R, c, a, Nm) /\ Rec("lazy", c, a)
(* taking back the registration of a class that is still pending is left open *)
Unreg == \E c \in Cls : ~Pending(R, Nm[c]) /\ R' = Unregister(R, c) /\ Rec("unreg", c, 0)
Clear == R' = Cleared(R) /\ Rec("clear", 0, 0)
Look == \E c \in Cls : R' = Walk(R, Mro[c], Nm).R /\ Rec("ask", c, 0)
Init == R = [eager |-> [c \in Cls |-> 0], lazy |-> [n \in Names |-> NoLazy]] /\ hist = <<>>
Next == Len(hist) < MaxOps /\ (Reg \/ Lazy \/ Unreg \/ Clear \/ Look)
Done == Emit /\ Len(hist) = MaxOps /\ PrintT("@@CASE " \o ToJson(hist)) /\ UNCHANGED vs
Spec == Init /\ [][Next \/ Done]_vs
View == <<R, IF Emit THEN hist ELSE <<Len(hist)>>>>
(* the walk finds the nearest registration, and looking changes no answer     *)
NearestWins == \A c \in Cls : Walk(R, Mro[c], Nm).ad = Nearest(R, Mro[c], Nm)
LookingIsFree == \A c, d \in Cls : Nearest(Walk(R, Mro[c], Nm).R, Mro[d], Nm) = Nearest(R, Mro[d], Nm)
LatestWins == \A c \in Cls : Nearest(Register(R, c, 99), Mro[c], Nm) = 99
OthersKeep == \A c, d \in Cls : ~(\E i \in 1..Len(Mro[d]) : Mro[d][i] = c) => Nearest(Register(R, c, 99), Mro[d], Nm) = Nearest(R, Mro[d], Nm)
=============================================================================

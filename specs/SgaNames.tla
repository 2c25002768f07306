------------------------------ MODULE SgaNames ------------------------------
(* Names as sequences of characters: which are legal, how a derivative's     *)
(* name is built and read back, how clashes are resolved.                    *)
EXTENDS Integers, Sequences, FiniteSets
Letters == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
            "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
Digits == {"0","1","2","3","4","5","6","7","8","9"}
Reserved == {<<"0">>, <<"d">>, <<"d", "^", "2">>, <<"+">>, <<"-">>, <<"*">>, <<"/">>, <<"^", "2">>, <<"^", "3">>}
Shaped(s) == Len(s) > 0 /\ s[1] \in Letters /\ \A i \in 1..Len(s) : s[i] \in Letters \cup Digits \cup {"_"}
Legal(s) == Shaped(s) /\ s \notin Reserved
LegalAxis(s) == Legal(s) /\ \A i \in 1..Len(s) : s[i] # "_"
RECURSIVE Rep(_, _)
Rep(s, k) == IF k = 0 THEN <<>> ELSE s \o Rep(s, k - 1)
Build(f, a, k) == f \o <<"_">> \o Rep(a, k)
CanBuild(f, a, k) == Legal(f) /\ LegalAxis(a) /\ k >= 1
(* every reading of a key over the given axes                                *)
Unders(s) == {i \in 1..Len(s) : s[i] = "_"}
Readings(key, axes) == {r \in {<<SubSeq(key, 1, i - 1), a, k>> : i \in Unders(key), a \in axes, k \in 1..Len(key)} :
                          /\ Legal(r[1]) /\ LegalAxis(r[2]) /\ Build(r[1], r[2], r[3]) = key}
Parse(key, axes) == LET rs == Readings(key, axes) IN IF Cardinality(rs) = 1 THEN CHOOSE r \in rs : TRUE ELSE <<>>
(* without known axes an axis is a single character                          *)
OneChar(key) == {<<key[i]>> : i \in {j \in 1..Len(key) : key[j] \in Letters \cup Digits}}
Legacy(key, fields, axes) == {r \in {<<f, a, k>> : f \in fields, a \in axes, k \in 1..Len(key)} : r[1] \o Rep(r[2], r[3]) = key}
(* an acceptable outcome of clash resolution: res[i] is the new name of fields[i] *)
Resolvable(fields, coords) == /\ (\A i \in 1..Len(fields) : Legal(fields[i])) /\ (\A i \in 1..Len(coords) : LegalAxis(coords[i]))
                              /\ \A i, j \in 1..Len(fields) : i # j => fields[i] # fields[j]
                              /\ \A i, j \in 1..Len(coords) : i # j => coords[i] # coords[j]
Elems(s) == {s[i] : i \in 1..Len(s)}
GoodResolution(fields, coords, res) ==
  /\ Len(res) = Len(fields)
  /\ \A i \in 1..Len(res) : Legal(res[i]) /\ res[i] \notin Elems(coords)
  /\ \A i, j \in 1..Len(res) : i # j => res[i] # res[j]
  /\ \A i \in 1..Len(res) : (fields[i] \notin Elems(coords) /\ \A j \in 1..(i - 1) : res[j] # fields[i]) => res[i] = fields[i]
(* operand tables: what a data set offers under which names                  *)
Keys(fields, axes) == {Build(f, a, 1) : f \in fields, a \in axes}
Clash(fields, axes, params, lhs, target) ==
  \/ (\E s \in fields \cup params : ~Legal(s)) \/ (\E a \in axes : ~LegalAxis(a))
  \/ fields \cap axes # {} \/ params \cap (fields \cup (axes \ {lhs})) # {}
  \/ Keys(fields, axes \ {lhs}) \cap (fields \cup params) # {}
  \/ \E f1, f2 \in fields, a1, a2 \in axes \ {lhs} : <<f1, a1>> # <<f2, a2>> /\ Build(f1, a1, 1) = Build(f2, a2, 1)
  \* the predicted derivative may not come back as an operand
  \/ Build(target, lhs, 1) \in fields \cup params
(* beyond real clashes the implementation may also refuse names that look like derivatives *)
Aliases(target, lhs) == {<<"u", "x">>, target \o lhs}
Gray(fields, axes, params, lhs, target) == \/ lhs \in params \/ (fields \cup params) \cap (Aliases(target, lhs) \cup Keys(fields, axes)) # {}
=============================================================================

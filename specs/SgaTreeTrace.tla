---------------------------- MODULE SgaTreeTrace -----------------------------
(* Real trees and equations before and after each variation operator.        *)
EXTENDS TraceBase, SgaTree
VARIABLES c
vs == <<c>>
S(q) == {q[i] : i \in 1..Len(q)}
Good(r) == Told(r, c.vars, c.den, c.depth)
Eq(e) == \A i \in 1..Len(e) : Good(e[i])
Txt(e) == [i \in 1..Len(e) |-> e[i].text]
Pres(e) == [i \in 1..Len(e) |-> e[i].pre]
OthersSame == \A i \in 1..Len(Ev.before) : i # Ev.who => Ev.after[i] = Ev.before[i]
Changed == Ev.after[Ev.who]
Was == Ev.before[Ev.who]
(* before / after: the whole population; only equation `who` was varied      *)
TreeOK == Good(Ev.t) /\ (Has(Ev, "want") => Ev.t.pre = Ev.want)
VaryOK == /\ Len(Ev.after) = Len(Ev.before) /\ OthersSame /\ Eq(Changed)
          /\ Ev.op = "mutate" => Len(Changed) = Len(Was) /\ \A i \in 1..Len(Was) : Mutant(Was[i].lv, Changed[i].lv)
          /\ Ev.op = "still" => Changed = Was
          /\ Ev.op = "replace" => Len(Changed) = Len(Was) /\ Cardinality({i \in 1..Len(Was) : Changed[i] # Was[i]}) <= 1
          /\ Ev.op = "copy" => Changed = Was
(* one variation round of the whole search: pool before, candidates as they were handed to scoring, pool after *)
Old == {Ev.before[i] : i \in 1..Len(Ev.before)}
ChildOK(k) == /\ Eq(k)
              /\ IF Ev.kind = "cross" THEN \E a, b \in Old : Swapped(Pres(k), Pres(a), Pres(b))
                 ELSE \E a \in Old : Len(a) = Len(k) /\ Cardinality({i \in 1..Len(k) : Shape(a[i].lv) # Shape(k[i].lv)}) <= 1
IsSub(a, b) == \* a is b with some terms left out
  LET RECURSIVE go(_, _) go(i, j) == IF i > Len(a) THEN TRUE ELSE IF j > Len(b) THEN FALSE ELSE IF a[i] = b[j] THEN go(i + 1, j + 1) ELSE go(i, j + 1) IN go(1, 1)
RoundOK == /\ \A i \in 1..Len(Ev.cands) : ChildOK(Ev.cands[i])
           /\ \A i \in 1..Len(Ev.after) : Eq(Ev.after[i]) /\ Ev.ws[i] = Len(Ev.after[i])
           /\ \A i \in 1..Len(Ev.after) : Ev.after[i] \in Old \/ \E k \in 1..Len(Ev.cands) : IsSub(Txt(Ev.after[i]), Txt(Ev.cands[k]))
OK == IF Ev.ev = "tree" THEN TreeOK ELSE IF Ev.ev = "vary" THEN VaryOK ELSE IF Ev.ev = "round" THEN RoundOK ELSE FALSE
Steps == More /\
   \/ Ev.ev = "ctx" /\ Advance /\ c' = [vars |-> S(Ev.vars), den |-> S(Ev.den), depth |-> Ev.depth]
   \/ Ev.ev # "ctx" /\ UNCHANGED vs /\ \E ok \in {OK} : IF ok THEN Advance ELSE Rejected(<<Ev.ev>>) /\ Advance
TraceInit == l = 1 /\ c = [vars |-> {}, den |-> {}, depth |-> 0]
TraceSpec == TraceInit /\ [][Steps]_<<l, vs>>
=============================================================================

---------------------------- MODULE SgaNamesTrace ----------------------------
(* Recorded answers of the naming functions and operand tables, one verdict  *)
(* per event.                                                                *)
EXTENDS TraceBase, SgaNames
VARIABLES dummy
vs == <<dummy>>
S(q) == {q[i] : i \in 1..Len(q)}
Ans == Ev.ans        \* [k |-> "err"] or [k |-> "val", ...]
Err == Ans.k = "err"
NameOK == IF Legal(Ev.key) THEN ~Err /\ Ans.v = Ev.key ELSE Err
AxisOK == IF LegalAxis(Ev.key) THEN ~Err /\ Ans.v = Ev.key ELSE Err
BuildOK == IF CanBuild(Ev.f, Ev.a, Ev.n) THEN ~Err /\ Ans.v = Build(Ev.f, Ev.a, Ev.n) ELSE Err
ParseOK == LET r == Parse(Ev.key, IF Ev.known THEN S(Ev.ax) ELSE OneChar(Ev.key)) IN
           IF r # <<>> THEN ~Err /\ <<Ans.f, Ans.a, Ans.n>> = r ELSE Err
LegacyOK == IF "_" \in S(Ev.key) THEN (~Err => Ans.v = Ev.key)
            ELSE LET rs == Legacy(Ev.key, S(Ev.fs), S(Ev.ax)) IN
                 IF \E f \in S(Ev.fs) : ~Legal(f) THEN TRUE
                 ELSE IF rs = {} THEN ~Err /\ Ans.v = Ev.key
                 ELSE IF Cardinality(rs) = 1 THEN LET r == CHOOSE r \in rs : TRUE IN ~Err /\ Ans.v = Build(r[1], r[2], r[3])
                 ELSE Err
ResolveOK == IF Resolvable(Ev.fs, Ev.cs) THEN ~Err /\ GoodResolution(Ev.fs, Ev.cs, Ans.v) ELSE Err
(* a set of field, axis and parameter names is offered to the search         *)
TableOK == LET c == Clash(S(Ev.fs), S(Ev.axes), S(Ev.ps), Ev.lhs, Ev.target)
               want == S(Ev.fs) \cup (S(Ev.axes) \ {Ev.lhs}) \cup S(Ev.ps) \cup {<<"0">>} \cup Keys(S(Ev.fs), S(Ev.axes) \ {Ev.lhs}) IN
           IF c THEN Err
           ELSE IF Err THEN Gray(S(Ev.fs), S(Ev.axes), S(Ev.ps), Ev.lhs, Ev.target)
           ELSE S(Ans.v) = want /\ Len(Ans.v) = Cardinality(want)
OK == IF Ev.ev = "name" THEN NameOK ELSE IF Ev.ev = "axis" THEN AxisOK ELSE IF Ev.ev = "build" THEN BuildOK
      ELSE IF Ev.ev = "parse" THEN ParseOK ELSE IF Ev.ev = "legacy" THEN LegacyOK ELSE IF Ev.ev = "resolve" THEN ResolveOK
      ELSE Ev.ev = "table" /\ TableOK
Steps == More /\ UNCHANGED vs /\ \E ok \in {OK} : IF ok THEN Advance ELSE Rejected(<<Ev.ev>>) /\ Advance
TraceInit == l = 1 /\ dummy = 0
TraceSpec == TraceInit /\ [][Steps]_<<l, vs>>
=============================================================================

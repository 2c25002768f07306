------------------------------ MODULE VizTrace ------------------------------
EXTENDS TraceBase, Viz
VARIABLES R, S
vs == <<R, S>>
Cls == 1..6
Mro == <<<<1>>, <<2, 1>>, <<3, 1>>, <<4, 2, 3, 1>>, <<5, 4, 2, 3, 1>>, <<6>>>>
Nm == <<"A", "B", "C", "D", "E", "B">>
R0 == [eager |-> [c \in Cls |-> 0], lazy |-> [n \in {Nm[c] : c \in Cls} |-> NoLazy]]
S0 == [rc |-> <<>>, cfg |-> <<>>, stack |-> <<>>]
Dict(ps) == [k \in {ps[i].k : i \in 1..Len(ps)} |-> ps[CHOOSE i \in 1..Len(ps) : ps[i].k = k].v]
(* adapters with an odd number can do k1 and k2, the others only k1           *)
Can(a) == IF a = 0 THEN {} ELSE IF a % 2 = 1 THEN {"k1", "k2"} ELSE {"k1"}
Seq2Set(s) == {s[i] : i \in 1..Len(s)}
AskOK == LET a == Walk(R, Mro[Ev.c], Nm).ad IN
    /\ Seq2Set(Ev.can) = Can(a)
    /\ IF Ev.kind \in Can(a) THEN Ev.got = a /\ Ev.same /\ ~Ev.raised
       ELSE Ev.got = 0 /\ ~Ev.raised /\ Ev.warnings > 0 /\ Ev.intent = Ev.kind /\ Ev.empty
RNext == CASE Ev.ev = "reg" -> Register(R, Ev.c, Ev.a)
           [] Ev.ev = "lazy" -> RegisterLazy(R, Ev.c, Ev.a, Nm)
           [] Ev.ev = "unreg" -> Unregister(R, Ev.c)
           [] Ev.ev = "clear" -> Cleared(R)
           [] Ev.ev = "ask" -> Walk(R, Mro[Ev.c], Nm).R
           [] OTHER -> R
(* style events show the drawing settings right after the step                *)
SNext == CASE Ev.ev = "start" -> [rc |-> Dict(Ev.rc), cfg |-> Dict(Ev.cfg), stack |-> <<>>]
           [] Ev.ev = "configure" -> [S EXCEPT !.cfg = Configured(Dict(Ev.dflt), Dict(Ev.s))]
           [] Ev.ev = "set" -> SetRc(S, Ev.s[1].k, Ev.s[1].v)
           [] Ev.ev = "begin" -> Begin(S, Dict(Ev.s))
           [] Ev.ev = "end" -> End(S)
           [] OTHER -> S
StyleOK == /\ \A k \in DOMAIN Dict(Ev.rc) : k \in DOMAIN SNext.rc => Dict(Ev.rc)[k] = SNext.rc[k]
           /\ (Ev.ev = "end" => Ev.whole /\ Ev.figures = 0 /\ (Ev.how = "raises") = Ev.raised)
(* a request to a real adapter: holds is what the model holds; hurt says a    *)
(* fault was injected into it                                                 *)
PlotOK == /\ Truthful(Ev)
          /\ Seq2Set(Ev.can) = Kinds(Ev.family)
          /\ IF Ev.hurt THEN Ev.raised \/ (Ev.warnings > 0 /\ Ev.intent = Ev.kind)
             ELSE IF Able(Ev.family, Ev.kind, Seq2Set(Ev.holds)) THEN Served(Ev) ELSE Declined(Ev)
OK == CASE Ev.ev \in {"reg", "lazy", "unreg", "clear"} -> TRUE
        [] Ev.ev = "ask" -> AskOK
        [] Ev.ev \in {"start", "configure", "set", "begin", "end"} -> StyleOK
        [] Ev.ev = "plot" -> PlotOK
        [] Ev.ev = "behind" -> NothingBehind(Ev)
        [] OTHER -> FALSE
Steps == More /\ \E ok \in {OK} : IF ok THEN Advance /\ R' = RNext /\ S' = SNext ELSE Rejected(<<Ev.ev>>) /\ SkipTrace /\ R' = R0 /\ S' = S0
TraceInit == l = 1 /\ R = R0 /\ S = S0
Again == More /\ Ev.first /\ (R # R0 \/ S # S0)
TraceNext == (Again /\ R' = R0 /\ S' = S0 /\ UNCHANGED l) \/ (~Again /\ Steps)
TraceSpec == TraceInit /\ [][TraceNext]_<<l, vs>>
=============================================================================

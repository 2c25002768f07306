----------------------------- MODULE ParamsTrace -----------------------------
EXTENDS TraceBase, Params
VARIABLES H, C
vs == <<H, C>>
Seq2Set(s) == {s[i] : i \in 1..Len(s)}
Fun(ps) == [n \in {ps[i].n : i \in 1..Len(ps)} |-> ArgOf(ps, n)]
(* every event shows, for each live object, what get_params reports, deep and shallow *)
Shows(K) == /\ Len(Ev.objs) = Len(K)
            /\ \A o \in 1..Len(K) : Seq2Set(Ev.objs[o].deep) = Deep(K, o) /\ Seq2Set(Ev.objs[o].flat) = Shallow(K, o) /\ Ev.objs[o].repr
Step_(K, ok) == Ev.ok = (IF ok THEN "yes" ELSE "refused") /\ Shows(K)
(* what a later fit read must be the current parameters                      *)
Effect == \A i \in 1..Len(Ev.eff) : Ev.eff[i].n \in DOMAIN H[Ev.o].par /\ Ev.eff[i].v = H[Ev.o].par[Ev.eff[i].n]
After == CASE Ev.ev = "class" -> H
           [] Ev.ev = "new" -> IF CanMake(C[Ev.cls], Ev.req) THEN Append(H, Made(Ev.cls, C[Ev.cls], Ev.req)) ELSE H
           [] Ev.ev = "set" -> Set(H, Ev.o, Ev.req)
           [] Ev.ev = "clone" -> Append(H, CloneOf(H, Ev.o))
           [] OTHER -> H
OK == CASE Ev.ev = "class" -> Shows(H)
        [] Ev.ev = "new" -> Step_(After, CanMake(C[Ev.cls], Ev.req))
        [] Ev.ev = "set" -> Step_(After, Valid(H, Ev.o, Ev.req)) /\ (Ev.ok = "yes" => Ev.me)
        [] Ev.ev = "clone" -> Step_(After, TRUE)
        [] Ev.ev = "use" -> Step_(H, TRUE) /\ Effect
        [] OTHER -> FALSE
Steps == More /\ \E ok \in {OK} : IF ok THEN Advance /\ H' = After /\ C' = (IF Ev.ev = "class" THEN Put(C, Ev.cls, [names |-> Seq2Set(Ev.names), def |-> Fun(Ev.def)]) ELSE C)
         ELSE Rejected(<<Ev.ev>>) /\ SkipTrace /\ H' = <<>> /\ C' = <<>>
TraceInit == l = 1 /\ H = <<>> /\ C = <<>>
(* a trace starts with an empty heap *)
Fresh_ == More /\ Ev.first /\ (H # <<>> \/ C # <<>>) /\ H' = <<>> /\ C' = <<>> /\ UNCHANGED l
TraceNext == Fresh_ \/ (~(More /\ Ev.first /\ (H # <<>> \/ C # <<>>)) /\ Steps)
TraceSpec == TraceInit /\ [][TraceNext]_<<l, vs>>
=============================================================================

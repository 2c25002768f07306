---------------------------- MODULE DataFlowTrace ----------------------------
EXTENDS TraceBase, DataFlow
VARIABLES content, seen
vs == <<content, seen>>
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
(* Ev.now : name -> digest of everything the caller owns, after the step     *)
Now == [n \in {Ev.now[i].n : i \in 1..Len(Ev.now)} |-> Ev.now[CHOOSE i \in 1..Len(Ev.now) : Ev.now[i].n = n].v]
Key == <<Ev.kind, Now[Ev.d]>>
OK == CASE Ev.ev = "data" -> TRUE
        [] Ev.ev = "write" -> \A n \in DOMAIN content : n # Ev.d => Now[n] = content[n]
        [] Ev.ev = "fit" -> /\ Ev.ok = "yes"
                            /\ SameContent(content, Now)
                            /\ (Ev.fresh => SeenOK(seen, Key, Ev.seen))
        [] OTHER -> FALSE
Steps == More /\ \E ok \in {OK} :
    IF ok THEN /\ Advance /\ content' = Now
               /\ seen' = CASE Ev.ev = "data" -> <<>>
                             [] Ev.ev = "fit" /\ Ev.fresh -> Put(seen, Key, Ev.seen)
                             [] OTHER -> seen
    ELSE /\ Rejected(<<Ev.ev, IF Ev.ev = "fit" /\ Ev.ok = "yes" THEN {n \in DOMAIN content : content[n] # Now[n]} ELSE {}>>)
         /\ SkipTrace /\ content' = <<>> /\ seen' = <<>>
TraceInit == l = 1 /\ content = <<>> /\ seen = <<>>
TraceSpec == TraceInit /\ [][Steps]_<<l, vs>>
=============================================================================

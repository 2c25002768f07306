---------------------------- MODULE SamplerTrace ----------------------------
EXTENDS Sampler, TraceBase
VARIABLE conf
tv == <<l, conf>>
TInit == l = 1 /\ conf = [lib |-> <<>>, cons |-> <<>>]
(* a sampler node: the context and mask the real sampler computed for a partial expression *)
NodeOK(e) == LET s == StateAt(e.seq, conf.lib) IN
  /\ ~Complete(s)
  /\ e.open = s.open
  /\ (s.n > 0 => e.parent = Parent(s) /\ e.sibling = Sibling(s))
  /\ (s.n = 0 => e.parent = 0 /\ e.sibling = 0)
  /\ ToSet(e.allowed) = Allowed(s, conf.cons, conf.lib)
  /\ ToSet(e.allowed) # {}
CtxOK(e) == LET s == StateAt(e.seq, conf.lib) IN
  /\ ~Complete(s) /\ e.open = s.open
  /\ e.parent = Parent(s) /\ e.sibling = Sibling(s)
  /\ e.anyallowed
MaskOK(e) == LET s == StateAt(e.seq, conf.lib) IN ToSet(e.allowed) = Allowed(s, conf.cons, conf.lib)
(* a finished candidate *)
DoneOK(e) == WellFormed(e.seq, conf.lib) /\ (Has(e, "maxlen") => Len(e.seq) <= e.maxlen) /\ (Has(e, "minlen") => Len(e.seq) >= e.minlen)
FinishOK(e) == \* surplus dropped, missing operands supplied from the input variables
  /\ WellFormed(e.out, conf.lib)
  /\ LET m == Min({Len(e.seq), Len(e.out)}) IN SubSeq(e.out, 1, m) = SubSeq(e.seq, 1, m)
  /\ \A i \in (Len(e.seq)+1)..Len(e.out) : e.out[i] \in Inputs(conf.lib)
LegalOK(e) == \A i \in 1..Len(conf.cons) : Live(conf.cons[i], conf.lib) => ~Violates(conf.cons[i], e.seq, conf.lib)
JudgeOK(e) == e.violated = (\E i \in 1..Len(conf.cons) : Live(conf.cons[i], conf.lib) /\ Violates(conf.cons[i], e.seq, conf.lib))
Step == /\ More /\ Advance
        /\ CASE Ev.ev = "conf"   -> conf' = [lib |-> Ev.lib, cons |-> Ev.cons]
             [] Ev.ev = "node"   -> NodeOK(Ev) /\ UNCHANGED conf
             [] Ev.ev = "ctx"    -> CtxOK(Ev) /\ UNCHANGED conf
             [] Ev.ev = "mask"   -> MaskOK(Ev) /\ UNCHANGED conf
             [] Ev.ev = "done"   -> DoneOK(Ev) /\ UNCHANGED conf
             [] Ev.ev = "legal"  -> LegalOK(Ev) /\ UNCHANGED conf
             [] Ev.ev = "judge"  -> JudgeOK(Ev) /\ UNCHANGED conf
             [] Ev.ev = "finish" -> FinishOK(Ev) /\ UNCHANGED conf
             [] OTHER -> FALSE
Expected == IF Has(Ev, "seq") /\ Ev.ev \in {"node","ctx","mask"} THEN
    LET s == StateAt(Ev.seq, conf.lib) IN [open |-> s.open, parent |-> Parent(s), sibling |-> Sibling(s), allowed |-> Allowed(s, conf.cons, conf.lib)]
  ELSE "-"
(* node events are independent, so a rejected one only skips itself *)
Reject == /\ More /\ ~ENABLED Step /\ Rejected(Expected)
          /\ IF Ev.ev = "conf" THEN SkipTrace ELSE Advance
          /\ UNCHANGED conf
TraceSpec == TInit /\ [][Step \/ Reject]_tv
=============================================================================

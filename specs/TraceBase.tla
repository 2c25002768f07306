----------------------------- MODULE TraceBase -----------------------------
(* Batch trace validation.  trace.ndjson holds many recorded traces back to  *)
(* back; every line carries first (is it the first event of its trace) and   *)
(* nxt (the line on which the next trace begins).  A module that EXTENDS     *)
(* this one conjoins its own step relation; a line no step explains is       *)
(* printed as <<"REJECT", line>> and the rest of its trace is skipped, so    *)
(* one bad trace hides no other and every line gets a verdict.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt
VARIABLE l
Trace == ndJsonDeserialize("trace.ndjson")
N == Len(Trace)
Ev == Trace[l]
More == l <= N
Advance == l' = l + 1
SkipTrace == l' = Ev.nxt
TraceDone == TLCGet("stats").diameter >= 0
Rejected(detail) == PrintT("@@REJECT " \o ToString(l) \o " " \o ToString(detail))
Has(r, f) == f \in DOMAIN r
=============================================================================

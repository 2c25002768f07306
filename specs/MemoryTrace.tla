----------------------------- MODULE MemoryTrace ----------------------------
EXTENDS TraceBase, Memory
VARIABLES mode, cap, mem, q
vs == <<mode, cap, mem, q>>
Cur == IF mode = "fifo" THEN {q[i] : i \in 1..Len(q)} ELSE mem
(* listing as reported after the event *)
After == Ev.list
SetOf(s) == {s[i] : i \in 1..Len(s)}
StNew == /\ Ev.ev = "new" /\ mode' = Ev.mode /\ cap' = Ev.cap /\ mem' = {} /\ q' = <<>> /\ Ev.size = 0
StIns == /\ Ev.ev = "ins" /\ UNCHANGED <<mode, cap>>
         /\ IF mode = "fifo"
            THEN /\ q' = AfterInsertFifo(q, cap, Ev.e) /\ Ev.list = q' /\ Ev.size = Len(q') /\ mem' = mem
            ELSE /\ mem' \in (IF mode = "rm" THEN AfterInsertRmSame(mem, cap, Ev.e) ELSE AfterInsert(mem, cap, Ev.e))
                 /\ IsListing(Ev.list, mem') /\ Ev.size = Cardinality(mem') /\ q' = q
                 /\ Ev.max.sc = MaxSc(mem') /\ Ev.max \in mem'
                 /\ Ev.min.sc = MinSc(mem') /\ Ev.min \in mem'
(* a batch is the insertions one after another; TLC finds the interleaving of tie evictions *)
RECURSIVE AfterAll(_, _)
AfterAll(ms, es) == IF es = <<>> THEN ms
                    ELSE AfterAll(UNION {(IF mode = "rm" THEN AfterInsertRmSame(m, cap, Head(es)) ELSE AfterInsert(m, cap, Head(es))) : m \in ms}, Tail(es))
RECURSIVE AfterAllF(_, _)
AfterAllF(s, es) == IF es = <<>> THEN s ELSE AfterAllF(AfterInsertFifo(s, cap, Head(es)), Tail(es))
StBatch == /\ Ev.ev = "batch" /\ UNCHANGED <<mode, cap>>
           /\ IF mode = "fifo"
              THEN /\ q' = AfterAllF(q, Ev.es) /\ Ev.list = q' /\ Ev.size = Len(q') /\ mem' = mem
              ELSE /\ mem' \in AfterAll({mem}, Ev.es) /\ IsListing(Ev.list, mem') /\ Ev.size = Cardinality(mem') /\ q' = q
StPop == /\ Ev.ev = "pop" /\ UNCHANGED <<mode, cap>>
         /\ IF mode = "fifo"
            THEN /\ q # <<>> /\ Ev.e = Head(q) /\ q' = Tail(q) /\ Ev.list = q' /\ mem' = mem /\ Ev.size = Len(q')
            ELSE /\ mem # {} /\ mem' \in AfterPop(mem) /\ mem = mem' \cup {Ev.e} /\ IsListing(Ev.list, mem') /\ q' = q /\ Ev.size = Cardinality(mem')
(* a sampled mini-batch: every record is one whole entry of the memory, none is mixed from two *)
StSample == /\ Ev.ev = "sample" /\ UNCHANGED vs
            /\ Len(Ev.rows) = Ev.n
            /\ \A i \in 1..Len(Ev.rows) : LET r == Ev.rows[i] IN
                 /\ r.obs = r.id /\ r.prior = r.id
                 /\ \E e \in Cur : e.id = r.id /\ e.sc = r.sc /\ e.ln = r.ln
StAll == /\ Ev.ev = "all" /\ UNCHANGED vs
         /\ {[id |-> Ev.rows[i].id, sc |-> Ev.rows[i].sc, ln |-> Ev.rows[i].ln] : i \in 1..Len(Ev.rows)} = Cur
         /\ Len(Ev.rows) = Cardinality(Cur)
         /\ \A i \in 1..Len(Ev.rows) : Ev.rows[i].obs = Ev.rows[i].id /\ Ev.rows[i].prior = Ev.rows[i].id
Step == More /\ (StNew \/ StIns \/ StBatch \/ StPop \/ StSample \/ StAll) /\ Advance
Reject == More /\ ~ENABLED Step /\ Rejected(<<mode, cap, Cur>>) /\ SkipTrace /\ UNCHANGED vs
TraceInit == l = 1 /\ mode = "best" /\ cap = 1 /\ mem = {} /\ q = <<>>
TraceSpec == TraceInit /\ [][Step \/ Reject]_<<l, vs>>
=============================================================================

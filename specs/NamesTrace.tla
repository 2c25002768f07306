----------------------------- MODULE NamesTrace -----------------------------
(* Fresh processes asking for public names in every order.  objs: within one  *)
(* process, the object each name stood for when it was first asked for; ids:   *)
(* across processes, what kind of thing each name was.                         *)
EXTENDS TraceBase, Viz
M == INSTANCE Names
VARIABLES objs, ids
vs == <<objs, ids>>
Set(s) == {s[i] : i \in 1..Len(s)}
May(f, k, v) == k \in DOMAIN f => f[k] = v
(* names of the same class, loader or subpackage in different packages are one *)
None == [x \in {} |-> "?"]
Key(p, n) == IF n \in M!Classes \cup M!Loaders THEN n ELSE p \o "." \o n
GetOK == /\ Ev.ok
         /\ May(objs, Key(Ev.p, Ev.n), Ev.obj)
         /\ May(ids, Key(Ev.p, Ev.n), Ev.id)
         /\ (Ev.n \in M!Classes => Ev.cls = Ev.n)
OK == CASE Ev.ev = "start" -> TRUE
        [] Ev.ev = "import" -> Ev.ok
        [] Ev.ev = "get" -> GetOK
        [] Ev.ev = "listed" -> Ev.ok /\ (Ev.p # "kd.dataset" => M!Offered(Ev.p) \subseteq Set(Ev.all)) /\ Set(Ev.missing) = {}
        [] Ev.ev = "star" -> Ev.ok /\ Set(Ev.missing) = {}
        [] Ev.ev = "unknown" -> ~Ev.ok /\ Ev.err \in {"AttributeError", "ImportError"}
        [] Ev.ev = "plots" -> Ev.ok /\ Set(Ev.can) = Kinds(M!Family(Ev.c)) /\ Set(Ev.sub) = Set(Ev.can)
        [] Ev.ev = "left" -> Ev.cwd /\ Ev.files = 0 /\ Ev.random /\ Ev.light
        [] OTHER -> FALSE
ONext == IF Ev.ev = "get" THEN Upd(objs, Key(Ev.p, Ev.n), Ev.obj) ELSE objs
INext == IF Ev.ev = "get" THEN Upd(ids, Key(Ev.p, Ev.n), Ev.id) ELSE ids
Steps == More /\ \E ok \in {OK} : IF ok THEN Advance /\ objs' = (IF Ev.ev = "start" THEN None ELSE ONext) /\ ids' = INext
                                  ELSE Rejected(<<Ev.ev>>) /\ SkipTrace /\ objs' = None /\ UNCHANGED ids
TraceInit == l = 1 /\ objs = None /\ ids = None
TraceSpec == TraceInit /\ [][Steps]_<<l, vs>>
=============================================================================

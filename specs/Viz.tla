-------------------------------- MODULE Viz --------------------------------
(* The plotting facade: which adapter serves a request, and what a request   *)
(* may leave behind.                                                         *)
(*  registry: eager maps a class to the adapter registered for it (0: none); *)
(*  lazy maps a class name to a pending registration [cls, ad] (ad = 0: the  *)
(*  class cannot be loaded), resolved when a class of that name is looked up *)
(*  style: rc are the process-wide drawing settings, cfg those configured    *)
(*  for plots, stack the settings saved by the requests in progress          *)
EXTENDS Integers, Sequences, FiniteSets
NoLazy == [cls |-> 0, ad |-> 0]
Upd(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
Over(f, g) == [x \in (DOMAIN f) \cup (DOMAIN g) |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]
(* ------------------------------------------------------------ registry --- *)
Register(R, c, a) == [R EXCEPT !.eager[c] = a]
RegisterLazy(R, c, a, nm) == [R EXCEPT !.lazy[nm[c]] = [cls |-> c, ad |-> a]]
Unregister(R, c) == [R EXCEPT !.eager[c] = 0]
Cleared(R) == [eager |-> [c \in DOMAIN R.eager |-> 0], lazy |-> [n \in DOMAIN R.lazy |-> NoLazy]]
Pending(R, n) == R.lazy[n].cls # 0
Resolve(R, n) == LET p == R.lazy[n] IN
    [eager |-> IF p.ad # 0 /\ R.eager[p.cls] = 0 THEN [R.eager EXCEPT ![p.cls] = p.ad] ELSE R.eager, lazy |-> [R.lazy EXCEPT ![n] = NoLazy]]
RECURSIVE Walk(_, _, _)
Walk(R, mro, nm) == IF mro = <<>> THEN [R |-> R, ad |-> 0] ELSE
    LET c == Head(mro)
        S == IF R.eager[c] = 0 /\ Pending(R, nm[c]) THEN Resolve(R, nm[c]) ELSE R
    IN IF S.eager[c] # 0 THEN [R |-> S, ad |-> S.eager[c]] ELSE Walk(S, Tail(mro), nm)
(* the declarative reading: nearest class with a registration of its own     *)
Own(R, c, nm) == IF R.eager[c] # 0 THEN R.eager[c] ELSE IF R.lazy[nm[c]].cls = c THEN R.lazy[nm[c]].ad ELSE 0
RECURSIVE Nearest(_, _, _)
Nearest(R, mro, nm) == IF mro = <<>> THEN 0 ELSE IF Own(R, Head(mro), nm) # 0 THEN Own(R, Head(mro), nm) ELSE Nearest(R, Tail(mro), nm)
(* --------------------------------------------------------------- style --- *)
Configured(D, s) == Over(D, s)
Begin(S, s) == [S EXCEPT !.rc = Over(Over(S.rc, S.cfg), s), !.stack = Append(S.stack, S.rc)]
End(S) == [S EXCEPT !.rc = S.stack[Len(S.stack)], !.stack = SubSeq(S.stack, 1, Len(S.stack) - 1)]
SetRc(S, k, v) == [S EXCEPT !.rc = Upd(S.rc, k, v)]
(* ---------------------------------------------- what one request may do --- *)
(* told: the request said nothing could be drawn                             *)
(* truthful: every path reported was written by this request, is a picture,  *)
(* and a request that drew nothing says so                                   *)
Truthful(e) == /\ \A i \in 1..Len(e.paths) : e.paths[i].fresh /\ e.paths[i].picture /\ e.paths[i].inside
               /\ (Len(e.paths) = 0 /\ ~e.figure) => (e.warnings > 0 \/ e.raised)
Served(e) == e.raised = FALSE /\ e.intent = e.kind /\ Len(e.paths) > 0
Declined(e) == e.raised = FALSE /\ e.intent = e.kind /\ Len(e.paths) = 0 /\ e.warnings > 0
NothingBehind(e) == e.rc /\ e.figures = 0 /\ e.model /\ e.data
(* ------------------------- what the figures of each kind of model need --- *)
(* fit: a fitted model; pde: the equation is one of derivatives; grid: its    *)
(* data are still on their grid; surrogate: a network's scattered values are  *)
(* there; truth: the exact equation is known; data: fields are in the request *)
Kinds(family) ==
    CASE family = "discover" -> {"search_evolution", "density", "tree", "equation", "residual", "field_comparison", "parity", "spr_residual", "spr_field_comparison"}
      [] family = "dlga" -> {"training_curve", "validation_curve", "search_evolution", "optimization", "equation", "derivative_relationships", "parity", "residual", "field_comparison", "time_slices"}
      [] family = "sga" -> {"equation", "parity", "field_comparison", "time_slices", "residual"}
      [] family = "pysr" -> {"equation", "parity", "residual"}
      [] OTHER -> {}
Needs(family, kind) ==
    CASE family = "discover" /\ kind \in {"search_evolution", "density"} -> {"history"}
      [] family = "discover" /\ kind = "tree" -> {"fit"}
      [] family = "discover" /\ kind = "equation" -> {"fit", "pde"}
      [] family = "discover" /\ kind \in {"residual", "field_comparison", "parity"} -> {"fit", "pde", "grid"}
      [] family = "discover" -> {"fit", "pde", "surrogate"}
      [] family = "dlga" /\ kind \in {"residual", "field_comparison", "time_slices"} -> {"data"}
      [] family = "sga" /\ kind \in {"field_comparison", "time_slices"} -> {"fit", "grid"}
      [] family = "sga" /\ kind = "residual" -> {"fit", "grid", "truth"}
      [] OTHER -> {"fit"}
Able(family, kind, holds) == kind \in Kinds(family) /\ Needs(family, kind) \subseteq holds
=============================================================================

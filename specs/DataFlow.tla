------------------------------ MODULE DataFlow ------------------------------
(* Who may write where while models are prepared, fitted and evaluated.      *)
(* The memory is a function address -> content.  A dataset is a sequence of  *)
(* addresses the caller owns; a model that is given a dataset holds, per     *)
(* part, either the caller's own address (an alias) or a private copy.  The  *)
(* caller may write anything of its own; a model may write private cells     *)
(* only.  Everything a fit computes is a function of the dataset's content   *)
(* at the time of the fit and of the entry point used.                       *)
EXTENDS Integers, Sequences, FiniteSets
Content(mem, ds) == [i \in DOMAIN ds |-> mem[ds[i]]]
(* taking a dataset: aliased parts keep the address, copied parts get a fresh one *)
Take(mem, ds, copied, base) == [i \in DOMAIN ds |-> IF i \in copied THEN base + i ELSE ds[i]]
TakeMem(mem, ds, copied, base) == [a \in DOMAIN mem \cup {base + i : i \in copied} |->
      IF a \in DOMAIN mem THEN mem[a] ELSE mem[ds[a - base]]]
CallerOwns(dss) == UNION {{dss[d][i] : i \in DOMAIN dss[d]} : d \in DOMAIN dss}
MayWrite(parts, dss) == {parts[i] : i \in DOMAIN parts} \ CallerOwns(dss)
(* what a step of any model leaves of the caller's cells *)
Untouched(mem, mem2, dss) == \A a \in CallerOwns(dss) : mem2[a] = mem[a]
(* the observable law, over content tokens: a non-caller step changes no content, and the view a
   model was given is the same whenever kind, entry and content are the same *)
SameContent(before, after) == before = after
SeenOK(seen, k, v) == k \in DOMAIN seen => seen[k] = v
=============================================================================

---------------------------- MODULE RegistryTrace ----------------------------
EXTENDS TraceBase, Registry
VARIABLES seen, listed
vs == <<seen, listed>>
Info(n) == CHOOSE r \in {listed[i] : i \in 1..Len(listed)} : r.n = n
InList(n) == \E i \in 1..Len(listed) : listed[i].n = n
Listing == /\ Cardinality({Ev.infos[i].n : i \in 1..Len(Ev.infos)}) = Len(Ev.infos) /\ Len(Ev.infos) > 0
           /\ \A i \in 1..Len(Ev.infos) : Ev.infos[i].sym # <<>> => Complete(Ev.infos[i].sym)
           /\ (listed # <<>> => Ev.infos = listed)
Load == LET r == Info(Ev.n) IN
        IF ~r.active THEN ~Ev.ok \/ Ev.isds
        ELSE /\ Ev.ok /\ Ev.isds
             /\ Ev.shape = <<Ev.nx, Ev.nt>> /\ (r.shape # <<>> => Ev.shape = r.shape)
             /\ Ev.name = Ev.n /\ Ev.registry = Ev.n /\ Ev.aliases = r.aliases /\ Ev.legacy = r.legacy
             /\ Ev.domain = r.domain
             /\ Ev.udig = (CASE Orientation(Ev.rawshape, Ev.nx, Ev.nt) = "asis" -> Ev.rawu [] Orientation(Ev.rawshape, Ev.nx, Ev.nt) = "turned" -> Ev.rawt [] OTHER -> "none")
             /\ (Ev.rawx # "none" => Ev.xdig = Ev.rawx) /\ (Ev.rawtime # "none" => Ev.tdig = Ev.rawtime)
             (* generated coordinates: evenly spaced over the declared domain *)
             /\ (Ev.rawx = "none" => Ev.even /\ Ev.spans)
             /\ Ev.monotone /\ Ev.finite /\ Ev.epi = Ev.wantepi
             /\ (Ev.n \in DOMAIN seen => seen[Ev.n] = <<Ev.udig, Ev.xdig, Ev.tdig>>)
(* the stored data obey the declared equation, with the published coefficients *)
Fits == Ev.ppm <= 200000 /\ Ev.dev <= 200000
Unknown == ~Ev.ok /\ Ev.named
Custom == IF Ev.good THEN Ev.ok /\ Ev.udig = (IF Orientation(Ev.rawshape, Ev.nx, Ev.nt) = "asis" THEN Ev.rawu ELSE Ev.rawt) /\ Ev.xdig = Ev.rawx /\ Ev.tdig = Ev.rawtime
          ELSE ~Ev.ok
Regression == /\ Ev.xshape[1] = Ev.ylen /\ Ev.xshape[2] = Len(Ev.vars) /\ Ev.ylen = Ev.rows /\ Ev.columns
              /\ Cardinality({Ev.vars[i] : i \in 1..Len(Ev.vars)}) = Len(Ev.vars) /\ ~(Ev.target \in {Ev.vars[i] : i \in 1..Len(Ev.vars)})
              /\ (Ev.n \in DOMAIN seen => seen[Ev.n] = <<Ev.xdig, Ev.ydig, Ev.meta>>)
OK == CASE Ev.ev = "listing" -> Listing
        [] Ev.ev = "load" -> Load
        [] Ev.ev = "scribble" -> TRUE
        [] Ev.ev = "fits" -> Fits
        [] Ev.ev = "unknown" -> Unknown
        [] Ev.ev = "custom" -> Custom
        [] Ev.ev = "regression" -> Regression
        [] OTHER -> FALSE
Add(f, k, v) == IF k \in DOMAIN f THEN f ELSE [d \in DOMAIN f \cup {k} |-> IF d = k THEN v ELSE f[d]]
Next_ == /\ listed' = (IF Ev.ev = "listing" THEN Ev.infos ELSE listed)
         /\ seen' = (CASE Ev.ev = "load" /\ Ev.ok -> Add(seen, Ev.n, <<Ev.udig, Ev.xdig, Ev.tdig>>)
                       [] Ev.ev = "regression" -> Add(seen, Ev.n, <<Ev.xdig, Ev.ydig, Ev.meta>>)
                       [] OTHER -> seen)
Steps == More /\ \E ok \in {OK} : IF ok THEN Advance /\ Next_ ELSE Rejected(<<Ev.ev>>) /\ SkipTrace /\ UNCHANGED vs
TraceInit == l = 1 /\ seen = <<>> /\ listed = <<>>
TraceSpec == TraceInit /\ [][Steps]_<<l, vs>>
=============================================================================

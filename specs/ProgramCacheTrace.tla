-------------------------- MODULE ProgramCacheTrace -------------------------
EXTENDS TraceBase, ProgramCache
VARIABLES cf, objs, cache, given
vs == <<cf, objs, cache, given>>
HasConst(t) == cf.const > 0 /\ \E k \in 1..Len(t) : t[k] = cf.const
NConst(t) == Cardinality({k \in 1..Len(t) : t[k] = cf.const})
(* after every event the reader's view of every candidate is the model's     *)
Agrees(v, os) == /\ Len(v) = Len(os)
                 /\ \A i \in 1..Len(os) : /\ v[i].toks = os[i].toks /\ v[i].names = [k \in 1..Len(os[i].toks) |-> cf.names[os[i].toks[k]]]
                                          /\ v[i].consts = os[i].consts /\ v[i].on = os[i].on /\ v[i].off = os[i].off
                                          /\ (os[i].r # "none" => v[i].r = os[i].r)
                                          /\ v[i].str = v[i].toks
                                          /\ (Has(os[i], "terms") => v[i].terms = os[i].terms)
WithTerms(os, v) == [i \in 1..Len(os) |-> IF Has(os[i], "terms") THEN os[i] ELSE
                      [toks |-> os[i].toks, consts |-> os[i].consts, r |-> os[i].r, on |-> os[i].on, off |-> os[i].off, terms |-> v[i].terms]]
Unset(n) == [k \in 1..n |-> "NONE"]
StNew == /\ Ev.ev = "new" /\ cf' = [ar |-> Ev.ar, fill |-> {Ev.fill[i] : i \in 1..Len(Ev.fill)}, const |-> Ev.const, names |-> Ev.names, stoch |-> Ev.stoch]
         /\ objs' = <<>> /\ cache' = <<>> /\ given' = <<>>
(* values: constants handed over with the sequence                           *)
StBuild ==
  /\ Ev.ev = "build" /\ cf' = cf /\ given' = given
  /\ LET t == Ev.toks IN
     /\ IsCompletion(cf.ar, cf.fill, Ev.seq, t) /\ IsComplete(cf.ar, t)
     /\ LET useCache == ~Ev.skip /\ ~cf.stoch
            new == Append(objs, [Fresh(t, Ev.on) EXCEPT !.consts = Unset(NConst(t))])
            put(i, os) == IF Ev.vals = <<>> THEN os ELSE [os EXCEPT ![i].consts = Ev.vals]
            hit == useCache /\ t \in DOMAIN cache /\ objs' = WithTerms(put(cache[t], [objs EXCEPT ![cache[t]] = Counted(@, Ev.on)]), Ev.view)
                   /\ Ev.obj = cache[t] /\ cache' = cache
            miss == Ev.obj = Len(objs) + 1 /\ objs' = WithTerms(put(Ev.obj, new), Ev.view)
                    /\ cache' = IF useCache THEN [x \in DOMAIN cache \cup {t} |-> IF x = t THEN Ev.obj ELSE cache[x]] ELSE cache
        IN IF useCache /\ t \in DOMAIN cache THEN hit \/ (HasConst(t) /\ miss) ELSE miss
  /\ Agrees(Ev.view, objs')
StEval == /\ Ev.ev = "eval" /\ UNCHANGED <<cf, cache, given>>
          /\ objs' = (IF objs[Ev.obj].r = "none" THEN [objs EXCEPT ![Ev.obj].r = Ev.r] ELSE objs)
          /\ objs'[Ev.obj].r = Ev.r
          /\ Agrees(Ev.view, objs')
StConst == /\ Ev.ev = "setc" /\ UNCHANGED <<cf, cache, given>>
           /\ objs' = [objs EXCEPT ![Ev.obj].consts = Ev.vals]
           /\ Agrees(Ev.view, objs')
StClear == /\ Ev.ev = "clear" /\ cache' = <<>> /\ UNCHANGED <<cf, objs, given>> /\ Agrees(Ev.view, objs')
Step == More /\ (StNew \/ StBuild \/ StEval \/ StConst \/ StClear) /\ Advance
Reject == More /\ ~ENABLED Step /\ Rejected(IF Has(Ev, "obj") /\ Ev.obj \in 1..Len(objs) THEN objs[Ev.obj] ELSE "") /\ SkipTrace /\ UNCHANGED vs
TraceInit == l = 1 /\ cf = [ar |-> <<>>, fill |-> {}, const |-> 0, names |-> <<>>, stoch |-> FALSE] /\ objs = <<>> /\ cache = <<>> /\ given = <<>>
TraceSpec == TraceInit /\ [][Step \/ Reject]_<<l, vs>>
=============================================================================

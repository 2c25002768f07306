------------------------------- MODULE Params -------------------------------
(* Estimator parameters.  A heap of estimator objects; a parameter value is  *)
(* [k |-> "val", v |-> a datum] or [k |-> "ref", id |-> an estimator].       *)
(* Requests name parameters by paths ("outer__inner" is <<outer, inner>>).   *)
EXTENDS Integers, Sequences, FiniteSets
Val(v) == [k |-> "val", v |-> v]
Ref(i) == [k |-> "ref", id |-> i]
IsRef(x) == x.k = "ref"
Put(f, k, v) == [d \in DOMAIN f \cup {k} |-> IF d = k THEN v ELSE f[d]]
(* C: class name -> [names |-> set of names, def |-> name -> value of the optional ones] *)
Args(as) == {as[i].n : i \in 1..Len(as)}
ArgOf(as, n) == as[CHOOSE i \in 1..Len(as) : as[i].n = n].v
CanMake(c, as) == Args(as) \subseteq c.names /\ c.names \ Args(as) \subseteq DOMAIN c.def
Made(cn, c, as) == [cls |-> cn, par |-> [n \in c.names |-> IF n \in Args(as) THEN ArgOf(as, n) ELSE c.def[n]]]
(* a request is a sequence of [p |-> path, v |-> value], all names distinct.   *)
Heads(req) == {req[i].p[1] : i \in 1..Len(req)}
Own(req, n) == {i \in 1..Len(req) : req[i].p = <<n>>}
Below(req, n) == LET s == SelectSeq(req, LAMBDA r : r.p[1] = n /\ Len(r.p) > 1) IN [i \in 1..Len(s) |-> [p |-> Tail(s[i].p), v |-> s[i].v]]
(* what parameter n of object o is once the request's own entries are in place *)
Target(H, o, req, n) == IF Own(req, n) # {} THEN req[CHOOSE i \in Own(req, n) : TRUE].v ELSE H[o].par[n]
RECURSIVE Valid(_, _, _)
Valid(H, o, req) == /\ Heads(req) \subseteq DOMAIN H[o].par
                    /\ \A n \in Heads(req) : Below(req, n) # <<>> => LET t == Target(H, o, req, n) IN IsRef(t) /\ Valid(H, t.id, Below(req, n))
(* the own entries first, then the nested ones, each on the object now there  *)
RECURSIVE Apply(_, _, _), Nested(_, _, _, _)
Apply(H, o, req) == LET own == {n \in Heads(req) : Own(req, n) # {}}
                        H1 == [H EXCEPT ![o].par = [n \in DOMAIN H[o].par |-> IF n \in own THEN Target(H, o, req, n) ELSE H[o].par[n]]]
                    IN  Nested(H1, o, req, {n \in Heads(req) : Below(req, n) # <<>>})
Nested(H, o, req, ns) == IF ns = {} THEN H
                         ELSE LET n == CHOOSE n \in ns : TRUE IN Nested(Apply(H, H[o].par[n].id, Below(req, n)), o, req, ns \ {n})
Set(H, o, req) == IF Valid(H, o, req) THEN Apply(H, o, req) ELSE H
(* what reading reports: the object's own parameters, and those of the       *)
(* estimators inside under their path                                        *)
RECURSIVE Deep(_, _)
Deep(H, o) == {[p |-> <<n>>, v |-> H[o].par[n]] : n \in DOMAIN H[o].par}
              \cup UNION {{[p |-> <<n>> \o r.p, v |-> r.v] : r \in Deep(H, H[o].par[n].id)} : n \in {m \in DOMAIN H[o].par : IsRef(H[o].par[m])}}
Shallow(H, o) == {[p |-> <<n>>, v |-> H[o].par[n]] : n \in DOMAIN H[o].par}
(* an object built from what reading another one shallowly reports            *)
CloneOf(H, o) == H[o]
=============================================================================

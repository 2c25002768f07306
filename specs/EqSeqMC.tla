------------------------------- MODULE EqSeqMC -------------------------------
(* Design check of sampling under a shrinking vocabulary, and of clean-up.   *)
EXTENDS EqSeq, TLC, Json
CONSTANTS Terms, Max, Emit
VARIABLES s, ok, used, done
vars == <<s, ok, used, done>>
Init == s = <<Ut, Plus>> /\ ok \in {Terms, Terms \ {CHOOSE x \in Terms : TRUE}} /\ used = {} /\ done = FALSE
Grow == ~done /\ Len(s) < Max /\ \E t \in IF Odd(Len(s) + 1) THEN ok ELSE Ops :
          s' = Append(s, t) /\ done' = (t = End) /\ used' = used \cup {<<t, t \in ok \cup Ops>>} /\ UNCHANGED ok
Exclude == Len(s) = 4 /\ \E t \in ok : ok # {t} /\ ok' = ok \ {t} /\ UNCHANGED <<s, used, done>>
Next == Grow \/ Exclude
Spec == Init /\ [][Next]_vars
Stopped == done \/ Len(s) = Max
Grammatical == Stopped => Sequence(s, Max)
NeverExcluded == \A u \in used : u[2]
Idempotent == Stopped => LET k == Concise(s) IN Concise(k) = k
(* cleaning up neither loses a distinct group nor invents one                *)
Faithful == done => LET g == Groups(s) h == Groups(Concise(s)) IN
   /\ Readable(Concise(s))
   /\ \A i \in 1..Len(h) : \E j \in 1..Len(g) : g[j] = h[i]
   /\ \A j \in 1..Len(g) : \E i \in 1..Len(h) : SameBag(TermsOf(g[j]), TermsOf(h[i]))
   /\ \A i, j \in 1..Len(h) : i < j => ~SameBag(TermsOf(h[i]), TermsOf(h[j]))
(* cut inside a group: unreadable, unless that group is one that is dropped  *)
CutUnreadable == Stopped /\ ~done /\ s[Max] \in {Times, Over} => ~Readable(Concise(s)) \/ \E i \in 1..(Len(Groups(s)) - 1) : SameBag(TermsOf(Groups(s)[i]), TermsOf(Groups(s)[Len(Groups(s))]))
Told == (Emit /\ Stopped) => PrintT("@@CASE " \o ToJson(s))
=============================================================================

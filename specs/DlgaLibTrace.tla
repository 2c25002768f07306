---------------------------- MODULE DlgaLibTrace -----------------------------
EXTENDS TraceBase, DlgaLib
(* the library and the stored fields                                          *)
LibOK == /\ Accepted(Ev.ops)
         /\ Ev.theta = Library(Ev.c, Ev.ops, Ev.pts)
         /\ Ev.ut = Column(Ev.c, "u_t", Ev.pts) /\ Ev.utt = Column(Ev.c, "u_tt", Ev.pts)
         /\ \A i \in 1..Len(Ev.meta) : Ev.meta[i].vals = Column(Ev.c, Ev.meta[i].name, Ev.pts)
         /\ \A o \in Supported : \E i \in 1..Len(Ev.meta) : Ev.meta[i].name = o
RefusedOK == ~Accepted(Ev.ops) /\ ~Ev.trained
IAbs(x) == IF x < 0 THEN 0 - x ELSE x
(* the text: the terms in order, coefficients to four decimals               *)
TextOK == /\ Ev.lhs = Ev.name
          /\ Len(Ev.terms) = Len(Ev.ind)
          /\ LET r == Reads(Ev.ops, Ev.ind) IN \A i \in 1..Len(r) : Ev.terms[i].names = r[i] /\ IAbs(Ev.terms[i].w - Ev.coefs[i]) <= 1
(* what the fit reported is the head of the final population                 *)
FitOK == Ev.reported = Ev.head
(* the features come from the recorded network state with the lowest         *)
(* validation error: ranks by checkpoint, in order                           *)
BestOK == Ev.ranks = <<>> \/ (Ev.used \in 1..Len(Ev.ranks) /\ Ev.ranks[Ev.used] = 0)
Verdict == CASE Ev.ev = "lib" -> LibOK [] Ev.ev = "refused" -> RefusedOK [] Ev.ev = "text" -> TextOK [] Ev.ev = "fit" -> FitOK [] Ev.ev = "best" -> BestOK [] OTHER -> FALSE
Steps == More /\ \E ok \in {Verdict} : IF ok THEN Advance ELSE Rejected(<<Ev.ev>>) /\ Advance
TraceInit == l = 1
TraceSpec == TraceInit /\ [][Steps]_<<l>>
=============================================================================

------------------------------- MODULE AppTrace ------------------------------
(* Recorded sessions: what the page showed after every action, which models  *)
(* were trained and which jobs were sent meanwhile.                          *)
EXTENDS TraceBase, App
VARIABLE s
V == Ev.view
SetOf(q) == {q[i] : i \in 1..Len(q)}
Idle == Ev.fits = <<>> /\ Ev.sent = <<>>
Fed(args) == \A p \in Table(Ev.model) : p[1] \in DOMAIN Ev.entered /\ p[2] \in DOMAIN args /\ args[p[2]] = Ev.entered[p[1]]
Ran == /\ Len(Ev.fits) = 1 /\ Ev.sent = <<>> /\ Ev.fits[1].model = Class(Ev.model) /\ (Ev.model # "KD_EqGPT" => Ev.fits[1].data = Ev.ds) /\ Fed(Ev.fits[1].args)
(* one job, or none when the request was turned down before it left          *)
Sent == Ev.fits = <<>> /\ Len(Ev.sent) <= 1 /\ (Ev.o = "sent" => Ev.sent # <<>>) /\ (Ev.sent # <<>> =>
        /\ Ev.sent[1].model = Runner(Ev.model) /\ Ev.sent[1].data = Ev.ds /\ Fed(Ev.sent[1].args))
(* the page against the session                                              *)
Shows(t) == V.eq = t.eq /\ V.kept \in {0, t.kept} /\ V.job = t.job /\ V.follow = (t.job # 0) /\ (t.eq = 0 => ~V.plot) /\ V.said
Figures == /\ SetOf(V.figs) \subseteq SetOf(Ev.caps)
           /\ \A f \in SetOf(V.figs) : f \in SetOf(Ev.spr) => Ev.model = "KD_DSCV_SPR"
           /\ (Ev.model # "KD_EqGPT" => SetOf(Ev.caps) \ SetOf(Ev.spr) \subseteq SetOf(V.figs))
TrainOK == IF Ev.model = "none" THEN Idle /\ Shows(Nothing)
           ELSE IF Offload(Ev.model, Ev.login) THEN Sent /\ Shows(Submitted(Ev.k, Ev.o))
           ELSE Ran /\ (IF Ev.o = "equation" THEN Shows(Trained(Ev.k, Ev.o)) /\ V.kept = Ev.k /\ V.plot /\ Figures
                        ELSE Shows([kept |-> IF Ev.o = "nothing" THEN Ev.k ELSE 0, eq |-> 0, job |-> 0]))
CheckOK == Idle /\ Ev.asked = s.job /\ LET t == Checked(s, Ev.o) IN Shows([t EXCEPT !.kept = s.kept]) /\ (Ev.o = "success" => V.plot = Ev.picture) /\ (V.status = "finished" => Ev.o = "success") /\ (Ev.o \in {"failed", "error", "missing"} => V.status = "failed")
CancelOK == Idle /\ Shows(Nothing)
(* a figure request: asked of the kept model's adapter, and whatever came of it shown *)
FigureOK == /\ Idle /\ V.eq = s.eq /\ V.kept = s.kept /\ V.job = s.job /\ Ev.restored /\ Ev.said
            /\ (IF s.kept = 0 \/ ~Ev.adapter THEN Ev.shown = "none" /\ Ev.asked = <<>>
                ELSE /\ Ev.asked = <<[kind |-> Ev.kind, of |-> s.kept]>>
                     /\ Ev.shown = (CASE Ev.o \in {"figure", "warned"} -> "figure" [] Ev.o = "file" -> "file" [] OTHER -> "none")
                     /\ (Ev.o \in {"warned", "message"} => Ev.warned))
ChooseOK == /\ Idle /\ SetOf(Ev.datasets) = SetOf(Ev.active) /\ SetOf(V.offered) = Offered(SetOf(Ev.flags)) /\ Len(V.offered) = Cardinality(SetOf(V.offered)) /\ V.model \in SetOf(V.offered) /\ SetOf(V.groups) = Groups(V.model)
PickOK == Idle /\ SetOf(V.groups) = Groups(Ev.model) /\ V.model = Ev.model /\ (Ev.model \in {"KD_DSCV", "KD_DSCV_SPR"} => Ev.presets \in {"kept", IF Ev.model = "KD_DSCV_SPR" THEN "torch" ELSE "plain"})
Verdict == CASE Ev.ev = "train" -> TrainOK [] Ev.ev = "check" -> CheckOK [] Ev.ev = "cancel" -> CancelOK [] Ev.ev = "figure" -> FigureOK
             [] Ev.ev = "choose" -> ChooseOK [] Ev.ev = "pick" -> PickOK [] OTHER -> FALSE
(* the session as the page has it                                            *)
Seen == [kept |-> V.kept, eq |-> V.eq, job |-> V.job]
Steps == More /\ s' = (IF Ev.ev \in {"choose", "pick"} THEN (IF Ev.first THEN Nothing ELSE s) ELSE Seen) /\ \E ok \in {Verdict} : IF ok THEN Advance ELSE Rejected(<<Ev.ev>>) /\ Advance
TraceInit == l = 1 /\ s = Nothing
TraceSpec == TraceInit /\ [][Steps]_<<l, s>>
=============================================================================

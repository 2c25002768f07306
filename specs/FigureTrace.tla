---------------------------- MODULE FigureTrace ----------------------------
(* Pictures drawn by the real code, against the world they are of.           *)
EXTENDS TraceBase, Figure
VARIABLES W, q
vs == <<W, q>>
NoW == [sp |-> <<>>]
AllOf(s, P(_)) == \A i \in 1..Len(s) : P(s[i])
SetOf(s, F(_)) == {F(s[i]) : i \in 1..Len(s)}

(* ---------------------------------------------------- pictures of fields *)
C == Cut([a \in 1..D(W) |-> Len(W.sp[a])], Ev.ax, Ev.ix)
Middle == Cut([a \in 1..D(W) |-> Len(W.sp[a])], 0 - 1, None)
Says(c) == SetOf(Ev.maps, LAMBDA m : MapSays(W, c, m)) \cup SetOf(Ev.curves, LAMBDA m : CurveSays(W, m))
           \cup SetOf(Ev.dots, LAMBDA m : <<"dots", m.role, 0 - 1>>) \cup SetOf(Ev.clouds, LAMBDA m : <<"cloud", "", 0 - 1>>)
           \cup SetOf(Ev.hists, LAMBDA m : <<"hist", m.role, 0 - 1>>)
Right(c) == /\ AllOf(Ev.maps, LAMBDA m : MapOK(W, q, c, m))
            /\ AllOf(Ev.curves, LAMBDA m : CurveOK(W, q, m))
            /\ AllOf(Ev.dots, LAMBDA m : DotsOK(W, q, m))
            /\ AllOf(Ev.clouds, LAMBDA m : CloudOK(q, m))
            /\ AllOf(Ev.hists, LAMBDA m : m.role \in DOMAIN q /\ (HistOK(q[m.role], m.bars) \/ (D(W) > 2 /\ HistOK(Vals(CutOf(W, c, q[m.role])), m.bars))))
Both(what, times) == {<<what, r, t>> : r \in {"true", "pred"}, t \in times}
Nt == Len(W.tc)
Flat == {0 - 1}
Field == IF D(W) = 1 THEN Both("map", Flat) ELSE Both("map", Shown(Nt))
Resid == IF D(W) = 1 THEN {<<"dots", "resid", 0 - 1>>, <<"hist", "resid", 0 - 1>>} ELSE {<<"map", "resid", Nt \div 2>>, <<"hist", "resid", 0 - 1>>}
SgaResid == {<<"hist", r, 0 - 1>> : r \in {"resid", "resid0"}} \cup {<<"map", r, IF D(W) = 1 THEN 0 - 1 ELSE Nt \div 2>> : r \in {"resid", "resid0"}}
Cloud == {<<"cloud", "", 0 - 1>>}
(* the times a request for slices asks for                                   *)
Spread(n) == LET lo == MinOf(Elems(W.tc)) hi == MaxOf(Elems(W.tc)) IN [i \in 1..n |-> IF n = 1 THEN lo ELSE lo + ((i - 1) * (hi - lo)) \div (n - 1)]
Asked == IF Ev.rel THEN [i \in 1..Len(Ev.times) |-> W.tc[((Ev.times[i] * (Nt - 1)) \div 4) + 1]]
         ELSE IF ~Ev.given THEN Spread(Ev.n) ELSE IF Ev.times = <<>> THEN W.tc ELSE Ev.times
SlicesOK(say) == LET S == {x[3] : x \in say} IN
                 /\ say = Both(IF D(W) = 1 THEN "curve" ELSE "map", S)
                 /\ \A i \in 1..Len(Asked) : Nearest(W.tc, Within(W.tc, Asked[i])) \cap S # {}
                 /\ \A s \in S : \E i \in 1..Len(Asked) : s \in Nearest(W.tc, Within(W.tc, Asked[i]))
Refused == Ev.given /\ ~Ev.rel /\ ~Ev.clip /\ \E i \in 1..Len(Ev.times) : Within(W.tc, Ev.times[i]) # Ev.times[i]
(* the data that came with the picture                                       *)
MetaOK == ~Ev.meta.has \/ SameBag([i \in 1..Len(Ev.meta.a) |-> <<Ev.meta.a[i], Ev.meta.p[i], Ev.meta.r[i]>>],
                                  [i \in 1..Len(q["true"]) |-> <<q["true"][i], q["pred"][i], q["resid"][i]>>])
SumOK == ~Ev.sum.has \/ (Ev.sum.max = MaxAbs(q[Ev.sum.role]) /\ Ev.sum.total = Sum(q[Ev.sum.role]))
FigureOK == IF Ev.kind = "slices" /\ Refused THEN ~Ev.drawn
            ELSE /\ Ev.drawn
                 /\ MetaOK /\ SumOK
                 /\ \E c \in {IF Ev.kind \in {"residual", "sga residual"} THEN Middle ELSE C} :
                      /\ Right(c)
                      /\ \E s \in {Says(c)} : CASE Ev.kind = "field" -> s = Field
                                                [] Ev.kind = "residual" -> s = Resid
                                                [] Ev.kind = "sga residual" -> s = SgaResid
                                                [] Ev.kind = "parity" -> s = Cloud
                                                [] Ev.kind = "pairs" -> s = Cloud \cup {<<"hist", "resid", 0 - 1>>}
                                                [] Ev.kind = "hist" -> s = {<<"hist", "resid", 0 - 1>>}
                                                [] Ev.kind = "slices" -> SlicesOK(s)
                                                [] OTHER -> FALSE

(* ------------------------------------------------------------- curves ---- *)
MeanIs(m, s) == m * Len(s) = Sum(s)
Steps1(xs) == \A i \in 1..(Len(xs) - 1) : xs[i + 1] = xs[i] + 1
Line(k) == LET I == {i \in 1..Len(Ev.lines) : Ev.lines[i].k = k} IN IF Cardinality(I) = 1 THEN Ev.lines[CHOOSE i \in I : TRUE] ELSE [k |-> k, xs |-> <<>>, ys |-> <<>>]
RewardsOK == LET h == Ev.hist n == Len(Ev.hist) IN
             /\ SetOf(Ev.lines, LAMBDA m : m.k) = {"best", "max", "mean"} /\ Len(Ev.lines) = 3
             /\ \A k \in {"best", "max", "mean"} : Len(Line(k).xs) = n /\ Len(Line(k).ys) = n /\ Steps1(Line(k).xs) /\ Line(k).xs = Line("best").xs
             /\ \A i \in 1..n : /\ Line("max").ys[i] = MaxOf(Elems(h[i]))
                                /\ MeanIs(Line("mean").ys[i], h[i])
                                /\ Line("best").ys[i] = MaxOf(UNION {Elems(h[j]) : j \in 1..i})
HistoryOK == /\ SetOf(Ev.lines, LAMBDA m : m.k) = Elems(Ev.names)
             /\ AllOf(Ev.lines, LAMBDA m : m.k \in DOMAIN Ev.want /\ m.ys = Ev.want[m.k] /\ Len(m.xs) = Len(m.ys) /\ Steps1(m.xs))
DensityOK == LET n == Len(Ev.hist) E == SetOf(Ev.curves, LAMBDA m : m.ep) R == 0..(n - 1) IN
             /\ Cardinality(E) = Len(Ev.curves) /\ E \subseteq R
             /\ AllOf(Ev.curves, LAMBDA m : MeanIs(m.centre, Ev.hist[m.ep + 1]))
             /\ (IF Ev.given THEN E = Elems(Ev.asked) \cap R ELSE {0, n - 1} \subseteq E /\ (n <= Ev.max => E = R))
             /\ Ev.drawn = (E # {})

(* ------------------------------------------- the terms of a DLGA equation *)
ProdAt(names, i) == Times([k \in 1..Len(names) |-> Ev.data[names[k]][i]])
Usable(m) == \A k \in 1..Len(m) : m[k] + 1 <= Len(Ev.ops) /\ Ev.ops[m[k] + 1] \in DOMAIN Ev.data
TermNames(m) == [k \in 1..Len(m) |-> Ev.ops[m[k] + 1]]
Terms == {k \in 1..Len(Ev.chrom) : Usable(Ev.chrom[k])}
PanelOf(p, k) == /\ p.coef = Ev.coef[k] /\ SameBag(p.names, TermNames(Ev.chrom[k])) /\ p.lhs = Ev.lhs
                 /\ SameBag(p.pts, [i \in 1..Len(Ev.data[Ev.lhs]) |-> <<ProdAt(p.names, i), Ev.data[Ev.lhs][i]>>])
(* as many as asked for, each a term of the equation, the heaviest ones       *)
TermsOK == IF Ev.lhs \notin DOMAIN Ev.data \/ Terms = {} THEN Ev.panels = <<>>
           ELSE LET n == Len(Ev.panels) IN
                /\ n = (IF Ev.top < Cardinality(Terms) THEN Ev.top ELSE Cardinality(Terms))
                /\ \E f \in [1..n -> Terms] : /\ \A i, j \in 1..n : i # j => f[i] # f[j]
                                              /\ \A i \in 1..n : PanelOf(Ev.panels[i], f[i])
                                              /\ \A k \in Terms \ {f[i] : i \in 1..n} : \A i \in 1..n : Abs(Ev.coef[k]) <= Abs(Ev.coef[f[i]])
EqTermsWorld == LET n == Len(Ev.data[Ev.lhs]) IN [i \in 1..n |-> Sum([k \in 1..Len(Ev.chrom) |-> Ev.coef[k] * ProdAt(TermNames(Ev.chrom[k]), i)])]
DlgaParityOK == IF Ev.lhs \notin DOMAIN Ev.data \/ \E k \in 1..Len(Ev.chrom) : ~Usable(Ev.chrom[k]) THEN Ev.pts = <<>>
                ELSE /\ SameBag(Ev.pts, [i \in 1..Len(Ev.data[Ev.lhs]) |-> IF Ev.xr = "pred" THEN <<EqTermsWorld[i], Ev.data[Ev.lhs][i]>> ELSE <<Ev.data[Ev.lhs][i], EqTermsWorld[i]>>])
                     /\ {Ev.xr, Ev.yr} = {"pred", "true"}
PairOK == /\ Ev.pts # <<>>
          /\ SameBag(Ev.pts, [i \in 1..Len(Ev.data[Ev.lhs]) |-> <<ProdAt(Ev.xn, i), ProdAt(Ev.yn, i), Ev.data[Ev.cn][i]>>])
          /\ HistOK(Ev.data[Ev.cn], Ev.bars)

(* ------------------------------- pictures interpolated between samples --- *)
(* the samples lie on a plane (one per time bin): so must the picture         *)
Plane(r, x, y, b) == Ev.plane[r].c + Ev.plane[r].x * x + Ev.plane[r].y * y + Ev.plane[r].b * b
BinOf(t) == LET B == {i \in 1..Len(Ev.bins) : Ev.bins[i][1] <= t /\ t < Ev.bins[i][2]} IN IF B = {} THEN 0 - 1 ELSE CHOOSE i \in B : TRUE
SampledOK == /\ Ev.drawn
             /\ (IF Ev.bins = <<>> THEN SetOf(Ev.maps, LAMBDA m : m.role) = {"true", "pred"}
                 ELSE \A r \in {"true", "pred"} : {1, Len(Ev.bins)} \subseteq {BinOf(Ev.maps[i].at) : i \in {j \in 1..Len(Ev.maps) : Ev.maps[j].role = r}})
             /\ AllOf(Ev.maps, LAMBDA m : /\ m.role \in {"true", "pred"} /\ {m.xa, m.ya} = (IF Ev.bins = <<>> THEN {"s1", "t"} ELSE {"s1", "s2"})
                                          /\ Len(m.xs) >= 3 /\ Len(m.ys) >= 3
                                          /\ (Ev.bins = <<>> \/ BinOf(m.at) > 0)
                                          /\ \A i \in 1..Len(m.ys) : \A j \in 1..Len(m.xs) :
                                               m.v[i][j] = (IF m.ya = "s1" THEN Plane(m.role, m.ys[i], m.xs[j], IF Ev.bins = <<>> THEN 0 ELSE BinOf(m.at))
                                                            ELSE Plane(m.role, m.xs[j], m.ys[i], IF Ev.bins = <<>> THEN 0 ELSE BinOf(m.at))))

(* ----------------------------------------- which data are taken together *)
Full == Ev.sizes \o <<Ev.nt>>
FieldRule == Ev.t = Full /\ Ev.p = Full /\ (Ev.r = <<>> \/ Ev.r = Full)
ResidOf == IF Ev.r = <<>> THEN Minus(Ev.tv, Ev.pv) ELSE Ev.rv
Fits == CASE Ev.k = "field" -> Ev.ok = FieldRule /\ (Ev.ok => Ev.out = ResidOf)
          [] Ev.k = "times" -> Ev.ok = (Ev.t = Full /\ Ev.p = Full /\ \A i \in 1..Len(Ev.times) : Within(<<0, 2, 4>>, Ev.times[i]) = Ev.times[i])
          [] Ev.k = "residual" -> Ev.ok = (Ev.t = Ev.p /\ (Ev.r = <<>> \/ Ev.r = Ev.t) /\ (Ev.coords = 0 \/ Ev.coords = Ev.t[1])) /\ (Ev.ok => Ev.out = ResidOf)
          [] Ev.k = "parity" -> /\ (Ev.t = Ev.p /\ (Ev.r = <<>> \/ Ev.r = Ev.t) => Ev.ok)
                                /\ (Ev.ok => Times(Ev.t) = Times(Ev.p) /\ (Ev.r = <<>> \/ Times(Ev.r) = Times(Ev.t)) /\ Ev.out = ResidOf)
          [] Ev.k \in {"optimization", "reward"} -> Ev.ok = (Ev.m = Ev.n /\ \A v \in {Ev.a, Ev.b, IF Ev.k = "reward" THEN 0 - 1 ELSE Ev.d} : v = 0 - 1 \/ v = Ev.n)
          [] Ev.k = "terms" -> Ev.ok = (Ev.ls # <<>> /\ \A i \in 1..Len(Ev.ls) : Ev.ls[i] = Ev.n)
SliceOK == LET n == Len(Ev.sizes) sh == Ev.sizes \o <<Ev.nt>> k == Cut(Ev.sizes, Ev.ax, Ev.ix) ks == [i \in 1..Len(k.keep) |-> Ev.sizes[k.keep[i]]] \o <<Ev.nt>>
               Look(f) == [j \in 1..Times(ks) |-> LET p == Point(ks, j) IN f[Place(sh, [a \in 1..(n + 1) |-> IF a = n + 1 THEN p[Len(ks)] ELSE IF k.fix[a] >= 0 THEN k.fix[a] ELSE p[CHOOSE i \in 1..Len(k.keep) : k.keep[i] = a]])]]
           IN /\ Ev.ok
              /\ Ev.axes = [i \in 1..Len(k.keep) |-> Ev.sp[k.keep[i]]] /\ Ev.tc = Ev.tc0
              /\ Ev.out = Look(Ev.tv) /\ Ev.pout = Look(Ev.pv) /\ Ev.rout = Look(Ev.rv)

OK == CASE Ev.ev = "world" -> TRUE
        [] Ev.ev = "figure" -> FigureOK
        [] Ev.ev = "rewards" -> RewardsOK
        [] Ev.ev = "history" -> HistoryOK
        [] Ev.ev = "density" -> DensityOK
        [] Ev.ev = "terms" -> TermsOK
        [] Ev.ev = "dlga parity" -> DlgaParityOK
        [] Ev.ev = "pair" -> PairOK
        [] Ev.ev = "sampled" -> SampledOK
        [] Ev.ev = "fits" -> Fits
        [] Ev.ev = "slice" -> SliceOK
        [] OTHER -> FALSE
Nq == IF Ev.ev = "world" THEN TLCEval(Quantities(Ev)) ELSE q
Nw == IF Ev.ev = "world" THEN Ev ELSE W
Steps == More /\ \E ok \in {OK} : IF ok THEN Advance /\ W' = Nw /\ q' = Nq
                                  ELSE Rejected(<<Ev.ev>>) /\ SkipTrace /\ W' = NoW /\ q' = [none |-> <<>>]
TraceInit == l = 1 /\ W = NoW /\ q = [none |-> <<>>]
TraceSpec == TraceInit /\ [][Steps]_<<l, vs>>
=============================================================================

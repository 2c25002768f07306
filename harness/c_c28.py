"""C28: figures show the reported equation's own values, where and when they say."""
import json, logging, multiprocessing as mp, os, tempfile, traceback
import numpy as np
import h_viz as V
import h_figure as F
import c_c11 as A
from h_discover import quiet
from h_figure import Shots, figure, arr, coords, L, I, NONE, ODD

LEVEL = "model_checking"
MC = """CONSTANTS Emit = %s
SPECIFICATION Spec
INVARIANT Kept
INVARIANT Asked
INVARIANT Same
INVARIANT Back
INVARIANT Leibniz
CHECK_DEADLOCK FALSE
"""


def ask(m, kind, **o):
    """one figure through the facade: (what was drawn, did it report a picture, the result)"""
    from kd.viz.core import VizRequest, render
    o.setdefault("output_dir", os.getcwd())
    with quiet(), np.errstate(all="ignore"), Shots() as s:
        try:
            r = render(VizRequest(kind, m, o))
        except ValueError as ex:
            return [], False, None
    return s.figs, bool(r.paths), r


def direct(f, *a, **k):
    """one figure through a drawing function of its own"""
    with quiet(), np.errstate(all="ignore"), Shots() as s:
        f(*a, **k)
    return s.figs


def shape(sp, tc):
    return [len(c) for c in sp] + [len(tc)]


def world(sp, tc, flats, ord_=None, u=(), terms=(), w=()):
    d = len(sp)
    return dict(ev="world", sp=[L(c) for c in sp], tc=L(tc), ord=[int(k) for k in (ord_ or range(1, d + 2))], flats={k: L(v) for k, v in flats.items()}, u=list(u), terms=list(terms), w=[I(v) for v in w])


# -------------------------------------------------------------- Discover
class Data:
    def __init__(self, **k):
        self.k = k

    def get_data(self):
        return self.k


def poly(rng, d, deg):
    """a field: degree at most deg along every axis, times included"""
    out = []
    for _ in range(int(rng.integers(2, 5))):
        e = [0] * (d + 1)
        for _ in range(deg):
            k = int(rng.integers(d + 2))
            if k <= d:
                e[k] += 1
        out.append(dict(c=int(rng.choice([-3, -2, -1, 1, 2, 3])), e=e))
    return out


def peval(u, g):
    return sum(m["c"] * np.prod([g[a] ** m["e"][a] for a in range(len(g))], axis=0) for m in u) + 0.0 * g[0]


ONE = {1: ["u1", "diff u1 x1", "diff2 u1 x1", "mul u1 diff u1 x1", "n2 u1", "mul u1 u1", "mul x1 diff u1 x1", "mul u1 diff2 u1 x1", "n3 u1", "diff mul x1 u1 x1", "diff n2 u1 x1", "mul n2 u1 diff u1 x1"],
       2: ["u1", "Diff u1 x1", "Diff u1 x2", "Diff2 u1 x1", "Diff2 u1 x2", "mul u1 Diff u1 x2", "lap u1", "mul u1 lap u1", "n2 u1", "mul u1 Diff u1 x1", "Diff n2 u1 x2", "mul x2 Diff u1 x1"],
       3: ["u1", "Diff u1 x1", "Diff u1 x2", "Diff u1 x3", "Diff2 u1 x3", "mul u1 Diff u1 x3", "lap u1", "mul u1 u1", "mul x3 Diff u1 x2"]}
ROUND = {"diff mul x1 u1 x1", "diff n2 u1 x1", "Diff n2 u1 x2"}     # these raise the degree before they differentiate


def names(lib, d, t):
    """the tokens of a term under the names the model's own library has for them"""
    q = []
    for k in t.split():
        for c in ((k + "_3", k) if d == 3 else (k,)):
            if c in lib:
                q.append(c)
                break
        else:
            return None
    return q


def prefix(node):
    return [node.val] + [t for c in node.children for t in prefix(c)]


def discover_trace(d, n, seed):
    from h_discover import burgers_like, nd_like
    from kd.model.discover.program import Program
    from kd.viz import discover_viz as DV
    rng = np.random.default_rng(seed)
    kw = {} if d == 1 else dict(binary_operators=["add", "sub", "mul", "div"] + (["Diff", "Diff2"] if d == 2 else ["Diff_3", "Diff2_3"]), unary_operators=["n2", "n3", "lap" if d == 2 else "lap_3"])
    m = V.discover(burgers_like(nx=16, nt=12) if d == 1 else nd_like(d, n=7, nt=8), seed=3, **kw)
    lib = [t.name for t in Program.library.tokens]
    can = [(t, names(lib, d, t)) for t in ONE[d]]
    can = [(t, q) for t, q in can if q]
    ev = []
    for _ in range(n):
        nt = int(rng.integers(2, 6))
        sp = [coords(rng, int(rng.integers(4, 6) if d == 1 else rng.integers(3, 5) if d == 2 else 3), -3, 4) for _ in range(d)]
        tc = coords(rng, nt, -3, 4)
        k = int(rng.integers(1, 4))
        pick = [can[int(i)] for i in rng.choice(len(can), k, replace=False)]
        u = poly(rng, d, 1 if any(t in ROUND for t, _ in pick) or rng.random() < 0.3 else 2)
        toks = []
        for i, (_, q) in enumerate(pick):
            toks = (["sub" if "sub" in lib and rng.random() < 0.2 else "add"] + toks + q) if toks else list(q)
        p = V.program(toks)
        terms = [prefix(t) for t in p.STRidge.terms]
        w = rng.integers(-4, 5, size=len(terms) + int(rng.random() < 0.3)).astype(float)
        p.w = w
        g = np.meshgrid(*sp, tc, indexing="ij")
        uu = peval(u, g)
        ut = uu.copy() * 0 + rng.integers(-9, 10, size=uu.shape)
        if d == 1:
            m.data_class = Data(X=[sp[0].reshape(-1, 1)], u=uu, ut=ut, n_input_dim=1)
        else:
            m.data_class = Data(X=[c.copy() for c in sp], u=np.moveaxis(uu, -1, 0).copy(), ut=np.moveaxis(ut, -1, 0).copy(), n_input_dim=d)
        m.searcher.best_p = p if rng.random() < 0.7 else [p, V.program([lib[0] if lib[0] == "u1" else "u1"])]
        if hasattr(m, "best_p"):
            m.best_p = m.searcher.best_p
        ev.append(world(sp, tc, dict(true=ut), u=u, terms=[[x[:-2] if x.endswith("_3") else x for x in t] for t in terms], w=w))
        N = uu.size
        o = dict(slice_axis=int(rng.integers(-4, 4)), slice_index=int(rng.integers(-1, 4))) if d > 2 and rng.random() < 0.7 else {}
        s, ok, r = ask(m, "field_comparison", **o)
        ev.append(figure(s, "field", N, ok, ax=o.get("slice_axis", -1), ix=o.get("slice_index", NONE)))
        s, ok, r = ask(m, "residual", bins=int(rng.integers(3, 40)))
        ev.append(figure(s, "residual", N, ok, **(dict(meta=F.data(r.metadata["residual"]), sum=F.summary(r.metadata["summary"], N)) if r is not None and r.metadata and ok else {})))
        s, ok, r = ask(m, "parity")
        ev.append(figure(s, "parity", N, ok, **(dict(meta=F.data(r.metadata["parity"])) if ok else {})))
        if d == 1:
            out = os.getcwd()
            ev.append(figure(direct(DV.plot_pde_residual_analysis, m, p, output_dir=out), "residual", N))
            ev.append(figure(direct(DV.plot_field_comparison, m, p, output_dir=out), "field", N))
        ev.append(figure(direct(DV.plot_actual_vs_predicted, m, p, output_dir=os.getcwd()), "parity", N))
    # histories of rewards
    for _ in range(3 * n):
        k = int(rng.integers(1, 26 if rng.random() < 0.3 else 7))
        hist = []
        for i in range(k):
            b = rng.integers(-20, 21, size=int(rng.integers(2, 6)))
            b[-1] -= b.sum() % len(b)
            if len(set(b)) == 1:
                b[0] += len(b)
            hist.append(b.astype(float))
        m.searcher.r_train = [np.array(b) if rng.random() < 0.5 else list(b) for b in hist]
        m.searcher.r_history = [np.array(b) for b in hist]
        H = [L(b) for b in hist]
        s, ok, r = ask(m, "search_evolution")
        ev.append(dict(ev="rewards", hist=H, lines=reward_lines(s)))
        ev.append(dict(ev="rewards", hist=H, lines=reward_lines(direct(DV.plot_evolution, m, output_dir=os.getcwd()))))
        given = rng.random() < 0.5
        asked = [int(x) for x in rng.permutation(k + 2)[:int(rng.integers(1, 4))]]
        mx = int(rng.integers(2, 12))
        s, ok, r = ask(m, "density", **(dict(epoches=asked) if given else dict(max_curves=mx)))
        ev.append(dict(ev="density", hist=H, asked=asked, given=given, max=mx, drawn=ok, curves=density(s)))
        asked = [a for a in asked if a < k][:4]
        if not given or asked:
            m.searcher.r_history = [np.array(b) / 1000 + 0.5 for b in hist]      # this one clips rewards to 0 .. 1
            s = direct(DV.plot_density, m, epoches=asked if given else None, output_dir=os.getcwd())
            ev.append(dict(ev="density", hist=H, asked=asked, given=given, max=10 ** 6, drawn=bool(s), curves=density(s, lambda c: (c - 0.5) * 1000)))
    return ev


def reward_lines(s):
    k = lambda t: "best" if "Best" in t else "max" if "Max" in t else "mean" if "Average" in t or "Mean" in t else "?"
    return [dict(k=k(lab), xs=L(xs), ys=L(ys)) for p in (s[-1] if s else []) for lab, xs, ys in p["lines"]]


def density(s, back=lambda c: c):
    import re
    out = []
    for p in (s[-1] if s else []):
        for lab, xs, ys in p["lines"] + p["areas"]:
            n = re.search(r"(\d+)", lab)
            c = back(float((xs * ys).sum() / ys.sum()))
            out.append(dict(ep=int(n.group(1)) if n else ODD, centre=I(round(c, 1)) if abs(c - round(c)) < 0.1 else ODD))
    return out


# ------------------------------------------------------------------- SGA
class Ctx:
    pass


def sga_trace(n, seed):
    from types import SimpleNamespace as NS
    rng = np.random.default_rng(seed)
    m = V.sga(A.Bundle("legacy", seed))
    ev = []
    for _ in range(n):
        d = int(rng.choice([1, 1, 2, 2, 3, 4]))
        nt = int(rng.integers(1, 6)) if rng.random() < 0.5 else 5
        sp = [coords(rng, int(rng.integers(2, 5 if d < 3 else 4))) for _ in range(d)]
        tc = coords(rng, nt)
        sh = shape(sp, tc)
        c = Ctx()
        legacy = d == 1 and rng.random() < 0.4
        order = [int(k) for k in ([1, 2] if legacy else rng.permutation(d + 1) + 1)]
        mine = [sh[k - 1] for k in order]
        names = ["x", "y", "z", "w"][:d] + ["t"]
        # the axes other than time keep the order the data has them in
        spatial = [k for k in order if k <= d]
        ren = {k: i + 1 for i, k in enumerate(spatial)}
        sp2 = [sp[k - 1] for k in spatial]
        ord2 = [ren.get(k, d + 1) for k in order]
        if legacy:
            if rng.random() < 0.5:
                c.x, c.t = sp[0].copy(), tc.copy()
            else:
                g = np.meshgrid(sp[0], tc, indexing="ij")
                c.x, c.t = g
        else:
            c.axis_order = [names[k - 1] for k in order]
            c.coords_1d = {names[k - 1]: (sp[k - 1] if k <= d else tc) for k in order}
            c.lhs_axis = "t"
        for k in ("u", "u_origin", "ut", "ut_origin", "right_side_full", "right_side_full_origin"):
            setattr(c, k, arr(rng, *mine))
        m.context_ = c
        m.best_equation_details_ = NS(lhs="u_t", terms=(), predicted_rhs=arr(rng, *mine) if rng.random() < 0.5 else arr(rng, int(np.prod(mine)), 1))
        N = int(np.prod(mine))
        o = dict(slice_axis=int(rng.integers(-5, 5)), slice_index=int(rng.integers(-1, 4))) if d > 2 and rng.random() < 0.7 else {}
        cut = dict(ax=o.get("slice_axis", -1), ix=o.get("slice_index", NONE))
        ev.append(world(sp2, tc, dict(true=c.u_origin, pred=c.u), ord2))
        s, ok, r = ask(m, "field_comparison", **o)
        ev.append(figure(s, "field", N, ok, **cut))
        t = dict(given=rng.random() < 0.6, n=int(rng.choice([1, 2, 3])), times=[])
        lo, hi = int(min(tc)), int(max(tc))
        if (hi - lo) % 2:
            t["n"] = min(2, t["n"])
        if t["given"]:
            t["times"] = [int(x) for x in rng.integers(lo - 3, hi + 4, size=int(rng.integers(0, 4)))]
        s, ok, r = ask(m, "time_slices", **o, **(dict(slice_times=t["times"]) if t["given"] else dict(slice_count=t["n"])))
        ev.append(figure(s, "slices", N, ok, clip=True, **t, **cut))
        ev.append(world(sp2, tc, dict(true=c.ut, pred=c.right_side_full, true0=c.ut_origin, pred0=c.right_side_full_origin), ord2))
        s, ok, r = ask(m, "residual", bins=int(rng.integers(2, 40)))
        ev.append(figure(s, "sga residual", N, ok, meta=F.data(r.metadata["residual_data"]) if ok else dict(has=False, a=[], p=[], r=[]), sum=F.summary(r.metadata["summary"]["metadata"], N) if ok else dict(has=True, max=0, total=ODD, role="resid")))
        for how in ("metadata", "original"):
            ev.append(world(sp2, tc, dict(true=c.ut if how == "metadata" else c.ut_origin, pred=m.best_equation_details_.predicted_rhs), ord2))
            s, ok, r = ask(m, "parity", **(dict(compare=how) if how == "original" or rng.random() < 0.5 else {}))
            ev.append(figure(s, "parity", N, ok, meta=F.data(r.metadata["parity"]) if ok else dict(has=False, a=[], p=[], r=[]), sum=F.summary(r.metadata["summary"], N) if ok else dict(has=True, max=0, total=ODD, role="resid")))
    return ev


# ------------------------------------------------------------------ DLGA
def dlga_trace(n, seed):
    from kd.viz import dlga_viz as DV
    import torch
    rng = np.random.default_rng(seed)
    m = V.dlga(A.Bundle("legacy", seed))
    out = os.getcwd()
    ev = []
    for _ in range(n):
        # fields the caller supplies
        nx, nt = int(rng.integers(2, 6)), int(rng.integers(1, 6))
        x, tc = coords(rng, nx), coords(rng, nt)
        u, v = arr(rng, nx, nt), arr(rng, nx, nt)
        f = dict(x_coords=x, t_coords=tc, true_field=u, predicted_field=v)
        ev.append(world([x], tc, dict(true=u, pred=v)))
        s, ok, r = ask(m, "field_comparison", **(f if rng.random() < 0.7 else dict(x_coords=x, t_coords=tc, u_true=u, u_pred=v)))
        ev.append(figure(s, "field", u.size, ok))
        ev.append(figure(direct(DV.plot_pde_comparison, x, tc, u, v, output_dir=out), "field", u.size))
        lo, hi = int(min(tc)), int(max(tc))
        t = dict(given=rng.random() < 0.6, n=int(rng.choice([1, 2, 3])), times=[])
        t["n"] = max(1, min(t["n"], nt))
        if (hi - lo) % 2:
            t["n"] = min(2, t["n"])
        if t["given"]:
            t["times"] = [int(q) for q in rng.integers(lo, hi + 1, size=int(rng.integers(1, 4)))]
            if rng.random() < 0.2:
                t["times"].append(hi + 2)
        s, ok, r = ask(m, "time_slices", **f, **(dict(slice_times=np.array(t["times"], dtype=float) if rng.random() < 0.5 else [float(q) for q in t["times"]]) if t["given"] else dict(num_slices=t["n"])))
        ev.append(figure(s, "slices", u.size, ok, **t))
        k = [int(q) for q in rng.integers(0, 5, size=int(rng.integers(1, 4)))]
        ev.append(figure(direct(DV.plot_time_slices, x, tc, u, v, [q / 4 for q in k], output_dir=out), "slices", u.size, given=True, rel=True, times=k))
        a, p = arr(rng, int(rng.integers(2, 20))), None
        p = a + arr(rng, a.size)
        ev.append(world([np.arange(a.size)], [0], dict(true=a, pred=p)))
        s, ok, r = ask(m, "residual", bins=int(rng.integers(2, 40)), **(dict(actual=a, predicted=p) if rng.random() < 0.5 else dict(actual_values=a, predicted_values=p)), **(dict(coordinates=arr(rng, a.size, 2)) if rng.random() < 0.3 else {}))
        ev.append(figure(s, "pairs", a.size, ok, meta=F.data(r.metadata["residual"]) if ok else dict(has=False, a=[], p=[], r=[]), sum=F.summary(r.metadata["summary"], a.size) if ok else dict(has=True, max=0, total=ODD, role="resid")))
        # histories
        h = [dict(fitness=float(q), complexity=int(c), population_size=int(z), unique_modules=int(y)) for q, c, z, y in rng.integers(1, 60, size=(int(rng.integers(2, 8)), 4))]
        m.evolution_history = h
        H = {q: L([e[q] for e in h]) for q in h[0]}
        two = lambda s: [dict(k="complexity" if "complexity" in (p["yl"] + p["title"]).lower() else "fitness" if "fitness" in (p["yl"] + p["title"]).lower() or "objective" in (p["yl"] + p["title"]).lower() else "population_size" if "Population Size" in p["yl"] else "unique_modules" if "Unique" in p["yl"] else "?",
                              xs=L(xs), ys=L(ys)) for p in (s[-1] if s else []) for lab, xs, ys in p["lines"] if len(xs) == len(h)]
        s, ok, r = ask(m, "search_evolution")
        ev.append(dict(ev="history", names=["fitness", "complexity"], want=H, lines=two(s)))
        ev.append(dict(ev="history", names=["fitness", "complexity"], want=H, lines=two(direct(DV.plot_evolution, m, output_dir=out))))
        s, ok, r = ask(m, "optimization")
        ev.append(dict(ev="history", names=["fitness", "population_size", "unique_modules"], want=H, lines=two(s)))
        ev.append(dict(ev="history", names=["fitness", "population_size", "unique_modules"], want=H, lines=two(direct(DV.plot_optimization_analysis, m, output_dir=out))))
        for kind, at, fn in (("training_curve", "train_loss_history", DV.plot_training_loss), ("validation_curve", "val_loss_history", DV.plot_validation_loss)):
            loss = [float(q) for q in rng.integers(0, 90, size=int(rng.integers(1, 9)))]
            setattr(m, at, loss)
            for s in (ask(m, kind)[0], direct(fn, m, output_dir=out)):
                ev.append(dict(ev="history", names=["training" if at[0] == "t" else "validation"], want={"training": L(m.train_loss_history or []), "validation": L(m.val_loss_history or [])},
                               lines=[dict(k=p["yl"].split()[0].lower() if p["yl"] else "?", xs=L(xs), ys=L(ys)) for p in (s[-1] if s else []) for _, xs, ys in p["lines"]]))
        # the reported equation
        ops = ["u", "u_x", "u_xx", "u_xxx", "x"][:int(rng.integers(3, 6))]
        lhs = str(rng.choice(["u_t", "u_tt"]))
        size = (int(rng.integers(2, 8)), 1)
        meta = {k: arr(rng, *size, lo=-4, hi=5) for k in ops + ["u_t", "u_tt"]}
        if rng.random() < 0.15:
            meta.pop(str(rng.choice(ops[1:])))
        if rng.random() < 0.1:
            meta.pop(lhs)
        chrom = [[int(g) for g in rng.integers(0, len(ops) + (1 if rng.random() < 0.05 else 0), size=int(rng.integers(1, 4)))] for _ in range(int(rng.integers(1, 6)))]
        coef = rng.permutation(np.concatenate([np.arange(1, 8), -np.arange(8, 12)]))[:len(chrom)].astype(float)
        if rng.random() < 0.3:
            coef[-1] = 0.0
        m.Chrom, m.coef, m.name, m.user_operators, m.metadata = [chrom, [[0]]], [coef.reshape(-1, 1), np.array([[1.0]])], [lhs, "u_t"], ops, meta
        eq = dict(ops=ops, lhs=lhs, chrom=chrom, coef=L(coef), data={k: L(q) for k, q in meta.items()})
        top = int(rng.integers(1, 6))
        s, ok, r = ask(m, "derivative_relationships", **(dict(top_n_terms=top) if top != 4 or rng.random() < 0.5 else {}))
        ev.append(dict(ev="terms", top=top, panels=terms(s), **eq))
        whole = all(g < len(ops) and ops[g] in meta for mod in chrom for g in mod) and lhs in meta
        if whole:
            ev.append(dict(ev="terms", top=top, panels=terms(direct(DV.plot_derivative_relationships, m, top_n_terms=top, output_dir=out)), **eq))
        s, ok, r = ask(m, "parity")
        ev.append(dict(ev="dlga parity", **cloud(s), **eq))
        if whole:
            ev.append(dict(ev="dlga parity", **cloud(direct(DV.plot_pde_parity, m, output_dir=out)), **eq))
            xn, yn = [[str(q) for q in rng.choice(list(meta), int(rng.integers(1, 3)))] for _ in range(2)]
            cn = str(rng.choice(list(meta)))
            s = direct(DV.plot_equation_terms, m, {"x_term": {"vars": xn, "label": "a"}, "y_term": {"vars": yn, "label": "b"}}, color_var=cn, output_dir=out)
            q = s[-1] if s else []
            ev.append(dict(ev="pair", xn=xn, yn=yn, cn=cn, pts=[[I(a), I(b), I(c)] for p in q for z, cc in p["pts"] for (a, b), c in zip(z, cc)], bars=[b for p in q if p["bars"] for b in F.bars(p, size[0])], **eq))
        # what the network says of the training points
        Xt = arr(rng, 6, 2)
        Xt[:, 0] = rng.permutation(np.arange(6))
        y = arr(rng, 6)

        class Net:
            def __call__(self, z):
                return (2 * z[:, :1] - z[:, 1:]).to(torch.float32)
        old, m.Net = m.Net, Net()
        try:
            s = direct(DV.plot_residual_analysis, m, Xt, y.reshape(-1, 1) if rng.random() < 0.5 else y, u, v, output_dir=out)
        finally:
            m.Net = old
        q = s[-1] if s else []
        ev.append(dict(ev="pair", xn=["t"], yn=["x"], cn="left", ops=[], chrom=[], coef=[], lhs="x", data=dict(t=L(Xt[:, 1]), x=L(Xt[:, 0]), left=L(y - (2 * Xt[:, 0] - Xt[:, 1]))),
                       pts=[[I(a), I(b), I(c)] for p in q for z, cc in p["pts"] for (a, b), c in zip(z, cc)], bars=[dict(lo=-500, hi=500, al=-500, ah=500, n=6)]))
        ev.append(world([x], tc, dict(true=u, pred=v)))
        ev.append(figure([[p for p in q if p["bars"]]], "hist", u.size))
    return ev


def terms(s):
    import re
    out = []
    for p in (s[-1] if s else []):
        if not p["pts"]:
            continue
        t = re.sub(r"^[^:]*:\s*", "", p["xl"]).replace("$", "").replace(r"\cdot", "*")
        out.append(dict(coef=I(re.search(r"(-?[\d.]+)\s*$", p["title"]).group(1)), names=[q.strip() for q in t.split("*")], lhs=p["yl"], pts=[[I(a), I(b)] for z, _ in p["pts"] for a, b in z]))
    return out


def cloud(s):
    p = [q for q in (s[-1] if s else []) if q["pts"]]
    return dict(pts=[[I(a), I(b)] for z, _ in p[0]["pts"] for a, b in z] if p else [], xr=F.role(p[0]["xl"]) if p else "", yr=F.role(p[0]["yl"]) if p else "")


# ------------------------------------------------------------------ PySR
def pysr_trace(n, seed):
    rng = np.random.default_rng(seed)
    ev = []
    for _ in range(n):
        k = int(rng.integers(2, 20))
        X, y = arr(rng, k, 2), arr(rng, k)
        m = V.pysr(X.copy(), y.copy())
        w = arr(rng, 2)
        m.predict = lambda Z, w=w: np.asarray(Z) @ w
        given = rng.random() < 0.5
        X2, y2 = (arr(rng, k + 1, 2), arr(rng, k + 1)) if given else (X, y)
        o = dict(X=X2, y=y2) if given else {}
        ev.append(world([np.arange(len(y2))], [0], dict(true=y2, pred=X2 @ w)))
        s, ok, r = ask(m, "parity", **o)
        ev.append(figure(s, "parity", len(y2), ok))
        s, ok, r = ask(m, "residual", bins=int(rng.integers(2, 40)), **o)
        ev.append(figure(s, "hist", len(y2), ok))
    return ev


# ------------------------------------------------------------------- SPR
def spr_trace(d, n, seed):
    import torch
    from kd.model.discover.program import Program
    from kd.viz import discover_viz as DV
    rng = np.random.default_rng(seed)
    b = A.Bundle("legacy" if d == 1 else "txy", seed)
    m = V.spr(b.ds)
    p = m.searcher.best_p
    task = Program.task
    ev, out = [], os.getcwd()
    for _ in range(n):
        pl = {r: dict(c=int(rng.integers(-5, 6)), x=int(rng.integers(-5, 6)), y=int(rng.integers(-5, 6)), b=int(rng.integers(-5, 6))) for r in ("true", "pred")}
        if d == 1:
            # corners of a square of whole numbers, and places inside it
            a, e = [int(q) for q in rng.integers(-20, 20, size=2)]
            xy = np.array([[a, e], [a + 99, e], [a, e + 99], [a + 99, e + 99]] + [[a + int(q), e + int(z)] for q, z in rng.integers(1, 99, size=(12, 2))], dtype=float)
            xy = rng.permutation(xy)
            X, T, bins = [xy[:, 0]], xy[:, 1], []
            val = lambda r: pl[r]["c"] + pl[r]["x"] * xy[:, 0] + pl[r]["y"] * xy[:, 1]
        else:
            a, e = [int(q) for q in rng.integers(-20, 20, size=2)]
            rows = []
            for k in range(5):
                rows += [[a + q, e + z, 10 * k + (5 if k < 4 else 10) - (5 if k == 0 else 0), k + 1] for q, z in [(0, 0), (49, 0), (0, 49), (49, 49)] + [(int(i), int(j)) for i, j in rng.integers(1, 49, size=(4, 2))]]
            xy = rng.permutation(np.array(rows, dtype=float))
            X, T, bins = [xy[:, 0], xy[:, 1]], xy[:, 2], [[10 * k, 10 * k + 10] for k in range(5)]
            val = lambda r: pl[r]["c"] + pl[r]["x"] * xy[:, 0] + pl[r]["y"] * xy[:, 1] + pl[r]["b"] * xy[:, 3]
        yt, yp = val("true"), val("pred")
        task.x, task.t, task.ut = [torch.tensor(c.reshape(-1, 1)) for c in X], torch.tensor(T.reshape(-1, 1)), yt.reshape(-1, 1)
        p.y_hat_rhs = yp.reshape(-1, 1)
        ev.append(world([np.arange(len(yt))], [0], dict(true=yt, pred=yp)))
        s, ok, r = ask(m, "spr_residual", bins=int(rng.integers(2, 40)))
        ev.append(figure(s, "pairs", len(yt), ok, meta=F.data(r.metadata["residual"]) if ok else dict(has=False, a=[], p=[], r=[])))
        ev.append(figure(direct(DV.plot_spr_actual_vs_predicted, m, p, output_dir=out), "parity", len(yt)))
        figs = [ask(m, "spr_field_comparison")[0]]
        if d == 1:
            figs.append(direct(DV.plot_spr_field_comparison, m, p, output_dir=out))
            q = direct(DV.plot_spr_residual_analysis, m, p, output_dir=out)
            q = q[-1] if q else []
            ev.append(dict(ev="pair", xn=["t"], yn=["x"], cn="left", ops=[], chrom=[], coef=[], lhs="x", data=dict(t=L(T), x=L(X[0]), left=L(yt - yp)),
                           pts=[[I(i), I(j), I(c)] for z in q for w, cc in z["pts"] for (i, j), c in zip(w, cc)], bars=[b for z in q if z["bars"] for b in F.bars(z, len(yt))]))
        for s in figs:
            maps = []
            for z in (s[-1] if s else []):
                at, _ = F.when(z["title"])
                (xa, _), (ya, _) = F.axis(z["xl"]), F.axis(z["yl"])
                for xs, ys, v in z["maps"]:
                    # the places whose coordinates are whole numbers, thinned out; the very border is left to the triangulation
                    cx = [i for i in range(2, len(xs) - 2, 7) if I(xs[i]) != ODD] or [i for i in range(len(xs))][:0]
                    cy = [i for i in range(2, len(ys) - 2, 7) if I(ys[i]) != ODD]
                    if s is figs[0]:
                        maps.append(dict(role=F.role(z["title"]), xa=xa, ya=ya, at=at, xs=[I(xs[i]) for i in cx], ys=[I(ys[i]) for i in cy], v=[[I(round(float(v[j, i]), 4)) for i in cx] for j in cy]))
                    else:           # drawn as a picture: pixels fill the range between the first and last place
                        X0, Y0, nx, ny = xs[0] - (xs[1] - xs[0]) / 2, ys[0] - (ys[1] - ys[0]) / 2, len(xs), len(ys)
                        px = lambda o, c, k, i: o + i * (c[-1] + (c[1] - c[0]) / 2 - o) / (k - 1)
                        ii = list(range(2, nx - 2, 7))
                        maps.append(dict(role=F.role(z["title"]), xa=xa, ya=ya, at=at, xs=[I(px(X0, xs, nx, i)) for i in ii], ys=[I(px(Y0, ys, ny, j)) for j in ii], v=[[I(round(float(v[j, i]), 4)) for i in ii] for j in ii]))
            ev.append(dict(ev="sampled", drawn=bool(s), plane=pl, bins=bins, maps=maps))
    return ev


# ------------------------------------------------------------- contracts
def fill(rng, sh):
    return rng.integers(-9, 10, size=sh).astype(float)


def contract(c, rng):
    from kd.viz import _contracts as K
    c = dict(c)
    if c["k"] == "slice":
        sp = [[10 * (i + 1) + j for j in range(n)] for i, n in enumerate(c["sizes"])]
        tc = [3 * j for j in range(c["nt"])]
        sh = tuple(c["sizes"]) + (c["nt"],)
        a, p, r = fill(rng, sh), fill(rng, sh), fill(rng, sh)
        d = K.FieldComparisonData(spatial_coords=[np.array(q, dtype=float) for q in sp], t_coords=np.array(tc, dtype=float), true_field=a, predicted_field=p, residual_field=r)
        keep = a.copy(), p.copy(), r.copy()
        try:
            o = K.slice_3d_to_2d(d, slice_axis=c["ax"], slice_index=None if c["ix"] == NONE else c["ix"])
            ok = all(np.array_equal(x, y) for x, y in zip(keep, (a, p, r)))
            got = dict(axes=[L(q) for q in o.spatial_coords], tc=L(o.t_coords), out=L(o.true_field), pout=L(o.predicted_field), rout=L(o.residual_field))
        except Exception as ex:
            ok, got = False, dict(axes=[], tc=[], out=[], pout=[], rout=[], err=str(ex)[:100])
        return dict(ev="slice", ok=ok, sp=sp, tc0=tc, tv=L(a), pv=L(p), rv=L(r), **got, **{k: c[k] for k in ("sizes", "nt", "ax", "ix")})
    e = dict(ev="fits", ok=True, out=[], tv=[], pv=[], rv=[], sizes=[], nt=0, t=[], p=[], r=[], times=[], coords=0, n=0, m=0, a=0, b=0, d=0, ls=[])
    e.update(c)
    if c["k"] in ("field", "times", "parity", "residual"):
        tv, pv = fill(rng, c["t"]), fill(rng, c["p"])
        rv = fill(rng, c["r"]) if c.get("r") else None
        e.update(tv=L(tv), pv=L(pv), rv=[] if rv is None else L(rv))
    try:
        if c["k"] in ("field", "times"):
            sp = [np.arange(n, dtype=float) for n in c["sizes"]]
            kw = dict(x_coords=sp[0]) if len(sp) == 1 and rng.random() < 0.5 else dict(spatial_coords=sp if len(sp) > 1 or rng.random() < 0.5 else sp[0])
            if c["k"] == "field":
                e["out"] = L(K.FieldComparisonData(**kw, t_coords=np.arange(c["nt"]) * 2.0, true_field=tv, predicted_field=pv, residual_field=rv).residual_field)
            else:
                K.TimeSliceComparisonData(**kw, t_coords=np.arange(c["nt"]) * 2.0, true_field=tv, predicted_field=pv, slice_times=np.array(c["times"], dtype=float))
        elif c["k"] == "residual":
            co = np.zeros((c["coords"], 2)) if c["coords"] else None
            e["out"] = L((K.ResidualPlotData.from_actual_predicted(tv, pv, input_coordinates=co) if rv is None else K.ResidualPlotData(actual=tv, predicted=pv, residuals=rv, input_coordinates=co)).residuals)
        elif c["k"] == "parity":
            e["out"] = L((K.ParityPlotData.from_actual_predicted(tv, pv) if rv is None else K.ParityPlotData(actual_values=tv, predicted_values=pv, residuals=rv)).residuals)
        elif c["k"] == "optimization":
            o = lambda k: None if c[k] < 0 else np.arange(c[k])
            K.OptimizationHistoryData(steps=np.arange(c["n"]), objective=np.arange(c["m"]), complexity=o("a"), population_size=o("b"), unique_modules=o("d"))
        elif c["k"] == "reward":
            o = lambda k: None if c[k] < 0 else np.arange(c[k])
            K.RewardEvolutionData(steps=np.arange(c["n"]), best_reward=np.arange(c["m"]), max_reward=o("a"), mean_reward=o("b"))
        elif c["k"] == "terms":
            K.TermRelationshipData(lhs_values=np.arange(c["n"]), lhs_label="u_t", terms=[K.TermContribution("a", np.arange(n), 1.0) for n in c["ls"]])
    except ValueError:
        e["ok"] = False
    return e


JOBS = {"discover": lambda a, n, s: discover_trace(a, n, s), "sga": lambda a, n, s: sga_trace(n, s), "dlga": lambda a, n, s: dlga_trace(n, s), "pysr": lambda a, n, s: pysr_trace(n, s), "spr": lambda a, n, s: spr_trace(a, n, s)}


def work(job):
    kind, a, n, seed = job
    logging.disable(logging.CRITICAL)
    import kd.viz  # noqa: F401
    os.chdir(tempfile.mkdtemp(dir=os.getcwd()))
    try:
        return JOBS[kind](a, n, seed), None
    except BaseException:
        return [], "".join(traceback.format_exc())


def split(ev, size):
    """traces that begin with a world"""
    out, cur = [], []
    for e in ev:
        if cur and e["ev"] == "world" and len(cur) >= size:
            out.append(cur)
            cur = []
        cur.append(e)
    return out + ([cur] if cur else [])


def run(cx):
    th = cx.thorough
    cx.model_check("FigureMC", MC % "FALSE")
    cases = cx.generate("FigureMC", "CONSTANTS Emit = TRUE\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n")
    rng = np.random.default_rng(cx.seed)
    with quiet():
        import kd.viz  # noqa: F401
    ev = [contract(c, rng) for c in cases]
    traces = [dict(name="contract %d" % i, events=[e]) for i, e in enumerate(ev)]
    cx.validate("FigureTrace", traces, key=lambda t, j: "contract " + t["events"][j].get("k", "slice"), what="data taken together")
    jobs, k = [], 6 if th else 1
    for r in range(k):
        s = cx.seed * 1000 + 37 * r
        jobs += [("dlga", 0, 7, s + 105 + i) for i in range(5)] + [("discover", d, n, s + d + 10 * i) for d, n in ((1, 8), (2, 6), (3, 4)) for i in range(2)] + [("sga", 0, 14, s + 40 + i) for i in range(2)] + [("pysr", 0, 25, s + 6), ("spr", 1, 4, s + 7), ("spr", 2, 4, s + 8)]
    with mp.get_context("fork").Pool(8) as pool:
        res = pool.map(work, jobs, chunksize=1)
    traces = []
    for j, (ev, err) in zip(jobs, res):
        if err:
            fr = [l for l in err.split("\n") if "/kd/" in l]
            if not fr:
                raise RuntimeError(err)
            cx.violation("exception:%s" % fr[-1].strip(), "drawing %s: %s" % (j[0], err[-900:]), {"traceback": err})
        cx.count("figures", len([e for e in ev if e["ev"] != "world"]))
        for i, c in enumerate(split(ev, 12)):
            traces.append(dict(name="%s %s %d" % (j[0], j[1], i), events=c))
    chunks = [traces[i::4] for i in range(4)]
    from concurrent.futures import ThreadPoolExecutor
    key = lambda t, j: "%s %s" % (t["name"].split()[0], t["events"][j].get("kind", t["events"][j]["ev"]))
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(lambda c: cx.validate("FigureTrace", c, key=key, what="a picture of it") if c else None, chunks))
    cx.note("cases", "%d cases of data offered together and of cuts; %d figures drawn through the facade and the drawing functions" % (len(cases), sum(1 for t in traces for e in t["events"] if e["ev"] != "world")))

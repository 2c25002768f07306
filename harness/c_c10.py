"""C10: sampled training points carry the value belonging to their coordinates."""
from concurrent.futures import ThreadPoolExecutor
import numpy as np
from h_dataset import Request, attempt, field, ints
from h_discover import quiet
import c_c09

LEVEL = "model_checking"
ORD2 = '{<<"x", "t">>, <<"t", "x">>}'
ORD3 = '{<<"x", "y", "t">>, <<"t", "x", "y">>, <<"y", "t", "x">>, <<"z", "x", "t">>}'


def sample_event(rq, ds, rng, method, n=None, ratio=(0, 0), seed=0):
    arg = n if n is not None else ratio[0] / ratio[1]

    def draw():
        np.random.seed(seed)
        return ds.sample(arg, method=method)
    ok, v = attempt(draw)
    e = dict(ev="sample", method=method, n=n or 0, ratio=list(ratio), ok=ok)
    if ok:
        q = 10000 if method == "spline" else 1
        get = lambda w: dict(pts=[[int(round(a * q)) if q > 1 else ints([a])[0] for a in p] for p in np.asarray(w[0]).tolist()],
                             vals=[int(round(a * q)) if q > 1 else ints([a])[0] for a in np.asarray(w[1]).reshape(-1).tolist()])
        e.update(get(v))
        ok2, w = attempt(draw)
        e["again"] = get(w) if ok2 else {}
        e["poly"] = list(rq.poly) if rq.poly else []
    return e


def dlga_event(rq, ds, sample, method="random", frm="sample", ratio=(0, 0)):
    from kd.model.kd_dlga import KD_DLGA
    got = {}

    class Probe(KD_DLGA):
        def fit(self, X, y):
            got["X"], got["y"] = np.array(X), np.array(y)
            return self
    with quiet():
        m = Probe(operators=["u", "u_x"], epi=0.1, input_dim=2)
        m.fit_dataset(ds, sample=sample if ratio[1] == 0 else ratio[0] / ratio[1], sample_method=method, Xy_from=frm)
    X, y = got["X"], got["y"]
    return dict(ev="pairs", pts=[ints(p) for p in X], vals=ints(y), count=len(X), full=sample is None and ratio[1] == 0 or frm == "mesh", n=sample or 0, ratio=list(ratio))


def regular_event(rq, ds, rng, asked=0):
    from kd.model.discover.adapter import DiscoverRegularAdapter
    ok, a = attempt(lambda: DiscoverRegularAdapter(ds, n_input_dim=asked or None))
    e = dict(ev="regular", ok=ok, finite=rq.finite, asked=asked)
    if ok:
        d = a.get_data()
        tv = rq.coords[rq.rec["lhs"]]
        ut = np.asarray(d["ut"]) * 2 * (tv[1] - tv[0])
        ut = np.where(np.abs(ut - np.round(ut)) < 1e-6, np.round(ut), ut)
        e.update(dim=d["n_input_dim"], shape=list(d["u"].shape), u=ints(d["u"]), ut=ints(ut) if ut.shape == d["u"].shape else ["shape"], x=[ints(x) for x in d["X"]],
                 nparam=d.get("n_param_var", 0), params=[field(p, n) for n, p in zip(d.get("param_names", []), d.get("param_data", []))])
    return e


def sparse_event(rq, ds, rng, *, n=None, ratio=(1, 4), cut=(0, 1), thin=(0, 0), spline=False, noise=0.0, colloc=7, seed=3):
    from kd.model.discover.adapter import DiscoverSparseAdapter
    kw = dict(sample=n, sample_ratio=ratio[0] / ratio[1], colloc_num=colloc, random_state=seed, noise_level=noise, spline_sample=spline)
    if thin[1]:
        kw["data_ratio"] = thin[0] / thin[1]
    if cut[0]:
        kw["cut_quantile"] = cut[0] / cut[1]
    ok, a = attempt(lambda: DiscoverSparseAdapter(ds, **kw))
    e = dict(ev="sparse", ok=ok, n=n or 0, ratio=list(ratio), sratio=list(thin if thin[1] else ratio), cut=list(cut), thin=list(thin), spline=spline, noisy=bool(noise), finite=rq.finite, colloc=colloc)
    if ok:
        d = a.get_data()
        ok2, b = attempt(lambda: DiscoverSparseAdapter(ds, **kw))
        pts = lambda A: [ints(p) for p in A]
        col = np.asarray(d["X_f_train"])
        nt = len(d["X_u_train"])
        body = col[:len(col) - nt]
        e.update(measured=pts(d["measured_points"]), again=pts(b.get_data()["measured_points"]) if ok2 else [], xtrain=pts(d["X_u_train"]), xval=pts(d["X_u_val"]),
                 utrain=ints(d["u_train"]) if not noise else [0] * len(d["u_train"]), uval=ints(d["u_val"]) if not noise else [0] * len(d["u_val"]), lb=ints(d["lb"]), ub=ints(d["ub"]),
                 ncol=len(col), coltail=pts(col[len(col) - nt:]), collo=[int(np.floor(1000 * v + 1e-6)) for v in body.min(0)], colhi=[int(np.ceil(1000 * v - 1e-6)) for v in body.max(0)],
                 star=pts(d["X_star"]), ustar=ints(d["u_star"]), shape=list(d["shape"]), params=[field(p, n_) for n_, p in zip(d.get("param_names", []), d.get("param_data", []))])
    return e


def handed_event(rq, ds):
    from kd.model.sga.adapter import SGADataAdapter
    k = SGADataAdapter(ds).to_solver_kwargs()
    par = [field(a, n) for n, a in (k.get("param_fields") or {}).items()]
    if "u_data" in k:
        return dict(ev="handed", u=field(k["u_data"]), coords=[dict(n="x", v=ints(k["x_data"])), dict(n="t", v=ints(k["t_data"]))], order=["x", "t"], lhs="t", params=par)
    return dict(ev="handed", u=field(k["fields_data"][k["target_field"]]), coords=[dict(n=n, v=ints(v)) for n, v in k["coords_1d"].items()], order=list(k["axis_order"]), lhs=k["lhs_axis"], params=par)


def run(cx):
    rng = np.random.default_rng(cx.seed)
    c_c09.design(cx)
    big = 4 if cx.thorough else 1
    grids2 = c_c09.cases(cx, ORD2, "{2, 3, 5}", ["none"])
    grids3 = c_c09.cases(cx, ORD3, "{2, 3}", ["none"])
    traces = []

    def start(cs, **kw):
        rq = Request(rng, cs, **kw)
        rq.finite = True
        ds, e = rq.build()
        return rq, ds, [e]

    def close(name, rq, ev):
        traces.append(dict(name=name, events=ev + [dict(ev="end", kept=rq.kept())]))
    seed = lambda: int(rng.integers(10**6))
    # ---- PDEDataset.sample and the neural genetic search
    for k, cs in enumerate(grids2 * (2 * big)):
        rq, ds, ev = start(cs)
        tot = int(np.prod(cs["sizes"]))
        for n in sorted({1, tot, tot + 1, int(rng.integers(1, tot + 1))}):
            ev.append(sample_event(rq, ds, rng, "random", n, seed=seed()))
            if rng.random() < 0.5:
                ev.append(sample_event(rq, ds, rng, "uniform", n, seed=seed()))
        for r in ((1, 2), (1, 4), (5, 8), (1, 1), (1, 64)):
            ev.append(sample_event(rq, ds, rng, str(rng.choice(["random", "random", "uniform"])), None, r, seed=seed()))
        ev.append(sample_event(rq, ds, rng, "nonsense", 1))
        ev.append(dlga_event(rq, ds, None))
        ev.append(dlga_event(rq, ds, int(rng.integers(1, tot + 1))))
        ev.append(dlga_event(rq, ds, None, ratio=(1, 2)))
        ev.append(dlga_event(rq, ds, None, ratio=(1, 1)))
        ev.append(dlga_event(rq, ds, 1, frm="mesh"))
        close("sample-%d" % k, rq, ev)
    for k in range(12 * big):
        order = [["x", "t"], ["t", "x"]][k % 2]
        rq, ds, ev = start(dict(mode="nd" if k % 4 else "legacy", order=order if k % 4 else ["x", "t"], sizes=[int(rng.integers(4, 9)) for _ in order], lhs="t", defect="none"),
                           poly=[int(v) for v in rng.integers(-4, 5, size=3)] + [0])
        for n in (4, 9, 11, 16):
            ev.append(sample_event(rq, ds, rng, "spline", n))
        ev.append(sample_event(rq, ds, rng, "spline", None, (1, 2)))
        close("spline-%d" % k, rq, ev)
    for cs in grids3[::4]:
        rq, ds, ev = start(cs)
        ev.append(sample_event(rq, ds, rng, "random", 2))
        close("sample3-%s" % "".join(cs["order"]), rq, ev)
    # ---- hand-over to the symbolic search: sparse
    for k, cs in enumerate(grids2 * (2 * big) + grids3 * big):
        rq, ds, ev = start(cs, params=int(rng.integers(0, 3)), lhs=str(rng.choice(cs["order"])) if cs["mode"] == "nd" else None)
        tot = int(np.prod(cs["sizes"]))
        ev.append(sparse_event(rq, ds, rng, n=int(rng.integers(1, tot + 1)), seed=seed(), colloc=int(rng.integers(3, 20))))
        for r in ((1, 2), (1, 4), (1, 1)):
            ev.append(sparse_event(rq, ds, rng, ratio=r, seed=seed()))
        ev.append(sparse_event(rq, ds, rng, n=tot + 1))
        ev.append(sparse_event(rq, ds, rng, ratio=(1, 2), noise=0.1, seed=seed()))
        ev.append(sparse_event(rq, ds, rng, ratio=(3, 4), thin=(1, 2), seed=seed()))
        ev.append(sparse_event(rq, ds, rng, ratio=(1, 2), cut=(1, 4), seed=seed()))
        ev.append(sparse_event(rq, ds, rng, ratio=(1, 2), spline=True, seed=seed()))
        if cs["mode"] == "legacy":
            ev.append(sparse_event(rq, ds, rng, n=int(rng.integers(1, tot + 1)), spline=True, seed=seed()))
            ev.append(sparse_event(rq, ds, rng, ratio=(1, 1), cut=(1, 8), thin=(1, 4), seed=seed()))
        ev.append(handed_event(rq, ds))
        close("sparse-%d" % k, rq, ev)
    for k in range(6 * big):
        sizes = [int(rng.integers(8, 12)), int(rng.integers(8, 12))]
        rq, ds, ev = start(dict(mode="legacy", order=["x", "t"], sizes=sizes, lhs="t", defect="none"), params=k % 3)
        for cut in ((1, 8), (1, 4), (3, 8), (1, 16)):
            ev.append(sparse_event(rq, ds, rng, ratio=(1, 2), cut=cut, seed=seed(), spline=bool(rng.integers(2))))
            ev.append(sparse_event(rq, ds, rng, ratio=(1, 1), cut=cut, thin=(1, 2), seed=seed()))
        close("cut-%d" % k, rq, ev)
    # ---- regular grids
    reg = []
    for k in range(30 * big):
        dim = [1, 2, 3, 2, 1, 2][k % 6]
        sp = list(rng.permutation(["x", "y", "z", "r"])[:dim]) if dim > 1 else ["x"]
        lhs = "t" if rng.random() < 0.7 or dim == 1 else str(rng.choice(["tau", "s"]))
        order = [str(a) for a in rng.permutation(sp + [lhs])] if dim > 1 else ["x", "t"]
        sizes = [int(rng.integers(3, 6)) if n == lhs else int(rng.integers(4, 6)) for n in order]
        reg.append(("ok", dict(mode="nd" if dim > 1 else "legacy", order=order, sizes=sizes, lhs=lhs, defect="none")))
    for k in range(14 * big):
        order = [["x", "t"], ["x", "y", "t"], ["t", "x", "y"], ["t", "x"]][k % 4]
        reg.append(("edge", dict(mode="legacy" if k % 4 == 0 else "nd", order=order, sizes=[int(rng.integers(2, 6)) for _ in order], lhs="t", defect="none")))
    for kind, cs in reg:
        uni = kind == "ok" or rng.random() < 0.6
        rq, ds, ev = start(cs, params=int(rng.integers(0, 3)), uniform=uni)
        if kind == "edge" and rng.random() < 0.3:     # a missing value in the field
            u = rq.kw["usol" if "usol" in rq.kw else "pde_data"]["usol"] if "pde_data" in rq.kw else (rq.kw.get("usol") if rq.mode == "legacy" else rq.kw["fields_data"][rq.target])
            u.reshape(-1)[0] = np.nan
            rq.watch = []
            rq.finite = False
            ev.append(regular_event(rq, ds, rng))
            ev = [ev[0], ev[-1]]
        else:
            for asked in sorted({0, 1, 2, 3}):
                ev.append(regular_event(rq, ds, rng, asked))
            ev.append(handed_event(rq, ds))
        close("regular-%s-%s" % (kind, "".join(cs["order"])), rq, ev)

    def val(tr):
        cx.validate("DatasetTrace", tr, key=lambda t, j: "%s:%s" % (t["name"].split("-")[0], t["events"][j]["ev"]), what="drawing training points")
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(val, [traces[i::4] for i in range(4)]))
    for kind in ("sample", "sparse", "regular", "pairs"):
        cx.note(kind + "_events", sum(e["ev"] == kind for t in traces for e in t["events"]))
    cx.assumptions += ["numpy's and pyDOE's random generators draw uniformly (the specification only fixes what may be drawn)", "fractions are dyadic so that fraction * count is exact"]

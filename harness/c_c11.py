"""C11: fitting, preparing or evaluating never changes what the caller supplied; equal data is seen equally."""
import os
import numpy as np
from concurrent.futures import ThreadPoolExecutor
from h_discover import quiet
from h_reuse import digest, seeds

LEVEL = "model_checking"
MC = """CONSTANTS NKinds = %d MaxOps = %d Emit = %s
SPECIFICATION Spec
INVARIANT Faithful
INVARIANT Out
PROPERTY CallerDataSafe
CHECK_DEADLOCK FALSE
"""


class Bundle:
    """one dataset with every array the caller holds"""

    def __init__(self, variant, seed):
        from kd.dataset import PDEDataset
        rng = np.random.default_rng(seed)
        self.variant = variant
        c = {"x": np.linspace(-1.0, 1.0, 12), "y": np.linspace(0.0, 1.0, 7), "t": np.linspace(0.0, 1.0, 11)}
        wave = lambda X, T: np.exp(-(X - 0.6 * T) ** 2) + 0.3 * np.sin(1.7 * X + T + seed)
        self.held = {}
        par = None
        if variant in ("legacy", "zeros", "f32", "view", "fortran"):
            X, T = np.meshgrid(c["x"], c["t"], indexing="ij")
            u = wave(X, T)
            if variant == "zeros":
                u = np.where(np.abs(X) > 0.5, 0.0, u)
            if variant == "f32":
                u, c = u.astype(np.float32), {k: v.astype(np.float32) for k, v in c.items()}
            if variant == "fortran":
                u = np.asfortranarray(u)
            base = np.repeat(np.repeat(u, 2, 0), 2, 1)
            if variant == "view":
                self.held["base"] = base
                u = base[::2, ::2]
            self.held.update(u=u, x=c["x"], t=c["t"])
            self.ds = PDEDataset(equation_name="b%d" % seed, x=c["x"], t=c["t"], usol=u, domain={"x": (-1, 1), "t": (0, 1)}, epi=1e-3)
        else:
            order = {"tx": ["t", "x"], "xt": ["x", "t"], "xyt": ["x", "y", "t"], "txy": ["t", "x", "y"], "parx": ["x", "t"], "party": ["t", "y", "x"], "partiny": ["x", "t"]}[variant]
            g = dict(zip(order, np.meshgrid(*[c[a] for a in order], indexing="ij")))
            u = wave(g["x"], g["t"]) + (0.5 * np.cos(2 * g["y"]) if "y" in g else 0)
            f = {"u": u}
            if variant.startswith("par"):
                par = {"visc": 1.0 + 0.2 * g["x"] * g["t"], "kap": np.ascontiguousarray(np.cos(g["x"]))}
            if variant == "partiny":       # a parameter too small to divide by, though nowhere zero
                par["kap"] *= 1e-12
            cc = {a: c[a] for a in order}
            self.held.update(u=u, **{"c_" + a: v for a, v in cc.items()}, **{"p_" + n: v for n, v in (par or {}).items()})
            self.held_containers = [f, cc, order, par]
            self.ds = PDEDataset(equation_name="b%d" % seed, fields_data=f, coords_1d=cc, axis_order=order, target_field="u", lhs_axis="t", param_fields=par)
        self.two_d = variant not in ("xyt", "txy", "party")
        self.legacy = variant in ("legacy", "zeros", "f32", "view", "fortran")
        # raw arrays for the estimators that take (X, y)
        self.X = np.column_stack([rng.uniform(-1, 1, 40), rng.uniform(0, 1, 40)])
        self.y = (self.X[:, :1] ** 2 + 0.1 * self.X[:, 1:])
        self.X[3] = 0.0
        self.y[5:7] = 0.0
        if seed % 2:
            self.y = self.y.reshape(-1)
        if variant == "f32":
            self.X = self.X.astype(np.float32)
        if variant in ("view", "fortran"):
            self.big = np.repeat(self.X, 2, 0)
            self.X = self.big[::2]
        self.names = ["a%d" % seed, "b"]
        self.lb, self.ub = np.array([-1.0, 0.0]), np.array([1.0, 1.0])

    def dump(self):
        d = {k: v for k, v in vars(self.ds).items() if isinstance(v, (np.ndarray, dict, list, tuple, str, int, float, type(None)))}
        return digest([self.held, getattr(self, "held_containers", 0), d, {k: str(v.dtype) for k, v in self.held.items()}, self.X, self.y, getattr(self, "big", 0), self.names, self.lb, self.ub,
                       {k: (v.flags.writeable, v.strides) for k, v in self.held.items()}])

    def write(self):
        """the caller changes its own values"""
        self.held["u"][...] = self.held["u"] * 1.5
        self.X *= 2.0


def rows(*a):
    a = [np.asarray(v, dtype=float).reshape(len(v), -1) for v in a]
    m = np.hstack(a)
    return digest(m[np.lexsort(m.T[::-1])])


# ---- one fit of each kind: (model or None, bundle) -> (model, what was seen)
def discover(m, b):
    from kd.model.kd_discover import KD_Discover
    m = m or KD_Discover(n_iterations=1, n_samples_per_batch=12, seed=3)
    m.import_dataset(b.ds)
    d = m.data_class.get_data()
    s = digest([d["u"], d["ut"], d["X"], d.get("param_data")])
    m.train(n_epochs=1, verbose=False)
    return m, s


def discover_math(m, b):
    """every operator of the vocabulary is evaluated on the data, twice"""
    from kd.model.kd_discover import KD_Discover
    from kd.model.discover.program import Program, from_tokens
    m = m or KD_Discover(n_iterations=1, n_samples_per_batch=12, seed=3,
                         binary_operators=["add", "mul", "sub", "div"], unary_operators=["n2", "n3", "neg", "inv", "exp", "abs", "sqrt"])
    m.import_dataset(b.ds)
    d = m.data_class.get_data()
    s = digest([d["u"], d["ut"], d["X"], d.get("param_data")])
    L = Program.library
    names = [t.name for t in L.tokens]
    ops = [t for t in L.tokens if t.arity]
    terms = [t.name for t in L.tokens if not t.arity and t.input_var is None] or []
    leaf = names.index("u1")
    out = []
    for _ in range(2):
        Program.clear_cache()
        row = []
        for t in ops:
            xs = [i for i, q in enumerate(names) if q.startswith("x") and q[1:].isdigit()]
            for second in [leaf] + xs[:1] + [i for i, q in enumerate(names) if q in ("visc", "kap", "p1", "p2")]:
                toks = [names.index(t.name)] + [leaf] + ([second] if t.arity == 2 else [])
                try:
                    p = from_tokens(np.array(toks, dtype=np.int32))
                    row.append(repr(p.r_ridge))
                except Exception as ex:
                    row.append(type(ex).__name__)
        out.append(digest(row))
    return m, s + ("" if out[0] == out[1] else " second evaluation differs")


def spr(m, b, train=False):
    from kd.model.kd_discover import KD_Discover_SPR
    m = m or KD_Discover_SPR(n_iterations=1, n_samples_per_batch=12, seed=3, config_out={"pinn": {"number_layer": 2, "n_hidden": 8, "pinn_epoch": 2, "iter_num": 1, "duration": 1}})
    m.import_dataset(b.ds, sample=30, colloc_num=20, random_state=4)
    d = m.data_class.get_data()
    s = digest({k: d[k] for k in ("measured_points", "X_u_train", "u_train", "X_u_val", "u_val", "lb", "ub") if k in d})
    return m, s


def spr_options(m, b):
    """every preparation option of the sparse adapter"""
    from kd.model.discover.adapter import DiscoverSparseAdapter
    out = []
    for kw in (dict(sample_ratio=0.3, noise_level=0.2), dict(sample=20, data_ratio=0.5), dict(sample=20, spline_sample=True), dict(sample=20, cut_quantile=0.1), dict(sample_ratio=1.0, colloc_num=None),
               dict(sample=15, noise_level=0.1, data_ratio=0.7, cut_quantile=0.1)):
        np.random.seed(5)
        try:
            d = DiscoverSparseAdapter(b.ds, **{**dict(random_state=2, colloc_num=10), **kw}).get_data()
            out.append([d[k] for k in ("measured_points", "X_u_train", "u_train", "X_u_val", "u_val", "lb", "ub")])
        except NotImplementedError:
            out.append("refused")
    return None, digest(out)


def spr_train(m, b):
    m, s = spr(m, b)
    import kd.model.discover.pinn as P
    old = P.PINN_model.pretrain

    def short(self):
        self.pretrain_epoch = 2
        return old(self)
    P.PINN_model.pretrain = short
    try:
        m.train(n_epochs=1, verbose=False)
    except (IndexError, ValueError, NotImplementedError):
        pass        # no usable expression among twelve candidates, or a varying parameter refused; the data must be intact all the same
    finally:
        P.PINN_model.pretrain = old
    return m, s


def regression(m, b):
    from kd.model.kd_discover_regression import KD_Discover_Regression
    m = m or KD_Discover_Regression(n_iterations=1, n_samples_per_batch=12, seed=3, binary_operators=["add", "mul", "div"], unary_operators=["sin", "n2", "inv"])
    m.fit(b.X, b.y, var_names=b.names)
    s = digest([np.hstack(m.data_class.get_data()["X"]).astype(float), np.asarray(m.data_class.get_data()["y"], dtype=float)])
    try:
        m.predict(b.X)
    except RuntimeError:
        pass
    return m, s


def _dlga(m, b, go):
    from kd.model.kd_dlga import KD_DLGA
    seeds(3)
    m = m or KD_DLGA(operators=["u", "u_x", "u_xx"], epi=0.1, input_dim=2, verbose=False, max_iter=2)
    m.pop_size, m.n_generations = 6, 1
    seen, old = [], m.train_NN

    def spy(X, y):
        seen.append(rows(X, y))
        return old(X, y)
    m.train_NN = spy
    try:
        go(m)
    finally:
        del m.train_NN
    return m, seen[-1]


def dlga_mesh(m, b):
    return _dlga(m, b, lambda m: m.fit_dataset(b.ds, Xy_from="mesh"))


def dlga_sample(m, b):
    return _dlga(m, b, lambda m: m.fit_dataset(b.ds, sample=25))


def dlga_all(m, b):
    return _dlga(m, b, lambda m: m.fit_dataset(b.ds, sample=1.0, sample_method="uniform"))


def dlga_arrays(m, b):
    return _dlga(m, b, lambda m: m.fit(b.X, b.y.reshape(-1, 1)))


def _sga(m, b, name="custom", **kw):
    from kd.model.kd_sga import KD_SGA
    seeds(3)
    m = m or KD_SGA(num=4, sga_run=2, depth=3, width=3, seed=5, max_epoch=3, **kw)
    m.fit_dataset(b.ds, problem_name=name)
    c = m.context_
    return m, digest([np.asarray(c.u, dtype=float), {k: np.asarray(v, dtype=float) for k, v in c.coords_1d.items()}])


def sga(m, b):
    return _sga(m, b)


def sga_edges(m, b):
    return _sga(m, b, delete_edges=True)


def sga_named(m, b):
    return _sga(m, b, name="burgers", delete_edges=True)


def sga_auto(m, b):
    return _sga(m, b, use_autograd=True)


def sga_eval(m, b):
    """hand-evaluated candidates: every operator over every leaf, twice, with the same errors"""
    m, s = _sga(m, b)
    from kd.model.sga.sgapde.pde import PDE, evaluate_mse
    import copy
    c = m.context_
    out = []
    np.random.seed(11)
    ps = [PDE(c, 4, 4, 0.6) for _ in range(12)]
    for _ in range(2):
        r = []
        for p in ps:
            q = copy.deepcopy(p)
            q.elements = [e for e in copy.copy(p.elements)]
            a, w, mse, *rest = (list(evaluate_mse(q, c)) + [None] * 3)
            r.append(repr(np.asarray(a).tolist() if not isinstance(a, float) else a))
        out.append(digest(r))
    # every operator over every pair of operands, as a term of its own, under both ways of treating a vanishing divisor
    from kd.model.sga.sgapde.tree import Node, Tree
    leaves = [r for r in c.VARS]
    old = os.environ.get("KD_SGA_DIVIDE_MODE")
    try:
        for mode in ("legacy", "guard"):
            os.environ["KD_SGA_DIVIDE_MODE"] = mode
            for op in c.OPS:
                for one in leaves:
                    for two in (c.den if op[0] in ("d", "d^2") else leaves if int(op[1]) == 2 else [None]):
                        t = Tree.__new__(Tree)
                        kids = [one] if two is None else [one, two]
                        node = lambda d, i, pa, r, st: Node(depth=d, idx=i, parent_idx=pa, name=r[0], full=r, child_num=int(r[1]), child_st=st, var=r[2])
                        t.max_depth, t.preorder, t.inorder = 2, "", ""
                        t.tree = [[node(0, 0, None, op, 0)], [node(1, i, 0, k, None) for i, k in enumerate(kids)]]
                        seen = set()
                        for _ in range(3):
                            q = copy.copy(ps[0])
                            q.elements, q.W = [t], 1
                            with np.errstate(all="ignore"):
                                try:
                                    r = evaluate_mse(q, c)
                                    seen.add(repr(np.asarray(r[0]).tolist()))
                                except Exception as ex:
                                    seen.add(type(ex).__name__)
                        if len(seen) > 1:
                            out.append("%s over %s evaluated differently again" % (op[0], [k[0] for k in kids]))
    finally:
        os.environ.pop("KD_SGA_DIVIDE_MODE", None)
        if old is not None:
            os.environ["KD_SGA_DIVIDE_MODE"] = old
    # the operators themselves, on the data arrays
    for row in c.OPS:
        for leaf in c.VARS:
            v = leaf[2]
            if row[1] == 1:
                row[2](v)
            elif row[0] not in ("d", "d^2"):
                with np.errstate(all="ignore"):
                    for other in c.VARS:
                        if not (row[0] == "/" and np.all(other[2] == 0)):
                            row[2](v, other[2])
            else:
                for ax in c.den:
                    row[2](v, c.delta[ax[0]], c.axis_map[ax[0]])
    return m, s + ("" if out[0] == out[1] else " second evaluation differs") + "; ".join(out[2:])


class StubBackend:
    def __init__(self, **kw):
        self.kw = kw

    def fit(self, X, y):
        self.X, self.y = X, y
        self.c = np.linalg.lstsq(np.asarray(X, float), np.asarray(y, float), rcond=None)[0]

    def predict(self, X):
        return np.asarray(X, float) @ self.c

    def get_best(self):
        return {"equation": "c"}


def pysr(m, b):
    import kd.model.kd_pysr as K
    K._PySRRegressor = StubBackend
    m = m or K.KD_PySR(niterations=1, binary_operators=["+"])
    m.fit(b.X, b.y)
    s = digest([np.asarray(m._model.X, dtype=float), np.asarray(m._model.y, dtype=float)])
    m.predict(b.X)
    return m, s


def accessors(m, b):
    """reading the dataset"""
    ds = b.ds
    out = []
    for f in (ds.get_data, ds.mesh, ds.mesh_bounds, ds.get_boundaries, ds.get_domain, ds.get_size, lambda: ds.get_derivative("x"), lambda: ds.get_datapoint(1, 2),
              lambda: ds.get_range((-0.5, 0.5), (0.2, 0.8)), lambda: ds.sample(7), lambda: ds.sample(0.5, "uniform"), lambda: repr(ds)):
        np.random.seed(1)
        try:
            out.append(f())
        except (NotImplementedError, ValueError):
            out.append("refused")
    return None, digest([o if isinstance(o, (np.ndarray, dict, tuple, str)) else repr(o) for o in out])


KINDS = {"discover": (discover, "no1d"), "discover_math": (discover_math, "no1d"), "spr": (spr, None), "spr_options": (spr_options, None), "spr_train": (spr_train, ("legacy", "tx", "zeros", "parx")), "regression": (regression, None),
         "dlga_mesh": (dlga_mesh, "2d"), "dlga_sample": (dlga_sample, "2d"), "dlga_all": (dlga_all, "2d"), "dlga_arrays": (dlga_arrays, None),
         "sga": (sga, None), "sga_edges": (sga_edges, "2d"), "sga_named": (sga_named, "legacy"), "sga_auto": (sga_auto, None), "sga_eval": (sga_eval, None), "pysr": (pysr, None), "accessors": (accessors, None)}
V2 = ["legacy", "zeros", "f32", "view", "fortran", "tx", "xt", "parx", "partiny"]
VN = V2 + ["xyt", "txy", "party"]
HEAVY = {"spr_train": 3, "sga_auto": 2}


def pool(kind):
    a = KINDS[kind][1]
    return VN if a is None else V2[:5] + VN[9:] if a == "no1d" else V2 if a == "2d" else V2[:5] if a == "legacy" else list(a)


def play(arg):
    """one schedule in one process"""
    sched, kinds, variants, seed, d = arg
    os.makedirs(d, exist_ok=True)
    os.chdir(d)
    bs = [Bundle(v, seed + i) for i, v in enumerate(variants)]
    ids = ["1", "2"]
    now = lambda: [dict(n=i, v=b.dump()) for i, b in zip(ids, bs)]
    ev = [dict(ev="data", now=now(), d="1", kind="", ok="yes", fresh=False, seen="")]
    models = {}
    last = {}
    # every fit is followed by one more of a fresh model of the same kind and data: both must see the same
    for s in sched:
        b, i = bs[s["d"] - 1], ids[s["d"] - 1]
        if s["op"] == "write":
            b.write()
            ev.append(dict(ev="write", now=now(), d=i, kind="", ok="yes", fresh=False, seen=""))
            continue
        kind = kinds[s["k"] - 1]
        ok, seen = "yes", "none"
        try:
            with quiet(), np.errstate(all="ignore"):
                seeds(9)
                models[kind], seen = KINDS[kind][0](models.get(kind) if s["reuse"] else None, b)
        except Exception as ex:
            import traceback
            tb = [f for f in traceback.extract_tb(ex.__traceback__) if "/kd/" in f.filename]
            ok = "raised %s: %s at %s" % (type(ex).__name__, str(ex)[:200], ["%s:%s" % (os.path.basename(f.filename), f.lineno) for f in tb[-2:]])
        ev.append(dict(ev="fit", kind=kind, d=i, ok=ok, fresh=True, seen=seen, now=now(), variant=b.variant, reuse=s["reuse"]))
    return dict(name="/".join("%s%s%s" % (kinds[s["k"] - 1] if s["k"] else "write", s["d"], "r" if s["reuse"] else "") for s in sched) + " on " + "+".join(variants), events=ev)


def run(cx):
    import multiprocessing as mp
    cx.model_check("DataFlowMC", MC % (2, 3, "FALSE"))
    scheds = cx.generate("DataFlowMC", MC % (2, 3, "TRUE"))
    uniq = {}
    for s in scheds:
        ks = [o["k"] for o in s if o["k"]]
        if ks and ks[0] == 1:       # kinds in order of first use
            uniq[repr(s)] = s
    scheds = sorted(uniq.values(), key=repr)
    rng = np.random.default_rng(cx.seed)
    names = sorted(KINDS)
    jobs = []
    # every kind on every kind of dataset it accepts, by the schedule "fit, fit again (new model)"
    twice = [s for s in scheds if [o["op"] for o in s] == ["fit"] * 3 and [o["k"] for o in s] == [1, 1, 1] and [o["d"] for o in s] == [1, 1, 2]]
    for k in names:
        vs = pool(k)
        if k in HEAVY and not cx.thorough:
            vs = [vs[i] for i in rng.permutation(len(vs))[:HEAVY[k]]]
        for i, v in enumerate(vs):
            s = twice[(i + cx.seed) % len(twice)]
            jobs.append((s, [k], [v, vs[(i + 1) % len(vs)]], 10 + i, None))
    # spec schedules over pairs of kinds
    light = [k for k in names if k not in HEAVY]
    take = scheds if cx.thorough else [scheds[i] for i in rng.permutation(len(scheds))[:70]]
    for n, s in enumerate(take):
        a, b = rng.choice(light, 2, replace=False)
        vs = [v for v in pool(a) if v in pool(b)]
        jobs.append((s, [str(a), str(b)], [str(v) for v in rng.choice(vs, 2)], 40 + n, None))
    jobs = [j[:4] + (cx.path("w%d" % i),) for i, j in enumerate(jobs)]
    order = sorted(range(len(jobs)), key=lambda i: not any(k in HEAVY for k in jobs[i][1]))
    # import the heavy libraries once, before forking
    import torch
    torch.set_num_threads(1)
    with quiet():
        import kd.model.kd_discover, kd.model.kd_discover_regression, kd.model.kd_dlga, kd.model.kd_sga, kd.model.kd_pysr  # noqa
    with mp.get_context("fork").Pool(8, maxtasksperchild=8) as p:
        traces = p.map(play, [jobs[i] for i in order], chunksize=1)

    def key(t, j):
        e = t["events"][j]
        o = e["ok"]
        return "%s:%s:%s" % (e["ev"], e.get("kind"), "changed" if o == "yes" else o.split(" at ")[0][:60])
    cx.note("kinds", len(names))
    cx.note("dataset_variants", len(VN))
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(lambda i: cx.validate("DataFlowTrace", traces[i::4], key=key, what="the caller's data"), range(4)))

"""C12: estimator parameters round-trip, are refused without a trace, clone, and are what the next fit uses."""
import inspect, json, os
import numpy as np
from concurrent.futures import ThreadPoolExecutor
from h_discover import quiet, burgers_like

LEVEL = "model_checking"
MC = """CONSTANTS MaxOps = %d Emit = %s Chain = %s
SPECIFICATION Spec
INVARIANT Typed
INVARIANT ReadsBack
INVARIANT Local
VIEW View
CHECK_DEADLOCK FALSE
"""


def canon(v):
    if isinstance(v, (list, tuple)):
        return [canon(x) for x in v]
    if isinstance(v, dict):
        return {str(k): canon(v[k]) for k in sorted(v, key=str)}
    if isinstance(v, np.generic):
        return v.item()
    return v


class World:
    """live objects of one trace, every event showing what each of them reports"""

    def __init__(self):
        self.objs, self.events, self.same = [], [], {}

    def enc(self, v, cls=None, name=None):
        for i, o in enumerate(self.objs):
            if v is o:
                return {"k": "ref", "id": i + 1}
        if (cls, name) in self.same and v in self.same[(cls, name)]:
            v = self.same[(cls, name)][0]
        return {"k": "val", "v": repr(canon(v))}

    def par(self, o, deep):
        out = []
        with quiet():
            d = o.get_params(deep=deep)
        for k, v in d.items():
            p = k.split("__")
            out.append({"p": p, "v": self.enc(v, type(o).__name__, k)})
        return out

    def show(self):
        res = []
        for o in self.objs:
            try:
                e = {"deep": self.par(o, True), "flat": self.par(o, False)}
            except Exception as ex:
                e = {"deep": [], "flat": [], "err": repr(ex)}
            try:
                r = repr(o)
                e["repr"] = type(o).__name__ in r and all(x["p"][0] in r for x in e["flat"])
            except Exception as ex:
                e["repr"] = False
                e["rerr"] = repr(ex)
            res.append(e)
        return res

    def ev(self, **k):
        if "ok" in k:
            k["ok"] = {True: "yes", False: "refused"}.get(k["ok"], k["ok"])
        self.events.append(dict(k, objs=self.show()))

    def cls(self, c):
        ps = [p for p in list(inspect.signature(c.__init__).parameters.values())[1:] if p.kind != p.VAR_KEYWORD]
        names = [("*" if p.kind == p.VAR_POSITIONAL else "") + p.name for p in ps]
        n = c.__name__
        self.ev(ev="class", cls=n, names=names, **{"def": [{"n": p.name, "v": self.enc(p.default, n, p.name)} for p in ps if p.default is not p.empty]})

    def new(self, c, kw):
        req = [{"n": k, "v": self.enc(v, c.__name__, k)} for k, v in kw.items()]
        try:
            with quiet():
                o = c(**kw)
            self.objs.append(o)
            ok = True
        except Exception as ex:
            ok, o = False, None
        self.ev(ev="new", cls=c.__name__, req=req, ok=ok)
        return o

    def set(self, o, kw):
        n = type(o).__name__
        req = [{"p": k.split("__"), "v": self.enc(v, n, k)} for k, v in kw.items()]
        try:
            with quiet():
                me = o.set_params(**kw) is o
            ok = True
        except ValueError:
            ok, me = False, False
        except Exception as ex:
            ok, me = "raised %s" % type(ex).__name__, False
        self.ev(ev="set", o=self.objs.index(o) + 1, req=req, ok=ok, me=me)

    def clone(self, o):
        ok = True
        try:
            with quiet():
                self.objs.append(type(o)(**o.get_params(deep=False)))
        except Exception as ex:
            ok = "raised %s" % type(ex).__name__
        self.ev(ev="clone", o=self.objs.index(o) + 1, ok=ok)

    def use(self, o, f):
        ok, eff = True, {}
        try:
            with quiet():
                eff = f(o)
        except Exception as ex:
            ok = "raised %s: %s" % (type(ex).__name__, str(ex)[:200])
        self.ev(ev="use", o=[i for i, x in enumerate(self.objs) if x is o][0] + 1, ok=ok, eff=[{"n": k, "v": self.enc(v, type(o).__name__, k)} for k, v in eff.items()])


def synthetic():
    from kd.base import BaseEstimator

    class Leaf(BaseEstimator):
        def __init__(self, a=0, b=1):
            self.a, self.b = a, b

    class Outer(BaseEstimator):
        def __init__(self, a=0, est=0):
            self.a, self.est = a, est
    return Leaf, Outer


def replay(h):
    Leaf, Outer = synthetic()
    w = World()
    w.cls(Leaf)
    w.cls(Outer)
    val = lambda v: w.objs[v["id"] - 1] if v["k"] == "ref" else int(v["v"])
    for s in h:
        kw = {"__".join(r["p"]): val(r["v"]) for r in s["req"]}
        if s["op"] == "new":
            w.new({"Leaf": Leaf, "Outer": Outer}[s["cls"]], kw)
        elif s["op"] == "set":
            w.set(w.objs[s["o"] - 1], kw)
        else:
            w.clone(w.objs[s["o"] - 1])
    return dict(name="nested", events=w.events)


def use_discover(o):
    from kd.model.discover.program import Program
    o.import_dataset(burgers_like(10, 9))
    return seen_by_search(o, Program)


def seen_by_search(o, Program, file=True):
    toks = [t for t in Program.library.tokens if t.input_var is None and t.arity > 0]
    names = [t.name for t in toks]
    e = {"n_iterations": o.searcher.n_iterations, "n_samples_per_batch": o.searcher.batch_size}
    p = o.get_params()
    if list(p["binary_operators"]) + list(p["unary_operators"]):
        e["binary_operators"] = [n for n, t in zip(names, toks) if t.arity == 2]
        e["unary_operators"] = [n for n, t in zip(names, toks) if t.arity == 1]
    eps = o.searcher.args["epsilon"]
    base = DEFEPS[type(o).__name__]
    e["config_out"] = None if eps == base else {"training": {"epsilon": eps}}
    if not file:
        return e
    if o.out_path is None:
        e["out_path"] = None
    else:
        e["out_path"] = os.path.dirname(o.out_path) + "/"
        e["seed"] = int(os.path.basename(o.out_path).rsplit("_", 1)[1].split(".")[0])
    return e


DEFEPS = {}


def use_spr(o):
    from kd.model.discover.program import Program
    o.import_dataset(burgers_like(10, 9), sample=12)
    return seen_by_search(o, Program)


def use_reg(o):
    from kd.model.discover.program import Program
    rng = np.random.default_rng(1)
    X = rng.normal(size=(12, 2))
    path = o.out_path
    got = {}
    o.train = lambda n_epochs=None, **k: (got.update(n=n_epochs), (_ for _ in ()).throw(KeyboardInterrupt()))[0]
    try:
        o.fit(X, X[:, 0] * 2)
    except KeyboardInterrupt:
        pass
    finally:
        del o.train
    e = seen_by_search(o, Program, False)
    e["n_iterations"] = got.get("n")
    return e


def use_dlga(o):
    rng = np.random.default_rng(2)
    d = o.get_params()["input_dim"]
    X, y = rng.normal(size=(20, d)), rng.normal(size=(20, 1))
    n0 = len(o.train_loss_history)
    o.pop_size, o.n_generations = 6, 1
    o.fit(X.copy(), y.copy())
    th = o.Theta.detach().cpu().numpy()
    ops = []
    for j in range(th.shape[1]):
        c = [k for k, v in o.metadata.items() if np.array_equal(v.reshape(-1), th[:, j])]
        ops.append(c[0] if c else "?")
    return {"operators": ops, "max_iter": len(o.train_loss_history) - n0, "input_dim": int(next(o.Net.parameters()).shape[1])}


def use_sga(o):
    class Ctx:
        def __init__(self, config):
            self.config = config

    class Sol:
        def __init__(self, config):
            self.config = config

        def run(self, context):
            return "pde", 0.0
    o.fit_dataset(burgers_like(10, 9), context_cls=Ctx, solver_cls=Sol)
    p = o.get_params()
    return {n: getattr(o.context_.config, n) for n in p if not (p[n] is None and n in ("target_field", "lhs_axis"))}


def use_pysr(o):
    import kd.model.kd_pysr as M
    kws = []

    class Stub:
        def __init__(self, **kw):
            kws.append(kw)

        def fit(self, X, y):
            pass

        def predict(self, X):
            return np.zeros(len(X))
    old, M._PySRRegressor = M._PySRRegressor, Stub
    try:
        o.fit(np.ones((3, 2)), np.zeros(3))
    finally:
        M._PySRRegressor = old
    kw = kws[-1]
    return {"niterations": kw.pop("niterations"), "binary_operators": kw.pop("binary_operators", None), "unary_operators": kw.pop("unary_operators", None), "extra_model_kwargs": kw}


def families():
    from kd.model.kd_discover import KD_Discover, KD_Discover_SPR
    from kd.model.kd_discover_regression import KD_Discover_Regression
    from kd.model.kd_dlga import KD_DLGA
    from kd.model.kd_sga import KD_SGA
    from kd.model.kd_pysr import KD_PySR
    for c in (KD_Discover, KD_Discover_SPR, KD_Discover_Regression):
        with quiet():
            DEFEPS[c.__name__] = c().config_training["epsilon"]
    cfg = [None, {"training": {"epsilon": 0.3}}, {"training": {"epsilon": 0.125}}]
    disc = dict(n_iterations=[1, 3, 7], n_samples_per_batch=[5, 10, 20], binary_operators=[["add", "mul", "diff"], ["mul", "add"], ["add", "mul", "diff2", "div"]],
                unary_operators=[[], ["n2"], ["n3", "n2"]], out_path=["./log/", "./out/", "./a/b/", None], core_num=[1, 2], config_out=cfg, seed=[0, 1, 11])
    spr = dict(disc, out_path=["./log/", "./out/"], binary_operators=[["add_t", "mul_t", "diff_t"], ["mul_t", "add_t"], ["add_t", "diff2_t", "mul_t"]], unary_operators=[[], ["n2_t"], ["n3_t", "n2_t"]])
    reg = dict(disc, binary_operators=[["add", "mul"], ["mul", "sub", "add"], ["add", "div"]], unary_operators=[[], ["sin"], ["exp", "cos"]])
    dl = dict(operators=[["u", "u_x"], ["u_xx", "u", "u_x"], ["u_x", "u_xx"], ["u"]], epi=[0.0, 0.01, 0.5], input_dim=[2, 3], verbose=[False], max_iter=[1, 2, 4])
    sg = dict(sga_run=[1, 5], num=[3, 8], depth=[2, 4], width=[2, 5], p_var=[0.5, 0.25], p_mute=[0.3, 0.75], p_cro=[0.5, 1.0], seed=[0, 4], use_autograd=[False, True], max_epoch=[10, 77],
              use_metadata=[False, True], delete_edges=[False, True], target_field=[None, "u"], lhs_axis=[None, "t"], primary_spatial_axis=[None, "x"])
    py = dict(niterations=[1, 40, 1000], binary_operators=[None, [], ["+", "*"]], unary_operators=[None, ["cos"], []], extra_model_kwargs=[None, {}, {"maxsize": 9}, {"procs": 0, "verbosity": 1}])
    return [(KD_Discover, disc, use_discover, 3), (KD_Discover_SPR, spr, use_spr, 2), (KD_Discover_Regression, reg, use_reg, 3), (KD_DLGA, dl, use_dlga, 3), (KD_SGA, sg, use_sga, 8), (KD_PySR, py, use_pysr, 10)]


def history(rng, c, pool, use, n):
    w = World()
    w.same[("KD_PySR", "extra_model_kwargs")] = [None, {}]
    w.cls(c)
    names = sorted(pool)
    need = [p.name for p in list(inspect.signature(c.__init__).parameters.values())[1:] if p.default is p.empty and p.kind not in (p.VAR_KEYWORD, p.VAR_POSITIONAL)]

    def pick(k):
        v = pool[k][int(rng.integers(len(pool[k])))]
        return json.loads(json.dumps(v))

    def some(k):
        return {m: pick(m) for m in rng.permutation(names)[:k]}

    def usable(o):
        p = o.get_params()
        if p.get("max_iter", 1) > 100:
            return False
        if "unary_operators" in p and hasattr(o, "operator"):
            return bool(p["binary_operators"]) or not p["unary_operators"]
        return True
    used = 0
    for step in range(n):
        r = rng.random()
        live = [o for o in w.objs if type(o) is c]
        if not live or r < 0.12 and len(live) < 3:
            kw = some(int(rng.integers(0, len(names) + 1)))
            for m in need:
                if rng.random() < 0.9:
                    kw[m] = pick(m)
            if rng.random() < 0.15:
                kw[str(rng.choice(["nope", "n_iterationz", "C"]))] = 1
            w.new(c, kw)
            continue
        o = live[int(rng.integers(len(live)))]
        if r < 0.6:
            kw = some(int(rng.integers(1, 4)))
            if rng.random() < 0.3:
                bad = str(rng.choice(["nope", names[0] + "__x", "operatorr", "config", "nope__" + names[0]]))
                items = list(kw.items())
                items.insert(int(rng.integers(0, len(items) + 1)), (bad, 1))
                kw = dict(items)
            w.set(o, kw)
        elif r < 0.72 and len(live) < 3:
            w.clone(o)
        elif r < 0.95:
            try:
                good = usable(o)
            except Exception:
                good = True
            if good:
                w.use(o, use)
    return dict(name=c.__name__, events=w.events)


def positional(c, pool, rng):
    """the documented positional order is kept by keyword construction and cloning"""
    w = World()
    w.cls(c)
    kw = {k: json.loads(json.dumps(v[-1])) for k, v in pool.items()}
    o = w.new(c, kw)
    if o is not None:
        w.clone(o)
        w.set(w.objs[-1], {k: json.loads(json.dumps(v[0])) for k, v in pool.items()})
    return dict(name=c.__name__, events=w.events)


def run(cx):
    rng = np.random.default_rng(cx.seed)
    d = 1 if cx.thorough else 0
    cx.model_check("ParamsMC", MC % (3, "FALSE", "FALSE"))
    cx.model_check("ParamsMC", MC % (4 + d, "FALSE", "TRUE"))
    keep = []
    for cases in (cx.generate("ParamsMC", MC % (3, "TRUE", "FALSE")), cx.generate("ParamsMC", MC % (4 + d, "TRUE", "TRUE"))):
        keep += [cases[i] for i in rng.permutation(len(cases))[:2000 if cx.thorough else 350]]
    traces = [replay(h) for h in keep]
    reps = 5 if cx.thorough else 1
    for c, pool, use, m in families():
        traces.append(positional(c, pool, rng))
        for _ in range(m * reps):
            traces.append(history(rng, c, pool, use, 14))
    for t in traces:
        for e in t["events"]:
            cx.count("events_%s" % e["ev"])
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(lambda i: cx.validate("ParamsTrace", traces[i::4], key=lambda t, j: "%s:%s" % (t["name"], t["events"][j]["ev"]), what="estimator parameters"), range(4)))

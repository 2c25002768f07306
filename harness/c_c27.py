"""C27: every registered dataset loads into a consistent dataset, repeatably."""
import hashlib, os, sys
import numpy as np
from h_dataset import attempt
from h_discover import quiet

LEVEL = "model_checking"
MC = """CONSTANTS Names_ = {%s} Shared = FALSE MaxLoads = %d Emit = %s
SPECIFICATION Spec
INVARIANT Pristine
CHECK_DEADLOCK FALSE
"""
AR = dict(add=2, mul=2, diff=2, diff2=2, diff3=2, diff4=2, n2=1, n3=1, sub=2, div=2)

# coefficients of the published equations (terms in the order of the declared true equation)
COEF = {"chafee-infante": [-1, 1, 1], "burgers": [-1, 0.1], "burgers-reflib": [-1, 0.1], "kdv": [-1, -0.0025], "PDE_divide": [-1, 0.25], "PDE_compound": [1, 1],
        "fisher": [0.02, 0.02, 10, -10], "fisher_linear": [0.02, 10, -10]}


def dig(a):
    a = np.ascontiguousarray(np.asarray(a, dtype=float))
    return hashlib.sha1(str(a.shape).encode() + a.tobytes()).hexdigest()[:16]


def meta(x):
    return sorted([str(k), repr(v)] for k, v in (x or {}).items())


def raw(info):
    """what is stored, read without the code under test"""
    import scipy.io
    from importlib import resources
    d = os.path.join(os.environ.get("KD_REPO", "/repo"), "kd", "dataset", "data")
    if "files" in info:
        g = {k: np.load(os.path.join(d, f)) for k, f in info["files"].items()}
        return g["u"], g["x"].reshape(-1), g["t"].reshape(-1)
    if info["file"].endswith(".npy"):
        return np.load(os.path.join(d, info["file"])), None, None
    m = scipy.io.loadmat(os.path.join(d, info["file"]))
    # the coordinates of a stored solution, found by their lengths (names differ between files)
    arrs = {k: np.asarray(v) for k, v in m.items() if not k.startswith("__") and np.issubdtype(np.asarray(v).dtype, np.number)}
    k = info["keys"]
    return arrs[k["u_key"]], arrs[k["x_key"]].reshape(-1), arrs[k["t_key"]].reshape(-1)


def infos():
    from kd.dataset import list_available_datasets, get_dataset_info, get_dataset_sym_true
    out = []
    for n in list_available_datasets():
        i = get_dataset_info(n)
        s = get_dataset_sym_true(n)
        al = i.get("aliases") or {}
        out.append(dict(n=n, active=i.get("status", "active") == "active", sym=s.split(",") if s else [], aliases=meta(al), legacy=al.get("legacy", n),
                        shape=list(i.get("shape") or []), domain=meta(i.get("domain"))))
    return out


def load(n, keep, **kw):
    from kd.dataset import load_pde, PDEDataset, get_dataset_info
    ok, ds = attempt(load_pde, n, **kw)
    e = dict(ev="load", n=n, ok=ok, isds=isinstance(ds, PDEDataset))
    if e["isds"]:
        keep.append((n, ds))
        u, x, t = raw(get_dataset_info(n))
        dom = ds.get_domain() or {}
        even = all(np.allclose(np.diff(a), (a[-1] - a[0]) / (len(a) - 1)) for a in (ds.x, ds.t))
        try:
            spans = all(abs(float(a[0]) - dom[k][0]) < 1e-9 and abs(float(a[-1]) - dom[k][1]) < 1e-9 for k, a in (("x", ds.x), ("t", ds.t)) if k in dom)
        except Exception:
            spans = False
        b = ds.get_boundaries()
        mono = all((np.diff(a) > 0).all() and abs(b[k][0] - a[0]) < 1e-12 and abs(b[k][1] - a[-1]) < 1e-12 for k, a in (("x", ds.x), ("t", ds.t)))
        e.update(shape=list(ds.usol.shape), nx=len(ds.x), nt=len(ds.t), name=ds.equation_name, registry=ds.registry_name, aliases=meta(ds.aliases), legacy=ds.legacy_name,
                 domain=meta(ds.domain), udig=dig(ds.usol), xdig=dig(ds.x), tdig=dig(ds.t), rawshape=list(np.shape(u)), rawu=dig(np.real(u)), rawt=dig(np.real(u).T),
                 rawx="none" if x is None else dig(x), rawtime="none" if t is None else dig(t), even=even, spans=spans, monotone=bool(mono), finite=bool(np.isfinite(ds.usol).all()),
                 epi=repr(float(ds.epi)), wantepi=repr(float(kw.get("epi", 1e-3))))
    return e


def scribble(ds):
    ds.usol *= 0
    ds.x += 17
    ds.t[:] = 0
    for d in (ds.aliases, ds.domain):
        if isinstance(d, dict):
            d.clear()
            d["x"] = ("spoilt", 1)
    ds.registry_name = ds.equation_name = "spoilt"


def terms(ts):
    def end(i):
        k = 1
        while k:
            k += AR.get(ts[i], 0) - 1
            i += 1
        return i
    if ts[0] == "add":
        k = end(1)
        return terms(ts[1:k]) + terms(ts[k:])
    return [ts]


def value(ts, u, x):
    def rec(i):
        t = ts[i]
        if t == "u1": return u, i + 1
        if t == "x1": return x[:, None] * np.ones_like(u), i + 1
        a, i = rec(i + 1)
        if t in ("n2", "n3"): return a ** int(t[1]), i
        b, j = rec(i)
        if t in ("add", "sub", "mul", "div"):
            return dict(add=np.add, sub=np.subtract, mul=np.multiply, div=np.divide)[t](a, b), j
        for _ in range(dict(diff=1, diff2=2, diff3=3)[t]):
            a = np.gradient(a, x, axis=0, edge_order=2)
        return a, j
    return rec(0)[0]


def fits(n, ds, sym):
    """relative residual of u_t on the terms of the declared true equation"""
    u, x, t = ds.usol, ds.x, ds.t
    ut = np.gradient(u, t, axis=1, edge_order=2)
    sl = tuple(slice(k // 8, -(k // 8)) for k in u.shape)
    C = np.stack([value(s, u, x)[sl].ravel() for s in terms(sym)], 1)
    y = ut[sl].ravel()
    w = np.linalg.lstsq(C, y, rcond=None)[0]
    ref = COEF.get(n)
    dev = max(abs(a - b) / abs(b) for a, b in zip(w, ref)) if ref and len(ref) == len(w) else 0
    return dict(ev="fits", n=n, dev=int(min(2e9, 1e6 * dev)), ppm=int(min(2e9, 1e6 * np.linalg.norm(C @ w - y) / np.linalg.norm(y))))


def regression(n, keep):
    from kd.dataset import load_regression
    X, y, m = load_regression(n)
    keep.append(m)
    A = np.load(os.path.join(os.environ.get("KD_REPO", "/repo"), "kd", "dataset", "data", {"tlc_cc_t1": "tlc_cc_Rf_t1.npy", "tlc_cc_t2": "tlc_cc_Rf_t2.npy"}[n]))
    return dict(ev="regression", n=n, xshape=list(X.shape), ylen=len(y), rows=len(A), columns=bool(np.array_equal(np.column_stack([X, y]), A[:, :3])), vars=list(m["var_names"]),
                target=m["target_name"], xdig=dig(X), ydig=dig(y), meta=repr(meta(m)))


def custom(cx, rng, k):
    """a user's own .mat file through the convenience loader"""
    import scipy.io
    from kd.dataset import load_pde_dataset
    pkg = cx.path("mydata%d" % cx.seed)
    os.makedirs(pkg, exist_ok=True)
    open(os.path.join(pkg, "__init__.py"), "w").close()
    if cx.scratch not in sys.path:
        sys.path.insert(0, cx.scratch)
    nx, nt = int(rng.integers(2, 7)), int(rng.integers(2, 7))
    x, t, u = np.sort(rng.normal(size=nx)), np.sort(rng.normal(size=nt)), rng.normal(size=(nx, nt))
    kind = str(rng.choice(["xt", "tx", "short", "flat", "key", "file"]))
    stored = u.T if kind == "tx" else u[:, :-1] if kind == "short" else u.reshape(-1, 1) if kind == "flat" else u
    keys = [("x", "t", "usol"), ("xx", "tt", "U"), ("t", "x", "u")][k % 3]
    scipy.io.savemat(os.path.join(pkg, "f%d.mat" % k), {keys[0]: x if k % 2 else x.reshape(-1, 1), keys[1]: t, keys[2]: stored})
    ask = dict(x_key=keys[0], t_key=keys[1], u_key="nope" if kind == "key" else keys[2])
    ok, ds = attempt(load_pde_dataset, "absent.mat" if kind == "file" else "f%d.mat" % k, data_dir_module=os.path.basename(pkg), **ask)
    ok = ok and ds is not None
    good = kind in ("xt", "tx") or (kind == "short" and stored.shape == (nt, nx))
    e = dict(ev="custom", kind=kind, good=good, ok=ok, nx=nx, nt=nt, rawshape=list(stored.shape), rawu=dig(stored), rawt=dig(stored.T), rawx=dig(x), rawtime=dig(t))
    if ok:
        e.update(udig=dig(ds.usol), xdig=dig(ds.x), tdig=dig(ds.t))
    return e


def run(cx):
    from kd.dataset import load_pde, load_regression, get_dataset_info, get_dataset_sym_true
    rng = np.random.default_rng(cx.seed)
    cx.model_check("RegistryMC", MC % ('"a", "b", "c"', 5, "FALSE"))
    hists = cx.generate("RegistryMC", MC % ('"a", "b"', 4 if not cx.thorough else 5, "TRUE"))
    names = [i["n"] for i in infos()]
    traces = []
    order = [str(n) for n in rng.permutation(names)]
    # every dataset, twice, and the declared true equation
    keep, ev = [], [dict(ev="listing", infos=infos())]
    for n in order:
        ev.append(load(n, keep))
    for n, ds in keep:
        s = get_dataset_sym_true(n)
        if s:
            ev.append(fits(n, ds, s.split(",")))
    for n in order[::-1]:
        ev.append(load(n, keep, **({"epi": 0.25} if rng.random() < 0.5 else {})))
    ev.append(dict(ev="listing", infos=infos()))
    traces.append(dict(name="all", events=ev))
    # histories of the specification: loads and callers that scribble over what they were given
    for h in range(len(hists)):
        if h % max(1, len(hists) // (60 if cx.thorough else 24)):
            continue
        pick = dict(zip(("a", "b"), [str(n) for n in rng.choice(names, size=2, replace=False)]))
        keep, ev = [], [dict(ev="listing", infos=infos())]
        for n in pick.values():
            ev.append(load(n, []))
        for s in hists[h]:
            n = pick[s["n"]]
            if s["op"] == "load":
                ev.append(load(n, keep))
            else:
                got = [d for m, d in keep if m == n]
                if got:
                    scribble(got[-1])
                    keep = [(m, d) for m, d in keep if d is not got[-1]]
                ev.append(dict(ev="scribble", n=n))
        ev.append(dict(ev="listing", infos=infos()))
        traces.append(dict(name="history", events=ev))
    # names nobody registered
    ev = [dict(ev="listing", infos=infos())]
    for n in ["nope", "", "kdv ", " burgers", "PDE-divide", "chafee_infante", "__class__", "kdv\n", "x" * 40]:
        for f in (load_pde, get_dataset_info, get_dataset_sym_true, load_regression):
            msg = None
            try:
                with quiet():
                    f(n)
            except Exception as ex:
                msg = str(ex)
            ev.append(dict(ev="unknown", f=f.__name__, n=n, ok=msg is None, named=msg is not None and n in msg))
    traces.append(dict(name="unknown", events=ev))
    keep, ev = [], [dict(ev="listing", infos=infos())]
    for n in ("tlc_cc_t1", "tlc_cc_t2", "tlc_cc_t1"):
        ev.append(regression(n, keep))
        keep[-1]["var_names"].append("spoilt")
        keep[-1]["target_name"] = "spoilt"
    ev.append(regression("tlc_cc_t2", keep))
    traces.append(dict(name="regression", events=ev))
    for k in range(120 if cx.thorough else 40):
        traces.append(dict(name="custom", events=[custom(cx, rng, k)]))
    # the older loaders
    from kd.dataset import load_burgers_equation, load_kdv_equation
    import warnings
    for f, n in ((load_burgers_equation, "burgers"), (load_kdv_equation, "kdv")):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            d = f()
        u, x, t = raw(get_dataset_info(n))
        traces.append(dict(name="legacy", events=[dict(ev="custom", kind=n, good=True, ok=True, nx=len(d.x), nt=len(d.t), rawshape=list(u.shape), rawu=dig(np.real(u)), rawt=dig(np.real(u).T),
                                                       rawx=dig(x), rawtime=dig(t), udig=dig(d.usol), xdig=dig(d.x), tdig=dig(d.t))]))
    cx.validate("RegistryTrace", traces, key=lambda t, j: "%s:%s:%s" % (t["name"], t["events"][j]["ev"], t["events"][j].get("n", "")), what="loading registered datasets")
    cx.note("datasets", names)

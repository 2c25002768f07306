"""C17: names of fields, coordinates and derivatives, and the operands behind them."""
import itertools
import numpy as np
from concurrent.futures import ThreadPoolExecutor
from h_expr import fracs
from h_sga import Problem, build, term_event, random_toks, quiet, BIN, UN

LEVEL = "model_checking"
MC = 'CONSTANTS Alpha = {%s} KeyLen = %d Emit = TRUE\nSPECIFICATION Spec\nINVARIANTS RoundTrip SingleChar\nCHECK_DEADLOCK FALSE\n'
ch = list
wd = "".join


def answer(f, *a, **k):
    try:
        with quiet():
            return dict(k="val", v=f(*a, **k))
    except (ValueError, TypeError):
        return dict(k="err")


def as_chars(r):
    if r["k"] == "val" and isinstance(r["v"], str):
        r = dict(k="val", v=ch(r["v"]))
    return r


def names(cx, rng):
    from kd.model.sga.sgapde import naming as N
    ev = []

    def parse(key, ax):
        r = answer(N.parse_derivative_key, key, **({"known_axes": ax} if ax is not None else {}))
        if r["k"] == "val":
            f, a, n = r["v"]
            r = dict(k="val", f=ch(f), a=ch(a), n=n)
        ev.append(dict(ev="parse", key=ch(key), known=ax is not None, ax=[ch(a) for a in ax or []], ans=r))

    def one(c):
        if c["op"] == "build":
            f, a = wd(c["f"]), wd(c["a"])
            r = as_chars(answer(N.build_derivative_key, f, a, order=c["k"]))
            ev.append(dict(ev="build", f=c["f"], a=c["a"], n=c["k"], ans=r))
            if r["k"] == "val":
                parse(wd(r["v"]), [wd(x) for x in c["ax"]])
                parse(wd(r["v"]), None)
        elif c["op"] == "parse":
            parse(wd(c["key"]), [wd(x) for x in c["ax"]])
            parse(wd(c["key"]), None)
        elif c["op"] == "name":
            ev.append(dict(ev="name", key=c["key"], ans=as_chars(answer(N.validate_name, wd(c["key"])))))
            ev.append(dict(ev="axis", key=c["key"], ans=as_chars(answer(N.validate_axis_name, wd(c["key"])))))
        else:
            r = as_chars(answer(N.normalize_legacy_derivative_key, wd(c["key"]), field_names=[wd(x) for x in c["fs"]], axis_names=[wd(x) for x in c["ax"]]))
            ev.append(dict(ev="legacy", key=c["key"], fs=c["fs"], ax=c["ax"], ans=r))
    cases = cx.generate("SgaNamesMC", MC % ('"u", "x", "_", "1"', 5 if cx.thorough else 4))
    if not cx.thorough:
        long = [c for c in cases if len(c.get("key", "")) >= 4]
        cases = [c for c in cases if len(c.get("key", "")) < 4] + [long[i] for i in rng.permutation(len(long))[:1500]]
    for c in cases:
        one(c)
    # reserved words, odd characters and longer names
    odd = ["", "0", "d", "d^2", "+", "*", "^2", "^3", "u\n", "u v", " u", "u ", "d\n", "uX9_", "_u", "9u", "u-v", "u.x", "D", "dd", "d_x", "α", "u\t", "x\n"]
    for k in odd:
        one(dict(op="name", key=ch(k)))
        one(dict(op="build", f=ch(k), a=ch("x"), k=1, ax=[ch("x")]))
        one(dict(op="build", f=ch("u"), a=ch(k), k=2, ax=[ch("x")]))
    for f in ["rho", "u_x", "p9", "v_"]:
        for a in ["x", "lat", "lon", "r2", "xx"]:
            for k in (1, 2, 3):
                one(dict(op="build", f=ch(f), a=ch(a), k=k, ax=[ch(b) for b in {a, "x", "t"}]))
    # clash resolution
    pool = ["u", "x", "f_x", "f_x_1", "f_f_x", "t", "d", "v"]
    for n in (1, 2, 3):
        for fs in itertools.permutations(pool, n):
            for cs in (["x"], ["x", "t"], ["f", "u"], ["x", "d"], ["x", "x"], ["f_x"]):
                if n == 3 and rng.random() > (1 if cx.thorough else 0.3):
                    continue
                r = answer(N.resolve_field_name_conflicts, field_names=list(fs), coord_names=cs)
                r = dict(k="val", v=[ch(r["v"][f]) for f in fs]) if r["k"] == "val" and set(r["v"]) == set(fs) else r if r["k"] == "err" else dict(k="val", v=[])
                ev.append(dict(ev="resolve", fs=[ch(f) for f in fs], cs=[ch(c) for c in cs], ans=r))
    r = answer(N.resolve_field_name_conflicts, field_names=["u", "u"], coord_names=["x"])
    ev.append(dict(ev="resolve", fs=[["u"], ["u"]], cs=[["x"]], ans=dict(k="err") if r["k"] == "err" else dict(k="val", v=[])))
    # operand tables offered under every choice of names
    A = np.arange(16.0).reshape(4, 4)
    from kd.model.sga.sgapde.config import SolverConfig
    from kd.model.sga.sgapde.context import ProblemContext

    def table(fs, axes, ps, lhs, target):
        def go():
            g = np.arange(4.0 ** len(axes)).reshape([4] * len(axes)) ** 1.5
            c = SolverConfig(problem_name="custom", fields_data={f: g * (i + 1) for i, f in enumerate(fs)}, coords_1d={a: np.arange(4.0) for a in axes}, axis_order=list(axes),
                             target_field=target, lhs_axis=lhs, param_fields={p: g + i for i, p in enumerate(ps)} or None)
            return [ch(str(r[0])) for r in ProblemContext(c).VARS]
        ev.append(dict(ev="table", fs=[ch(f) for f in fs], axes=[ch(a) for a in axes], ps=[ch(p) for p in ps], lhs=ch(lhs), target=ch(target), ans=answer(go)))
    pool = ["u", "v", "x", "t", "y", "u_x", "u_t", "ux", "ut", "d", "0", "nu", "a b", "u_y", "x_y", "u\n", "nu_x", "v_x", "9z", "u_"]
    for lhs, axes in (("t", ["x", "t"]), ("t", ["t", "y", "x"]), ("y", ["x", "y"]), ("t", ["x", "xx", "t"])):
        for p in pool:
            table(["u"], axes, [p], lhs, "u")
            table(["u", p] if p != "u" else ["u"], axes, [], lhs, "u")
            table([p, "w"], axes, ["q"], lhs, p)
            table(["u", p] if p != "u" else ["u"], axes, ["v", "w"], lhs, "u")
        for _ in range(80 if cx.thorough else 25):
            fs = [str(s) for s in rng.permutation(pool)[:int(rng.integers(1, 4))]]
            ps = [str(s) for s in rng.permutation(pool)[:int(rng.integers(0, 3))]]
            table(fs, axes, ps, lhs, fs[0])
    for axes in (["x_1", "t"], ["x", "d"], ["9", "t"], ["x\n", "t"]):
        table(["u"], axes, [], axes[1], "u")
    return [dict(name="names-%d" % k, events=ev[k:k + 1500]) for k in range(0, len(ev), 1500)]


def terms(cx, rng):
    """terms over the operands of every kind of problem"""
    T = 3 if cx.thorough else 1
    plans = [dict(axes="xt", lhs="t"), dict(axes="tx", lhs="t"), dict(axes="xt", lhs="x"), dict(axes="xt", lhs="t", params=("nu", "b")), dict(axes=["r", "t"], lhs="t", fields=("h",)),
             dict(axes="yt", lhs="y", fields=("u", "v"), target="v"), dict(axes="txy", lhs="t", sizes=[4, 5, 4]), dict(axes="xyt", lhs="t", sizes=[4, 4, 4], params=("c",)),
             dict(axes="ytx", lhs="t", sizes=[4, 4, 5], fields=("u", "v")), dict(axes="xt", lhs="t", sizes=[10, 4], cut=True, params=("nu",)), dict(axes="tx", lhs="t", sizes=[4, 7], cut=True),
             dict(axes="xt", lhs="t", descend=True), dict(axes=["lat", "lon", "t"], lhs="t", sizes=[4, 5, 4], fields=("T",), primary_spatial_axis="lon"),
             dict(axes="txyz", lhs="t", sizes=[4, 4, 4, 4]), dict(axes="xt", lhs="t", pool=[0, 0, 0, 1, -1])]
    out = []
    for r in range(2 * T):
        for k, kw in enumerate(plans):
            P = Problem(rng, **kw)
            ctx = P.context()
            ev = [P.begin(ctx)]
            nm, den = ev[0]["names"], ev[0]["den"]
            big = int(np.prod(P.shape)) > 100
            seqs = [["*", a, b] for a in nm[:6] for b in nm[-3:]]
            seqs += [[o, f, a] for o in ("d", "d^2") for f in list(P.fields) + list(P.params) for a in P.axes]
            seqs += [["*", ["d", f, P.lhs][0], f, P.lhs, f] for f in P.fields] + [["/", f, "d", f, P.lhs] for f in P.fields]
            seqs += [["/", f, g] for f in P.fields for g in list(P.params) + den] + [["*", "0", nm[0]], ["*", "-", nm[0], nm[0], nm[-1]]]
            seqs += [["d", "d", nm[0], a, b] for a in den for b in den] + [["^3", nm[0]], ["^2", "-", nm[0], nm[-1]], ["/", "-", nm[0], nm[-1], "d", nm[0], den[0]]]
            if big:
                seqs = [seqs[i] for i in rng.permutation(len(seqs))[:12]]
            seqs += [random_toks(rng, nm, den, int(rng.integers(2, 5))) for _ in range(10 if big else 40)]
            for s in seqs:
                ev.append(term_event(ctx, s))
            # the same tree evaluated again, and together with others, has the same value
            deep = [["*", "^2", nm[0], "-", nm[0], nm[-1]], ["*", nm[0], "d", "*", nm[0], nm[-1], den[0]], ["d", "^2", nm[0], den[-1]], ["^3", "+", nm[0], "^2", nm[-1]], ["*", "d^2", nm[0], den[0], "^2", nm[-1]]]
            deep += sorted(seqs, key=len)[-5:]
            tr = [build(ctx, s) for s in deep]
            one = [term_event(ctx, s, t)["v"] for s, t in zip(deep, tr)]
            two = [term_event(ctx, s, t)["v"] for s, t in zip(deep, tr)]
            ev.append(dict(ev="same", before=one, after=two))
            from h_sga import value
            keep = [t for t, v in zip(tr, one) if v]
            kept, M = value(ctx, list(keep))
            if M is not None:
                ev.append(dict(ev="same", before=[v for v in one if v], after=[fracs(M[:, ctx.num_default + i]) for i in range(len(kept))]))
            ev.append(dict(ev="end"))
            out.append(dict(name="terms-%d-%d" % (k, r), events=ev))
    # the operands an estimator hands to the search for a dataset
    for r in range(3 * T):
        for k, (kw, how) in enumerate([(dict(axes="xt", lhs="t"), dict(legacy=True)), (dict(axes="xt", lhs="t", params=("nu",)), dict(legacy=True)), (dict(axes="xt", lhs="t", sizes=[11, 4], cut=True), dict(legacy=True)),
                                       (dict(axes="tyx", lhs="t", sizes=[4, 4, 4], params=("c",)), {}), (dict(axes="ytx", lhs="x", sizes=[4, 5, 4], fields=("u", "v"), target="v"), dict(explicit=True)),
                                       (dict(axes="xyt", lhs="t", sizes=[4, 4, 4], fields=("v", "w"), target="w"), dict(explicit=True)), (dict(axes="yt", lhs="t", fields=("h",)), {}),
                                       (dict(axes="tx", lhs="t", params=("c",)), {}), (dict(axes="tx", lhs="t", sizes=[4, 10], params=("c",), cut=True), {})]):
            P = Problem(rng, **kw)
            ctx = P.fitted(**how)
            ev = [P.begin(ctx)]
            for s in [random_toks(rng, ev[0]["names"], ev[0]["den"], 3) for _ in range(6)]:
                ev.append(term_event(ctx, s))
            out.append(dict(name="fitted-%d-%d" % (k, r), events=ev + [dict(ev="end")]))
    # derivatives taken from surrogate networks
    for r in range(3 * T):
        for k, kw in enumerate([dict(axes="xt", lhs="t"), dict(axes="tx", lhs="t"), dict(axes="xt", lhs="x"), dict(axes="xt", lhs="t", fields=("u", "v")), dict(axes="yt", lhs="t", fields=("h",)),
                                dict(axes="txy", lhs="t", sizes=[3, 4, 4]), dict(axes="yxt", lhs="t", sizes=[4, 3, 4], fields=("u", "v"), target="v"), dict(axes="xt", lhs="t", params=("c",))]):
            P = Problem(rng, **kw)
            P.x = {a: np.arange(n) * 1.0 - (n // 2) for a, n in zip(P.axes, P.shape)}
            ctx = P.autograd_context(rng, normal=bool(r % 2))
            out.append(dict(name="surrogate-%d-%d" % (k, r), events=[P.begin_autograd(ctx), dict(ev="end")]))
    return out


def run(cx):
    rng = np.random.default_rng(cx.seed)
    a = names(cx, rng)
    b = terms(cx, rng)
    wordkey = lambda t, j: "%s:%s" % (t["events"][j]["ev"], "|".join(wd(v) if isinstance(v, list) and all(isinstance(c, str) for c in v) else str(v) for k, v in t["events"][j].items() if k not in ("ev", "ans")))
    key = lambda t, j: "%s:%s" % (t["events"][j]["ev"], ",".join(t["events"][j].get("toks", t["name"].split("-")[1:2])))
    jobs = [("SgaNamesTrace", a[i::2], wordkey) for i in range(2)] + [("SgaTermTrace", b[i::3], key) for i in range(3)]
    with ThreadPoolExecutor(5) as ex:
        list(ex.map(lambda j: cx.validate(j[0], j[1], key=j[2], what="names and operands"), jobs))

"""C16: the genetic symbolic search keeps, orders and reports its best equation."""
import copy, math
import numpy as np
from concurrent.futures import ThreadPoolExecutor
import h_sga
from h_sga import Problem, Hang, build, rounds, quiet, limit, watching, pde_rec
from common import ranks

LEVEL = "model_checking"
MC = 'CONSTANTS Num = %d Ranks = {%s} MaxC = %d Rounds = %d Emit = %s\nSPECIFICATION Spec\nINVARIANT Elite\nPROPERTIES Monotone Legal\nCHECK_DEADLOCK FALSE\n'
BAD = 1000000


def sig(v):
    return v if not math.isfinite(v) or v == 0 else float("%.9g" % v)


def rank_all(scores):
    fin = ranks([sig(s) if math.isfinite(s) or s == -math.inf else math.nan for s in scores])
    return [f if f >= 0 else BAD + (1 if s == math.inf else 2) for f, s in zip(fin, scores)]


class Scorer:
    """collects raw scores now, ranks them over the whole trace at the end"""
    def __init__(self):
        self.all = []

    def __call__(self, s):
        self.all.append(float(s))
        return ("SCORE", len(self.all) - 1)

    def finish(self, x):
        rk = rank_all(self.all)

        def go(v):
            if isinstance(v, tuple) and len(v) == 2 and v[0] == "SCORE":
                return rk[v[1]]
            if isinstance(v, dict):
                return {k: go(w) for k, w in v.items()}
            if isinstance(v, (list, tuple)):
                return [go(w) for w in v]
            return v
        return go(x)


def members(sc, pool):
    return [dict(t="+".join(t["text"] for t in m["eq"]), s=sc(m["score"])) for m in pool]


def scored(sc, cands):
    return [dict(t="+".join(c["kept"]), s=sc(c["score"]), tiny=c["score"] < -100) for c in cands]


def again(sc, ctx, eq, score, depth):
    from kd.model.sga.sgapde.pde import evaluate_mse
    with quiet(), np.errstate(all="ignore"):
        a = evaluate_mse(copy.deepcopy(eq), ctx)[0]
        b = evaluate_mse(h_sga.make_pde(ctx, None, [t.preorder.split(" ") for t in eq.elements], depth), ctx)[0]
    return dict(ev="again", s=sc(score), copy=sc(a), text=sc(b))


def report(ctx, eq, score, details, target, axis):
    """what is said about an equation, and the scaled energy its score stands for"""
    from kd.model.sga.sgapde.pde import evaluate_mse
    with quiet(), np.errstate(all="ignore"):
        _, w, _ = evaluate_mse(copy.deepcopy(eq.elements), ctx, True, return_matrix=True)
        short = eq.concise_visualize(ctx)
    k = int(np.count_nonzero(w))
    mse = math.exp((score - 2 * k * ctx.config.aic_ratio) / 2)
    pred, ut = np.asarray(details.predicted_rhs, dtype=float).reshape(-1), np.asarray(ctx.ut, dtype=float).reshape(-1)
    S = 100.0 / math.sqrt(mse) if mse > 0 else 0.0
    big = max(np.abs(pred).max(), np.abs(ut).max()) * S
    ok = 0 < S and big < 1e9 and np.abs(pred - ut).max() * S < 8000 and 0 < mse
    lab = lambda t: t.label.replace(" ", "")
    terms = [dict(label=lab(t), cs=str(round(np.real(t.coefficient), 4)), small=bool(abs(t.coefficient) < 1e-4)) for t in details.terms]
    e = dict(ev="report", target=target, axis=axis, lhs=details.lhs, terms=terms, texts=[t.inorder.replace(" ", "") for t in eq.elements], short=short.replace(" ", ""),
             ut=np.round(ut * S).astype(int).tolist() if ok else [0], pred=np.round(pred * S).astype(int).tolist() if ok else [0], energy=int(round(len(ut) * mse * S * S)) if ok else 0)
    p = None
    dropped = bool(np.any((np.abs(w) > 0) & (np.abs(w) < 1.1e-5)))  # below the documented reporting tolerance
    if not dropped and all(abs(t.coefficient) < 30 for t in details.terms) and np.abs(pred).max() < 1e5:
        toks = lambda t: [target] if t.tree is None else t.tree.preorder.split(" ")
        p = dict(ev="pred", terms=[dict(toks=toks(t), c=int(round(t.coefficient * 1024))) for t in details.terms], pred=np.round(pred * 1024).astype(int).tolist())
    return e, p, ok


def search(cx, rng, k, kw, gens, scripted=None):
    """one real search; scripted: score histories handed to it instead of its own evaluation"""
    from kd.model.sga.sgapde.equation import extract_equation_details
    sc = Scorer()
    P = Problem(rng, **kw)
    ctx = P.context()
    par = dict(num=1 if k % 3 == 1 else int(rng.integers(2, 7)), depth=int(rng.integers(3, 5)), width=int(rng.integers(1, 4)), p_mute=float(rng.choice([0.2, 0.5, 0.9])), p_rep=float(rng.choice([0, 0.5, 1.0])), p_cro=float(rng.choice([0.3, 0.6, 1.0])))
    ev, ev2 = [], [P.begin(ctx)]
    try:
        s, rs = rounds(ctx, gens=gens, seed=int(rng.integers(1 << 30)), **par)
    except Hang:
        return dict(name="run-%d" % k, events=[dict(ev="hang")]), None, 0
    ev.append(dict(ev="init", num=par["num"], cands=scored(sc, rs[0]["cands"]), after=members(sc, rs[0]["after"])))
    for r in rs[1:]:
        ev.append(dict(ev="round", kind=r["kind"], before=members(sc, r["before"]), cands=scored(sc, r["cands"]), after=members(sc, r["after"])))
    for e, m in zip(s.eqs, s.mses):
        ev.append(again(sc, ctx, e, m, par["depth"]))
    eq, m = s.the_best()
    ev.append(dict(ev="best", t="+".join(t.inorder for t in eq.elements).replace(" ", ""), s=sc(m)))
    n = 0
    for e, m in list(zip(s.eqs, s.mses))[:3]:
        if math.isfinite(m):
            with quiet(), np.errstate(all="ignore"):
                d = extract_equation_details(e, ctx)
            if d.predicted_rhs is not None:
                a, p, ok = report(ctx, e, m, d, P.target, P.lhs)
                n += ok
                ev.append(a)
                if p:
                    ev2.append(p)
    return dict(name="run-%d" % k, events=sc.finish(ev)), dict(name="run-%d" % k, events=ev2 + [dict(ev="end")]), n


def replayed(cx, rng, hist, k):
    """the specification's score histories, fed to the real population operators"""
    import random
    from kd.model.sga.sgapde import pde as A, solver as B
    from kd.model.sga.sgapde.solver import SGA
    sc = Scorer()
    P = Problem(rng, axes="xt", lhs="t")
    ctx = P.context()
    orig, cur, out = A.evaluate_mse, [], []
    val = {0: 1.0, 1: 2.5, 2: 7.0, 3: math.inf}
    txt = lambda e: "+".join(t.inorder for t in e.elements).replace(" ", "")

    def fake(a_pde, context, is_term=False, **kw):
        if is_term:
            return orig(a_pde, context, is_term, **kw)
        s = val[cur.pop(0)] if cur else 50.0 + len(out)
        out.append(dict(t=txt(a_pde), s=sc(s), tiny=False))
        return s, np.ones((1, 1))
    ev = []
    np.random.seed(int(rng.integers(1 << 30)))
    random.seed(int(rng.integers(1 << 30)))
    A.evaluate_mse = fake
    had = getattr(B, "evaluate_mse", None) is orig
    if had:
        B.evaluate_mse = fake
    try:
        with quiet(), limit(60):
            cur[:] = hist[0]
            s = SGA(context=ctx, num=len(hist[0]), depth=3, width=2, p_var=0.5, p_mute=0.6, p_rep=0.7, p_cro=1.0, pde_lib=[], err_lib=[])
            pool = lambda: [dict(t=txt(e), s=sc(m)) for e, m in zip(s.eqs, s.mses)]
            ev.append(dict(ev="init", num=len(hist[0]), cands=list(out), after=pool()))
            for i, q in enumerate(hist[1:]):
                cur[:] = q
                del out[:]
                b = pool()
                (s.cross_over if i % 2 == 0 else lambda p: s.change(0.6, 0.7))(1.0)
                ev.append(dict(ev="round", kind=i % 2, before=b, cands=list(out), after=pool()))
            e, m = s.the_best()
            ev.append(dict(ev="best", t=txt(e), s=sc(m)))
    except Hang:
        ev.append(dict(ev="hang"))
    finally:
        A.evaluate_mse = orig
        if had:
            B.evaluate_mse = orig
    return dict(name="scores-%s" % k, events=sc.finish(ev))


def estimator(cx, rng, k, kw, how):
    """a fit through the estimator: what it reports is the best of everything it scored"""
    from kd.model.kd_sga import KD_SGA
    sc = Scorer()
    P = Problem(rng, **kw)
    P.stored = (P.target, P.lhs)
    log = []
    depth = int(rng.integers(3, 5))
    m = KD_SGA(sga_run=3, num=5, depth=depth, width=3, seed=int(rng.integers(10000)), p_mute=0.5, p_cro=0.8, primary_spatial_axis=P.cfg.get("primary_spatial_axis"), **(dict(target_field=P.target) if how.get("legacy") else {}))
    try:
        with quiet(), np.errstate(all="ignore"), watching(log), limit(120):
            m.fit_dataset(P.dataset(how.get("legacy", False)))
    except Hang:
        return dict(name="fit-%d" % k, events=[dict(ev="hang")])
    ev = [dict(ev="whole", t=m.best_pde_.replace(" ", ""), best=sc(m.best_score_), cands=scored(sc, log))]
    # the reported details against the equation itself
    toks = []
    for c in log:
        if "+".join(c["kept"]) == m.best_pde_.replace(" ", ""):
            toks = [t["pre"] for t in c["cand"] if t["text"] in c["kept"]]
    eq = h_sga.make_pde(m.context_, None, toks, depth)
    d = m.best_equation_details_
    if d is not None and d.predicted_rhs is not None and math.isfinite(m.best_score_):
        e, p, ok = report(m.context_, eq, m.best_score_, d, P.target, P.lhs)
        ev.append(e)
        ev.append(again(sc, m.context_, eq, m.best_score_, depth))
    return dict(name="fit-%d" % k, events=sc.finish(ev))


PLANS = [dict(axes="xt", lhs="t"), dict(axes="tx", lhs="t", params=("nu",)), dict(axes=["y", "t"], lhs="t", fields=("h",)), dict(axes="xt", lhs="x"), dict(axes="txy", lhs="t", sizes=[4, 4, 4]),
         dict(axes="xt", lhs="t", fields=("u", "v"), target="v"), dict(axes="xt", lhs="t", sizes=[6, 5], pool=[1, 2, 0.5, -1])]


def run(cx):
    rng = np.random.default_rng(cx.seed)
    cx.model_check("SgaPoolMC", MC % (3, "0, 1, 2", 2, 2, "FALSE"))
    cases = cx.generate("SgaPoolMC", MC % (2, "0, 1, 2", 2, 2, "TRUE"))
    T = 3 if cx.thorough else 1
    pick = rng.permutation(len(cases))[:(400 if cx.thorough else 110)]
    a, b, n = [], [], 0
    for k in pick:
        h = list(cases[k])
        h = [[r if r < 2 or rng.random() < 0.7 else 3 for r in q] if i else q for i, q in enumerate(h)]
        a.append(replayed(cx, rng, h + [[int(v) for v in rng.integers(0, 4, size=3)]], k))
    for r in range(40 * T):
        h = [[int(v) for v in rng.integers(0, 3, size=int(rng.integers(1, 6)))]]
        h += [[int(v) for v in rng.integers(0, 4, size=int(rng.integers(0, 10)))] for _ in range(6)]
        a.append(replayed(cx, rng, h, "long%d" % r))
    for r in range(2 * T):
        for k, kw in enumerate(PLANS):
            x, y, m = search(cx, rng, 10 * r + k, kw, 5 if cx.thorough else 3)
            n += m
            a.append(x)
            if y:
                b.append(y)
    for k, (kw, how) in enumerate([(PLANS[0], dict(legacy=True)), (dict(axes="xt", lhs="t", fields=("h",)), dict(legacy=True)), (PLANS[1], {}), (PLANS[4], {}), (PLANS[5], {}), (PLANS[2], {})] * T):
        a.append(estimator(cx, rng, k, kw, how))
    cx.note("scores_explained_by_the_reported_prediction", n)
    key = lambda t, j: "%s:%s:%s" % (t["name"].split("-")[0], t["events"][j]["ev"], t["events"][j].get("kind", ""))
    jobs = [("SgaPoolTrace", a[i::3]) for i in range(3)] + [("SgaTermTrace", b)]
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(lambda j: cx.validate(j[0], j[1], key=key, what="population"), jobs))

"""C15: candidate terms stay well-formed under construction, mutation, crossover, replacement and copying."""
import copy
import numpy as np
from concurrent.futures import ThreadPoolExecutor
from h_sga import Problem, Hang, build, random_toks, tree_rec, pde_rec, make_pde, rounds, quiet, limit

LEVEL = "model_checking"
MC = 'CONSTANTS Depth = 3 Vars = {"u", "x", "0"} Den = {"x"} UseOps = {"+", "*", "d", "^2", "^3"} Emit = TRUE\nSPECIFICATION Spec\nINVARIANTS Sound Readable\nPROPERTY ShapeKept\nCHECK_DEADLOCK FALSE\n'
MC2 = 'CONSTANTS Depth = 3 Vars = {"u", "y", "x"} Den = {"x", "y"} UseOps = {"-", "/", "d", "d^2", "^2"} Emit = FALSE\nSPECIFICATION Spec\nINVARIANTS Sound Readable\nPROPERTY ShapeKept\nCHECK_DEADLOCK FALSE\n'
PLANS = [dict(axes="xt", lhs="t"), dict(axes=["y", "t"], lhs="t", fields=("h",)), dict(axes="xt", lhs="x", params=("nu",)), dict(axes="txy", lhs="t", sizes=[4, 4, 4]),
         dict(axes="xt", lhs="t", simple_mode=False), dict(axes="ytx", lhs="y", sizes=[4, 4, 5], fields=("u", "v"), simple_mode=False), dict(axes="tx", lhs="t", fields=("u", "v"), params=("nu",))]


def begin(ctx, depth):
    return dict(ev="ctx", vars=[str(r[0]) for r in ctx.VARS], den=[a for a in ctx.axis_order if a != ctx.lhs_axis], depth=depth)


def attempt(f):
    """None, or the event that says the operator did not come back or raised"""
    try:
        with quiet(), limit(8):
            f()
    except Hang:
        return dict(ev="hang")
    except Exception as ex:
        return dict(ev="raised", what="%s: %s" % (type(ex).__name__, str(ex)[:120]))


def vary(ctx, pop, who, op, f):
    before = [pde_rec(ctx, p) for p in pop]
    bad = attempt(f)
    return bad or dict(ev="vary", op=op, who=who + 1, before=before, after=[pde_rec(ctx, p) for p in pop])


def run(cx):
    from kd.model.sga.sgapde.tree import Tree
    from kd.model.sga.sgapde.pde import PDE
    rng = np.random.default_rng(cx.seed)
    cases = cx.generate("SgaTreeMC", MC)
    cx.model_check("SgaTreeMC", MC2)
    T = 4 if cx.thorough else 1
    traces, reached = [], set()
    # every small tree of the specification as real objects, then mutated
    P = Problem(rng, axes="xt", lhs="t")
    ctx = P.context()
    for k in range(0, len(cases), 110):
        ev = [begin(ctx, 3)]
        for toks in cases[k:k + 110]:
            p = make_pde(ctx, rng, [toks, ["*", "u", "x"]], 3)
            q = make_pde(ctx, rng, [["^2", "u"]], 3)
            ev.append(dict(ev="tree", t=tree_rec(ctx, p.elements[0]), want=toks))
            np.random.seed(int(rng.integers(1 << 30)))
            pm = float(rng.choice([1.0, 0.6, 0.3]))
            ev.append(vary(ctx, [p, q], 0, "mutate", lambda: p.mutate(pm)))
        traces.append(dict(name="all-%d" % (k // 110), events=ev))
    # the real constructors on every kind of problem
    for r in range(2 * T):
        for k, kw in enumerate(PLANS):
            ctx = Problem(rng, **kw).context()
            for depth, pv in ((2, 0.5), (3, 0.3), (4, 0.5), (5, 0.6), (4, 0.0), (4, 1.0)):
                ev = [begin(ctx, depth)]
                np.random.seed(int(rng.integers(1 << 30)))
                for _ in range(12):
                    got = []
                    bad = attempt(lambda: got.append(Tree(ctx, depth, pv)))
                    ev.append(bad or dict(ev="tree", t=tree_rec(ctx, got[0])))
                    if got:
                        reached.add(got[0].preorder)
                pop = []
                if attempt(lambda: pop.extend(PDE(ctx, depth, 4, pv) for _ in range(4))):
                    ev.append(dict(ev="raised", what="PDE construction"))
                for n in range(14 if pop else 0):
                    i = int(rng.integers(len(pop)))
                    op = ["mutate", "replace", "mutate", "copy", "still", "mutate", "replace"][n % 7]
                    if op == "copy":
                        a = copy.deepcopy(pop[i])
                        ev.append(vary(ctx, pop + [a], len(pop), "mutate", lambda: a.mutate(1.0)))
                        pop[i] = a
                        continue
                    pm = float(rng.choice([1.0, 0.5, 0.2]))
                    ev.append(vary(ctx, pop, i, op, (lambda: pop[i].mutate(pm)) if op == "mutate" else (lambda: pop[i].mutate(0.0)) if op == "still" else pop[i].replace))
                traces.append(dict(name="ops-%d-%d-d%d-v%s" % (k, r, depth, pv), events=ev))
    # whole variation rounds of the search
    for r in range(T):
        for k, kw in enumerate(PLANS):
            ctx = Problem(rng, **{**kw, "pool": [1, 2, 3, 4, 0.5, -1, -2, 1.5]}).context()
            depth = [4, 3, 4, 3, 3, 3, 4][k]
            num = [5, 6, 4, 4, 6, 4, 5][k]
            ev = [begin(ctx, depth)]
            try:
                s, rs = rounds(ctx, num, depth, [3, 4, 2, 3, 1, 3, 2][k], 4, int(rng.integers(1 << 30)), p_mute=[0.3, 0.8, 0.1, 0.5, 0.3, 0.5, 0.3][k], p_rep=[1.0, 0.5, 0.3, 1.0, 0.0, 0.5, 1.0][k], p_cro=[0.5, 1.0, 0.8, 1.0, 0.5, 1.0, 1.0][k])
            except Hang:
                rs, s = [], None
                ev.append(dict(ev="hang"))
            for x in rs:
                if x["kind"] == "init":
                    for c in x["cands"]:
                        ev += [dict(ev="tree", t=t) for t in c["cand"]]
                    continue
                ev.append(dict(ev="round", kind=x["kind"], before=[m["eq"] for m in x["before"]], cands=[c["cand"] for c in x["cands"]], after=[m["eq"] for m in x["after"]], ws=[m["w"] for m in x["after"]]))
            if s is not None:
                pop = copy.deepcopy(s.eqs)
                for i in range(len(pop)):
                    ev.append(vary(ctx, pop, i, "mutate", lambda: pop[i].mutate(0.7)))
            traces.append(dict(name="rounds-%d-%d" % (k, r), events=ev))
    cx.note("distinct_trees_constructed", len(reached))
    key = lambda t, j: "%s:%s:%s" % (t["name"].rsplit("-", 1)[0], t["events"][j]["ev"], t["events"][j].get("op", t["events"][j].get("kind", t["events"][j].get("what", ""))))
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(lambda i: cx.validate("SgaTreeTrace", traces[i::4], key=key, what="variation"), range(4)))

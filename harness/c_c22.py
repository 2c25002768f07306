"""C22: typeset equations denote the discovered equation."""
from types import SimpleNamespace as NS
from concurrent.futures import ThreadPoolExecutor
import numpy as np
import h_tex
from h_sga import Problem, build, random_toks, quiet

LEVEL = "model_checking"
MC = 'CONSTANTS Depth = %d Leaves = {%s} Emit = %s\nSPECIFICATION Spec\nINVARIANTS ReadsBack Separates\nCHECK_DEADLOCK FALSE\n'
EXACT = [1, -1, 0.25, -0.5, 2, -3.25, 12.5, 0.0125, 100, -0.0001, 0.7, -1.5, 1234.5, 0.001, 0.9962, -1.0031, 1.01, -0.9997]
AR = dict(add=2, mul=2, sub=2, div=2, diff=2, diff2=2, diff3=2, diff4=2, Diff=2, Diff2=2, Diff_3=2, Diff2_3=2, n2=1, n3=1, n4=1, n5=1, lap=1, lap_3=1, sin=1, cos=1, tan=1, exp=1, log=1, sqrt=1, abs=1, sigmoid=1, expneg=1, logabs=1)
AR.update({k + "_t": n for k, n in list(AR.items()) if not k.startswith("D") and not k.endswith("_3")})


def coef(w):
    return dict(w=int(round(w * 10000)) % 46337, wd=10000)


def equation(latex, terms, **k):
    try:
        lhs, rhs = h_tex.sides(latex)
    except ValueError:
        return dict(ev="unreadable", text=latex)
    return dict(ev="eq", lhs=lhs, rhs=rhs, terms=[dict(coef(w), toks=t) for w, t in terms], text=latex, **k)


def precision(latex, w, toks, tol, **k):
    try:
        lhs, rhs = h_tex.sides(latex)
    except ValueError:
        return dict(ev="unreadable", text=latex)
    a = rhs[1:] if rhs and rhs[0].get("s") == "-" else rhs
    first = int(round(float(a[0]["t"]) * 1e7)) if a and a[0]["k"] == "num" else 0
    return dict(ev="coef", lhs=lhs, rhs=rhs, toks=toks, w=int(round(w * 1e7)), shown=first, tol=int(tol), text=latex, **k)


# ---------------------------------------------------------------- Discover
def nodes(toks):
    from kd.model.discover.stridge import Node
    q = list(toks)

    def go():
        t = q.pop(0)
        n = Node(NS(name=t, arity=AR.get(t, 0)))
        n.children = [go() for _ in range(AR.get(t, 0))]
        return n
    return go()


def discover_names(dim, notation, lhs):
    names = [["u", "u1"], ["c", "c"]] + [["p_%d" % i, "p%d" % i] for i in (1, 2, 3)]
    axes = [["t", "t"]] + [[a, "x%d" % (i + 1)] for i, a in enumerate("xyz")]
    if notation == "leibniz":
        names += [["u_1", "u1"]]
        axes += [["x_%d" % i, "x%d" % i] for i in (1, 2, 3)]
    ax = {"t": "t", "x": "x1", "y": "x2", "z": "x3"}[lhs or "t"]
    canon = ["x%d" % (i + 1) for i in range(dim)]
    return dict(names=names, axes=axes, field="u1", axis=ax, canon=canon, space=canon)


def random_discover(rng, dim, depth, ops, leaves, root=True):
    if depth == 0 or (not root and rng.random() < 0.35):
        return [str(rng.choice(leaves))]
    o = str(rng.choice(ops))
    if o.lower().startswith("diff"):
        return [o] + random_discover(rng, dim, depth - 1, ops, leaves, False) + ["x%d" % (1 + rng.integers(dim))]
    r = [o]
    for _ in range(AR[o]):
        r += random_discover(rng, dim, depth - 1, ops, leaves, False)
    return r


def order(toks):
    """total differentiation (bounds the cost of reading back)"""
    n = lambda t: {"diff2": 2, "diff3": 3, "diff4": 4, "Diff2": 2, "Diff2_3": 2, "lap": 2, "lap_3": 2, "d^2": 2}.get(t, 1 if AR.get(t) == 2 and t.lower().startswith("diff") or t == "d" else 0)
    return sum(n(t[:-2] if t.endswith("_t") and t in AR else t) for t in toks)


def powers(toks):
    return sum({"n2": 1, "n3": 2, "n4": 3, "n5": 4, "div": 1, "^2": 1, "^3": 2, "/": 1}.get(t, 0) for t in toks)


def discover(cx, rng, cases):
    from kd.viz.discover_eq2latex import discover_program_to_latex
    out = []

    def emit(name, terms, dim, lhs=None):
        ev = []
        p = NS(w=[w for w, _ in terms], STRidge=NS(terms=[nodes(t) for _, t in terms]))
        for notation in ("subscript", "leibniz"):
            for expand in (True, False):
                with quiet():
                    s = discover_program_to_latex(p, lhs_axis=lhs, notation=notation, expand_derivatives=expand)
                ev.append(equation(s, terms, mode="%s-%s" % (notation, "expanded" if expand else "plain"), **discover_names(dim, notation, lhs)))
        out.append(dict(name=name, events=ev))
    ren = {"u": "u1", "p": "p1", "x": "x1", "y": "x2"}
    for k in rng.permutation(len(cases))[:(700 if cx.thorough else 130)]:
        t = [ren.get(x, x) for x in cases[k]]
        emit("discover-case%d" % k, [(float(rng.choice(EXACT)), t)], 2)
    two = ["diff", "diff2", "mul", "add", "sub", "div", "n2", "n3", "diff3", "Diff", "Diff2", "lap", "diff_t", "diff2_t", "mul_t", "n4"]
    for k in range(300 if cx.thorough else 60):
        dim = int(rng.choice([1, 1, 2, 3]))
        terms = []
        while len(terms) < int(rng.integers(1, 4)):
            t = random_discover(rng, dim, int(rng.integers(1, 4)), two, ["u1", "u1", "p1", "p2"] + ["x%d" % (i + 1) for i in range(dim)], rng.random() < 0.9)
            if order(t) <= (4 if dim < 3 else 3) and powers(t) <= 5 and len(t) <= 11:
                terms.append((float(rng.choice(EXACT)), t))
        emit("discover-random%d" % k, terms, dim, [None, "t", "y", "x"][int(rng.integers(4))])
    fixed = ["diff add n2 u1 u1 x1", "diff mul p1 u1 x1", "diff p1 x1", "diff n2 p1 x1", "lap u1", "mul u1 lap n2 u1", "diff mul u1 Diff u1 x2 x1", "mul diff u1 x1 diff u1 x2", "diff mul x1 u1 x1", "sub u1 n2 u1", "n2 diff u1 x1", "diff n2 u1 x1",
             "diff n3 diff u1 x1 x1", "diff2 mul p1 u1 x1", "diff lap u1 x1", "diff div u1 x1 x1", "mul u1 diff diff mul u1 u1 x1 x2", "u1", "x1", "p1", "diff diff u1 x1 x2", "diff lap n2 u1 x2", "diff2 lap u1 x1", "n2 lap u1", "diff div x2 n2 u1 x1", "diff div x2 u1 x1"]
    for k, s in enumerate(fixed):
        for w in (0.5, -1.0):
            emit("discover-fixed%d" % k, [(w, s.split()), (-0.25, ["u1"])] if w > 0 else [(2.0, ["diff2", "u1", "x1"]), (w, s.split())], 2)
    # every operator a function set may name, alone and below a derivative
    every = [(o, [o] + ["u1"] * AR[o]) for o in AR if not o.lower().startswith("diff") and o not in ("lap_3",)] + [(o, [o, "u1", "x1"]) for o in AR if o.lower().startswith("diff")]
    every += [("lap_3", ["lap_3", "u1"]), ("Diff_3", ["Diff_3", "mul", "u1", "u1", "x3"]), ("Diff2_3", ["Diff2_3", "u1", "x3"]), ("diff4", ["diff4", "n2", "u1", "x1"])]
    every += [(o, [o, "mul", "u1", "p1"]) for o in ("sin", "cos", "tan", "exp", "log", "sqrt", "abs", "sigmoid", "expneg", "logabs")]
    every += [("diff-" + o, ["diff", o, "u1", "x1"]) for o in ("sin", "cos", "exp", "log", "sqrt", "sigmoid", "expneg")]
    every += [("mul-" + o, ["mul", o, "u1", "diff", "u1", "x1"]) for o in ("sin", "cos_t", "exp", "log", "sqrt_t", "abs", "sigmoid", "expneg_t", "logabs")]
    for o, t in every:
        dim = 3 if "_3" in o else 2 if "lap" in o or o[0] == "D" else 1
        emit("discover-operator-" + o, [(float(rng.choice([1, -1, 0.25, -0.5, 2, 12.5])), t)] + ([(-1.0, ["u1"])] if rng.random() < 0.4 else []), dim)
    for k in range(12):
        ev = []
        for _ in range(8):
            w = float(rng.choice([rng.normal(), rng.normal() * 10, 10 ** rng.uniform(-5, 1), -10 ** rng.uniform(-4, 0), 1 + rng.normal() * 1e-4, -1 + rng.normal() * 1e-3]))
            t = random_discover(rng, 1, 1, ["diff", "diff2", "n2", "mul"], ["u1"], True)
            p = NS(w=[w], STRidge=NS(terms=[nodes(t)]))
            for notation in ("subscript", "leibniz"):
                with quiet():
                    s = discover_program_to_latex(p, notation=notation, expand_derivatives=False)
                ev.append(precision(s, w, t, 510 + abs(w) * 100, mode="digits", **discover_names(1, notation, None)))
        out.append(dict(name="discover-digits%d" % k, events=ev))
    return out


# ---------------------------------------------------------------- SGA
def sga(cx, rng):
    from kd.model.sga.sgapde.equation import SGAEquationTerm, SGAEquationDetails, sga_equation_to_latex
    plans = [dict(axes="xt", lhs="t"), dict(axes="xt", lhs="t", params=("nu",)), dict(axes="txy", lhs="t", sizes=[4, 4, 4]), dict(axes=["y", "t"], lhs="t", fields=("h",)), dict(axes="xt", lhs="t", fields=("u", "v"), target="v"), dict(axes="xt", lhs="x"), dict(axes="xt", lhs="t", fields=("rho",), params=("a",))]
    from kd.model.kd_sga import KD_SGA
    AR.update({"+": 2, "-": 2, "*": 2, "/": 2, "d": 2, "d^2": 2, "^2": 1, "^3": 1})
    out = []
    for k, kw in enumerate(plans):
        P = Problem(rng, **kw)
        ctx = P.context()
        den = [a for a in P.axes if a != P.lhs]
        names = [str(n) for n in np.asarray(ctx.VARS)[:, 0]]
        grads = {"%s_%s" % (f, a): (f, a) for f in P.fields for a in den}
        vars_ = [[n, n] for n in list(P.fields) + list(P.params)]
        base = dict(names=vars_, axes=[[a, a] for a in P.axes], field=P.target, axis=P.lhs, canon=den, space=den)

        def plain(toks):
            return [y for t in toks for y in (["d", grads[t][0], grads[t][1]] if t in grads else [t])]
        todo = [["d", "*", P.target] + [g for g in grads][:1] + [den[0]]] + [["^2", "*", "+", P.target, den[0], "+", den[0], P.target], ["^2", "^2", P.target], ["d", "^2", P.target, den[0]], ["^2", "d", P.target, den[0]], ["d^2", "/", P.target, den[0], den[0]],
                ["d", "d", "*", P.target, P.target, den[0], den[-1]], ["*", "+", P.target, den[0], P.target], ["^3", "/", P.target, den[0]], ["d", "-", P.target, den[0], den[0]], ["/", "+", P.target, den[0], "-", P.target, den[0]], ["d"] + [g for g in grads][:1] + [den[-1]], ["d^2"] + [g for g in grads][:1] + [den[0]], ["^2", "-", P.target, "-", den[0], P.target], ["^2"] + [g for g in grads][:1], ["d", "^2"] + [g for g in grads][:1] + [den[0]]]
        n = (120 if cx.thorough else 22)
        while len(todo) < n + 16:
            t = random_toks(rng, names, den, int(rng.integers(1, 4)))
            if order(t) <= 4 and powers(t) <= 4 and len(t) <= 13 and "0" not in t:
                todo.append(t)
        ev = []
        for i, t in enumerate(todo):
            picks = [(float(rng.choice(EXACT)), t)] + ([(float(rng.choice(EXACT)), todo[int(rng.integers(len(todo)))])] if i % 3 == 0 else [])
            terms = [SGAEquationTerm(label=build(ctx, q).inorder, source="generated", coefficient=w, tree=build(ctx, q)) for w, q in picks]
            facts = [(w, plain(q)) for w, q in picks]
            if i % 2:
                w = float(rng.choice(EXACT))
                terms.insert(0, SGAEquationTerm(label=P.target, source="default", coefficient=w))
                facts.insert(0, (w, [P.target]))
            d = SGAEquationDetails(lhs="%s_%s" % (P.target, P.lhs), terms=tuple(terms))
            for notation in ("subscript", "leibniz"):
                ev.append(equation(sga_equation_to_latex(d, notation=notation), facts, mode=notation, **base))
                ev.append(equation(sga_equation_to_latex(d, include_coefficients=False, notation=notation), [(1.0 if w > 0 else -1.0, q) for w, q in facts], mode=notation + "-structure", **base))
        for _ in range(10):
            w = float(rng.choice([rng.normal(), rng.normal() * 10, 10 ** rng.uniform(-5, 1), -10 ** rng.uniform(-4, 0), 1 + rng.normal() * 1e-4]))
            d = SGAEquationDetails(lhs="%s_%s" % (P.target, P.lhs), terms=(SGAEquationTerm(label="t", source="generated", coefficient=w, tree=build(ctx, [P.target])),))
            ev.append(precision(sga_equation_to_latex(d), w, [P.target], 110 + abs(w) * 60, mode="digits", **base))
        out += [dict(name="sga%d-%d" % (k, i), events=ev[i:i + 12]) for i in range(0, len(ev), 12)]
    # equations reported by a real fit
    for k, kw in enumerate([dict(axes="xt", lhs="t"), dict(axes="txy", lhs="t", sizes=[4, 4, 4], params=("nu",)), dict(axes="xt", lhs="t", fields=("h",))]):
        P = Problem(rng, **kw)
        P.stored = (P.target, P.lhs)
        m = KD_SGA(sga_run=1, num=3, depth=3, width=2, seed=int(rng.integers(10000)))
        with quiet(), np.errstate(all="ignore"):
            m.fit_dataset(P.dataset())
        den = [a for a in P.axes if a != P.lhs]
        d = m.best_equation_details_
        if d is None:
            continue
        grads = {"%s_%s" % (f, a): (f, a) for f in P.fields for a in den}
        facts = [[y for t in ([P.target] if q.tree is None else q.tree.preorder.split(" ")) for y in (["d", grads[t][0], grads[t][1]] if t in grads else [t])] for q in d.terms]
        base = dict(names=[[n, n] for n in list(P.fields) + list(P.params)], axes=[[a, a] for a in P.axes], field=P.target, axis=P.lhs, canon=den, space=den)
        if all(order(f) <= 6 for f in facts):
            out.append(dict(name="sga-fit%d" % k, events=[equation(m.equation_latex(include_coefficients=False, notation=nt), [(1.0 if q.coefficient > 0 else -1.0, f) for q, f in zip(d.terms, facts)], mode="fit", **base) for nt in ("subscript", "leibniz")]))
    return out


# ---------------------------------------------------------------- DLGA
DL = {"u": ["u"], "u_x": ["diff", "u", "x"], "u_xx": ["diff2", "u", "x"], "u_xxx": ["diff3", "u", "x"], "u_t": ["diff", "u", "t"], "u_tt": ["diff2", "u", "t"]}


def dlga(cx, rng):
    from kd.viz.dlga_eq2latex import dlga_eq2latex
    out = []
    internal = ["u", "u_x", "u_xx", "u_xxx", "u_t", "u_tt"]
    base = dict(names=[["u", "u"]], axes=[["x", "x"], ["t", "t"]], field="u", canon=["x", "t"], space=["x"])
    for k in range(60 if cx.thorough else 16):
        ev = []
        for _ in range(6):
            ops = [str(o) for o in rng.permutation(internal)[:int(rng.integers(1, 7))]] if rng.random() < 0.7 else None
            names = ops or internal
            chrom = [[int(g) for g in rng.integers(0, len(names), size=int(rng.integers(1, 4)))] for _ in range(int(rng.integers(1, 4)))]
            w = [float(rng.choice(EXACT)) for _ in chrom]
            terms = []
            for c, mod in zip(w, chrom):
                t = DL[names[mod[0]]]
                for g in mod[1:]:
                    t = ["mul"] + t + DL[names[g]]
                terms.append((c, t))
            lhs, ax = [("u_t", "t"), ("u_tt", "tt")][int(rng.integers(2))]
            with quiet():
                s = dlga_eq2latex(chromosome=chrom, coefficients=np.array(w).reshape(-1, 1), lhs_name_str=lhs, operator_names=ops)
            ev.append(equation(s, terms, mode="operators" if ops else "default", axis=ax, **base))
        out.append(dict(name="dlga-%d" % k, events=ev))
    return out


def run(cx):
    rng = np.random.default_rng(cx.seed)
    jobs = []
    cx.model_check("TypesetMC", MC % (2 if cx.thorough else 1, '"u", "p", "x"', "FALSE"))
    cases = cx.generate("TypesetMC", MC % (2, '"u", "p"' if cx.thorough else '"u"', "TRUE"))
    traces = discover(cx, rng, cases) + sga(cx, rng) + dlga(cx, rng)
    key = lambda t, j: "%s:%s:%s" % (t["name"].split("-")[0].rstrip("0123456789"), t["events"][j].get("mode", "?"), t["events"][j]["ev"])
    with ThreadPoolExecutor(6) as ex:
        list(ex.map(lambda i: cx.validate("TypesetTrace", traces[i::6], key=key, what="typeset"), range(6)))

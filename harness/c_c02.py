"""C02: configured search constraints are enforced exactly (masks over every reachable prefix, episodes, retrospective judge)."""
import copy, json, itertools
import numpy as np
import h_sampler as hs
from h_discover import quiet
from c_c01 import build, design, episodes, configurations as c01_confs, BASE

ON = {"on": True}
OFF = {"on": False}


def rel(r, targets, effectors):
    return {"relational": {"targets": targets, "effectors": effectors, "relationship": r, "on": True}}


def configurations(thorough):
    len5 = {"length": {"min_": 3, "max_": 5, "on": True}}
    len6 = {"length": {"min_": 3, "max_": 6, "on": True}}
    W = lambda a, b: dict(copy.deepcopy(a), **b)
    alg = dict(function_set=["add", "mul", "n2", "exp", "log"])
    algn = dict(function_set=["add", "mul", "n2"], n_state=2)
    dif = dict(function_set=["add", "mul", "diff", "diff2", "n2"])
    cs = [
        ("child", alg, W(len5, rel("child", "n2,exp", "mul,log"))),
        ("descendant-unary", alg, W(len6, rel("descendant", "add,u1", "exp"))),
        ("descendant-binary", algn, W(len6, rel("descendant", "n2,u2", "mul"))),
        ("descendant-nested", alg, W(len6, rel("descendant", "u1", "mul,exp"))),
        ("sibling", algn, W(len5, rel("sibling", "u1,n2", "u2"))),
        ("sibling-overlap", algn, W(len5, rel("sibling", "u1", "u1,add"))),
        ("uchild", alg, W(len5, rel("uchild", "u1", "n2,add"))),
        ("lchild", algn, W(len5, rel("lchild", "u1", "mul,n2"))),
        ("rchild", algn, W(len5, rel("rchild", "u1,add", "add"))),
        ("two-relational", algn, W(len5, {"relational": [
            {"targets": "u1", "effectors": "n2", "relationship": "child", "on": True},
            {"targets": "u2", "effectors": "add", "relationship": "rchild", "on": True},
            {"targets": "add", "effectors": "add", "relationship": "child", "on": False}]})),
        ("trig", dict(function_set=["add", "sin", "cos", "n2"]), W(len6, {"trig": ON})),
        ("trig-diff", dif, W(len6, {"trig": ON, "diff_right": ON})),
        ("trig-diff-free-right", dif, W(len5, {"trig": ON})),
        ("inverse", dict(function_set=["add", "exp", "log", "sqrt", "n2", "neg"]), W(len5, {"inverse": ON})),
        ("const", dict(function_set=["add", "mul", "n2"], const=True), W(len5, {"const": ON})),
        ("no-inputs", dict(function_set=["add", "n2"], const=True, n_input=2), W(len5, {"no_inputs": ON})),
        ("repeat-op", algn, W(len6, {"repeat": {"tokens": "add", "min_": None, "max_": 1, "on": True}})),
        ("repeat-many", algn, W(len6, {"repeat": {"tokens": ["add", "u1"], "min_": None, "max_": 2, "on": True}})),
        ("repeat-two", algn, W(len6, {"repeat": [{"tokens": "add", "min_": None, "max_": 1, "on": True}, {"tokens": "mul", "min_": None, "max_": 2, "on": True}]})),
        ("diff-left", dif, W(len5, {"diff_left": ON})),
        ("diff-left-const", dict(function_set=["add", "diff", "n2"], const=True), W(len5, {"diff_left": ON})),
        ("diff-left-strict", dif, W(len5, {"diff_left_strict": ON})),
        ("diff-right", dif, W(len5, {"diff_right": ON})),
        ("diff-right-2d", dict(function_set=["add", "Diff", "Diff2", "n2"], n_input=2, n_state=1), W(len5, {"diff_right": ON})),
        ("diff-right-params", dict(function_set=["add", "diff"], n_param=2, const=True), W(len5, {"diff_right": ON})),
        ("diff-desc", dict(function_set=["add", "sub", "diff", "mul", "n2"]), W(len6, {"diff_descedent": ON, "diff_right": ON})),
        ("diff-desc-extra", dict(function_set=["add", "sub", "diff", "mul", "n2"]), W(len6, {"diff_descedent": {"extra": ["mul"], "on": True}, "diff_right": ON})),
        ("diff-desc-alone", dict(function_set=["add", "sub", "diff", "mul"]), W(len5, {"diff_descedent": ON})),
        ("diff-desc2", dict(function_set=["add", "diff", "mul", "div", "n2"]), W(len6, {"diff_descedent2": ON, "diff_right": ON})),
        ("all-off", dif, W(len5, {k: OFF for k in ("trig", "inverse", "diff_left", "diff_right", "diff_descedent", "no_inputs")})),
        ("soft-only", algn, {"length": {"min_": 3, "max_": 5, "on": True}, "soft_length": {"loc": 3, "scale": 2, "on": True}, "uniform_arity": ON}),
        ("length-min-only", algn, {"length": {"min_": 3, "max_": None, "on": True}, "repeat": {"tokens": ["add", "mul", "n2"], "min_": None, "max_": 2, "on": True}}),
        ("length-max-only", algn, {"length": {"min_": None, "max_": 4, "on": True}}),
        ("no-trig-tokens", algn, W(len5, {"trig": ON, "inverse": ON, "diff_left": ON, "diff_right": ON})),
    ]
    cs += [c for c in c01_confs(thorough)]
    if thorough:
        ext = []
        for n, a, c in cs:
            c2 = copy.deepcopy(c)
            if c2["length"]["max_"]:
                c2["length"]["max_"] += 1
                ext.append((n + "+1", a, c2))
        cs += ext
    return cs


def random_complete(rng, lib, n, maxlen):
    """well-formed expressions, constrained or not (token numbers)"""
    ar = [t.arity for t in lib.tokens]
    term = [i for i, a in enumerate(ar) if a == 0]
    out = []
    while len(out) < n:
        s, d = [], 1
        while d > 0:
            c = rng.integers(0, len(ar)) if len(s) + d < maxlen else term[int(rng.integers(0, len(term)))]
            if not s and ar[c] == 0:
                continue
            s.append(int(c)); d += ar[c] - 1
        out.append(s)
    return out


def parents_siblings_of(s, lib):
    """parent/sibling columns for a complete expression, in the library's own encoding (independent recursion)"""
    ar = [t.arity for t in lib.tokens]
    ops = [i for i, a in enumerate(ar) if a > 0]
    L = len(ar); EP = len(ops)
    par, sib = [None] * len(s), [None] * len(s)
    def go(i, p, q):
        par[i], sib[i] = p, q
        j = i + 1
        prev = L
        for k in range(ar[s[i]]):
            h = s[j]
            j = go(j, ops.index(s[i]), prev)
            prev = h
        return j
    go(0, EP, L)
    return np.array([par], dtype=np.int32), np.array([sib], dtype=np.int32)


def run(cx):
    rng = np.random.default_rng(cx.seed + 2)
    design(cx, ("pde-default",) if not cx.thorough else ("pde-default", "const", "two-fields", "2d-axes", "strict-left", "unary-trig"))
    traces = []
    for name, lk, cfg in configurations(cx.thorough):
        lib, prior = build(lk, cfg)
        conf = dict(ev="conf", lib=hs.describe(lib), cons=hs.spec_constraints(cfg))
        nodes, done = hs.walk(lib, prior, limit_nodes=20000 if cx.thorough else 700, rng=rng, cap_per_level=4000 if cx.thorough else 220)
        ev = [conf] + [dict(ev="mask", seq=n["seq"], allowed=n["allowed"]) for n in nodes]
        ev += [dict(ev="legal", seq=[x + 1 for x in s]) for s in done]
        traces.append(dict(name="walk:" + name, events=ev))
        # the constraints' retrospective judgement of finished expressions (used for expressions not built step by step)
        ev = [conf]
        for s in random_complete(rng, lib, 300 if cx.thorough else 40, 9):
            par, sib = parents_siblings_of(s, lib)
            a = np.array([s], dtype=np.int32)
            try:
                v = bool(prior.is_violated(a, par, sib))
            except Exception as ex:
                ev.append(dict(ev="raised", seq=[x + 1 for x in s], exc="%s: %s" % (type(ex).__name__, ex)))
                continue
            ev.append(dict(ev="judge", seq=[x + 1 for x in s], violated=v))
        traces.append(dict(name="judge:" + name, events=ev))
    traces += episodes(cx, mask=True)
    cx.validate("SamplerTrace", traces, key=lambda t, j: "%s:%s" % (t["events"][j]["ev"], t["name"]), what="constraint masks")

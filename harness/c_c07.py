"""C07: evaluating a candidate computes the expression its tokens denote."""
import itertools, json, re
from fractions import Fraction as F
import numpy as np
from h_discover import quiet
from h_expr import Grid, TorchGrid, UN, PROT

LEVEL = "model_checking"
MC = 'CONSTANTS MaxLen = %d Emit = %s Lib = {"add", "sub", "mul", "div", "n2", "diff", "diff2", "u1", "x1"}\nSPECIFICATION Spec\nINVARIANT SplitSound\nCHECK_DEADLOCK FALSE\n'


def split_ev(G, seq, vals=True):
    """the terms the real regression stage works with, and their values when all of them have one"""
    from kd.model.discover.stridge import STRidge
    s = STRidge([G.tok[t] for t in seq])
    e = dict(ev="split", toks=G.names(seq), terms=[G.names([t.name for t in term]) for term in s.terms_token])
    if vals and not isinstance(G, TorchGrid):
        s.regulation.max_depth = 99
        with quiet():
            r = s.evaluate_terms(G.u, G.x)
        if not isinstance(r, tuple) and all(np.size(a) == np.prod(G.shape) for a in r):
            from h_expr import fracs
            e["vals"] = [fracs(a) for a in r]
    return e


def trace(G, seqs, name):
    ev = [G.begin()]
    for s in seqs:
        with quiet():
            st, v = G.run(s)
        ev.append(dict(ev="eval", toks=G.names(s), st=st, v=v))
        ev.append(split_ev(G, s))
    ev.append(dict(ev="data", **G.data()))
    return dict(name=name, events=ev)


def functions(cx):
    """every elementary function token of the library at the tabulated points"""
    import os
    from common import SPECS
    from kd.model.discover.functions import function_map
    rows = re.findall(r'<<"(\w+)", "([^"]+)", (-?\d+)>>', open(os.path.join(SPECS, "FnTable.tla")).read())
    byname = {}
    for n, p, _ in rows:
        byname.setdefault(n, []).append(p)
    ev = [dict(ev="begin", torch=False, dim=1, shape=[1, 1], leaf=[], x=[], u=[], p=[])]
    for n, ps in byname.items():
        y = np.asarray(function_map[n](np.array([float(F(p)) for p in ps])), dtype=float)
        for p, v in zip(ps, y):
            ev.append(dict(ev="fn", name=n, at=p, val=int(round(v * 10000))))
    return dict(name="elementary functions", events=ev)


def run(cx):
    import torch
    torch.set_num_threads(1)
    rng = np.random.default_rng(cx.seed)
    cases = cx.generate("ExprMC", MC % (6 if cx.thorough else 5, "TRUE"))
    traces = [functions(cx)]
    # every expression of the small library, on 1-D data
    order = [cases[i] for i in rng.permutation(len(cases))]
    order = order if cx.thorough else order[:1500]
    for k in range(0, len(order), 60):
        G = Grid(rng, 1)
        traces.append(trace(G, order[k:k + 60], "all-%d" % (k // 60)))
    # random wider ones on data of every dimension
    T = 4 if cx.thorough else 1
    plans = [(1, dict(n_state=1)), (1, dict(n_state=2, n_param=1)), (1, dict(protected=True, n_param=1, pool=[0, 0, 1, -1, 2, -2, 3])), (1, dict(pool=[0, 1, -1, 4, 9, 0.25])),
             (2, dict()), (2, dict(equal=True, n_param=1)), (2, dict(n_state=2)), (3, dict()), (3, dict(equal=True, n_param=1)), (2, dict(protected=True))]
    for r in range(10 * T):
        for k, (dim, kw) in enumerate(plans):
            G = Grid(rng, dim, **kw)
            seqs = [G.random(rng, int(rng.integers(1, 4 if dim == 3 else 5))) for _ in range(10 if dim == 1 else 6 if dim == 2 else 4)]
            # every derivative with respect to every coordinate, and every coordinate used as a factor
            from h_expr import DER, LAP
            if r == 0 or cx.thorough:
                for i in range(dim):
                    seqs.append(["mul", "u1", "x%d" % (i + 1)])
                    seqs.append(["add", "n2", "x%d" % (i + 1), "u1"])
                    seqs += [[d, "u1", "x%d" % (i + 1)] for d in DER[dim]]
                for i in range(1, dim + 1):
                    for j in range(1, dim + 1):
                        d1, d2 = str(rng.choice(DER[dim])), str(rng.choice(DER[dim]))
                        seqs.append(["mul", d1, "u1", "x%d" % i, d2, "u1", "x%d" % j])
                        seqs.append([d1, "mul", "u1", "x%d" % i, "x%d" % j])
                        if dim > 1:
                            seqs.append([d1, d2, "u1", "x%d" % i, "x%d" % j])
                seqs += [[l, "u1"] for l in LAP[dim]]
                seqs += [[o, "u1"] for o in UN]
            traces.append(trace(G, seqs, "dim%d-%d-%d" % (dim, k, r)))
    for r in range(60 * T):
        G = TorchGrid(rng, dim=[1, 1, 2][r % 3], n_state=1 + (r % 4 == 0))
        seqs = [G.random(rng, int(rng.integers(1, 4))) for _ in range(8)]
        seqs += [["mul_t", "diff_t", "u1", "x1", "diff2_t", "u1", "x%d" % G.dim], ["diff_t", "mul_t", "u1", "x1", "x%d" % G.dim]]
        seqs += [["diff_t", "u1", "x1"], ["diff2_t", "n2_t", "u1", "x1"], ["lap_t", "u1"]]
        traces.append(trace(G, seqs, "torch-%d" % r))
    st = {}
    for t in traces:
        for e in t["events"]:
            if e["ev"] == "eval":
                st[e["st"]] = st.get(e["st"], 0) + 1
    cx.note("evaluations_by_outcome", st)
    n = (len(traces) + 3) // 4
    from concurrent.futures import ThreadPoolExecutor
    key = lambda t, j: "%s:%s" % (t["events"][j]["ev"], ",".join(t["events"][j].get("toks", [t["events"][j].get("name", "data")])))
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(lambda i: cx.validate("ExprTrace", traces[i::4], key=key, what="evaluation"), range(4)))

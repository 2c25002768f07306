"""C18: the network-assisted genetic search keeps aligned, elitist populations."""
import copy, random
import numpy as np
from concurrent.futures import ThreadPoolExecutor
from h_dlga import model, fresh, rec, plain, sig, Watch, OPS
from h_sga import quiet
from common import ranks

LEVEL = "model_checking"
MC = 'CONSTANTS Size = %d Rank <- R\nSPECIFICATION Spec\nINVARIANTS Aligned Sorted Full Head1\nPROPERTY Elite\nCHECK_DEADLOCK FALSE\n'
MCMOD = "---- MODULE DlgaPopR ----\nEXTENDS DlgaPopMC\nR == <<%s>>\n====\n"


def score_event(m, chrom, coef, fit, name):
    """the claimed score in exact integers, or nothing when the numbers are too extreme to state so"""
    coef = np.asarray(coef, dtype=float).reshape(-1)
    th = np.asarray(m.Theta.numpy(), dtype=float)
    y = (m.u_t if name == "u_t" else m.u_tt).reshape(-1)
    if len(coef) != len(chrom):
        return dict(ev="score", chrom=chrom, w=[0] * len(coef), rows=[], y=[], fit=0, pen=0, other=0)
    cols = np.column_stack([np.prod(th[:, mod], axis=1) for mod in chrom])
    big = max(np.abs(cols * coef).max() * len(chrom), np.abs(y).max(), abs(fit) ** 0.5, 1e-9)
    S = 4000.0 / max(np.abs(y - cols @ coef).max(), (max(fit, 0) * 1.0) ** 0.5, 1e-6)
    S = min(S, 1e7 / big / 16, 1e4)
    n = len(y)
    if not np.isfinite(S) or S < 0.5 or abs(fit) * n * S * S > 1e9 or np.abs(coef).max() * S * 16 * np.abs(cols).max() * len(coef) > 1.5e9:
        return None
    o = (m.u_tt if name == "u_t" else m.u_t).reshape(-1, 1)
    v = np.linalg.svd(np.hstack((o, cols)), full_matrices=False)[2].T[:, -1]
    v = -(v / (v[0] + 1e-8))[1:]
    other = float(np.sum((o.reshape(-1) - cols @ v) ** 2)) / n + m.epi * sum(map(len, chrom))
    # rounding of the coefficients themselves must stay far below the residual scale
    return dict(ev="score", chrom=chrom, w=[int(round(c * S * 16)) for c in coef], rows=th.astype(int).tolist(), y=[int(round(v * S * 16)) for v in y], fit=int(round(fit * n * S * S)), pen=int(round(m.epi * n * S * S)), other=int(round(min(other * n * S * S, 2e9))))


def problem(rng, k, L):
    n = int(rng.integers(9, 16))
    lib = rng.choice([-2, -1, 0, 1, 2, 3], size=(n, L))
    lib[:, 0] = rng.choice([-2, -1, 1, 2, 3], size=n)
    kind = k % 4
    ut = rng.integers(-6, 7, size=n)
    utt = rng.integers(-9, 10, size=n)
    if kind == 1:      # an exact first-order law
        ut = 2 * lib[:, 0] - lib[:, min(1, L - 1)] * lib[:, 0]
    elif kind == 2:    # an exact second-order law
        utt = 3 * lib[:, L - 1] + lib[:, 0]
    elif kind == 3:    # symmetric library: many exact ties
        lib[:, 1:] = lib[:, :1]
    return lib, ut, utt


def search(cx, rng, base, k, size, gens, L, **attrs):
    lib, ut, utt = problem(rng, k, max(L, 4) if base else L)
    m = model(base, OPS[:L], float(rng.choice([0.0, 0.01, 0.5])), size, gens, lib, ut, utt, **attrs)
    L = 4 if base else L
    ev = [dict(ev="begin", lib=L, size=size)]
    s = int(rng.integers(1 << 30))
    random.seed(s)
    np.random.seed(s % (1 << 31))
    raw, marks, extra = [], [], []
    try:
        with Watch() as w, quiet(), np.errstate(all="ignore"):
            out = m.evolution()
    except Exception as ex:
        return ev + [dict(ev="raised", what="evolution: %s: %s" % (type(ex).__name__, str(ex)[:100]), size=size, gens=gens)], m, s
    def R(v):
        raw.append(sig(v))
        return ("R", len(raw) - 1)
    for c in w.calls:
        ag = [fresh(m, x) for x in c["before"]]
        kept = c["after"][:len(c["fit"])]
        af = [fresh(m, x) for x in kept]
        ev.append(dict(ev="select", before=c["before"], scores=[R(x[1]) for x in ag], after=c["after"], kept=[R(f) for f in c["fit"]],
                       recs=[rec(f, co, nm) for f, co, nm in zip(c["fit"], c["coef"], c["name"])], again=[rec(x[1], x[0], x[2]) for x in af]))
        for f, co, nm, ch in list(zip(c["fit"], c["coef"], c["name"], kept))[:3]:
            e = score_event(m, ch, co, f, nm)
            if e:
                extra.append(e)
    ev.append(dict(ev="result", chrom=plain([out[0]])[0], rec=rec(out[2], out[1], out[3]), rank=R(out[2]), history=[R(x) for x in m.fitness_history], gens=gens,
                   log=[dict(g=e["generation"], f=R(e["fitness"]), p=e["population_size"]) for e in m.evolution_history]))
    rk = ranks(raw)

    def go(v):
        if isinstance(v, tuple):
            return rk[v[1]]
        if isinstance(v, dict):
            return {a: go(b) for a, b in v.items()}
        return [go(x) for x in v] if isinstance(v, list) else v
    if any(r < 0 for r in rk):
        return None, m, s
    cx.count("scores_recomputed_exactly", len(extra))
    return go(ev[:1] + extra + ev[1:]), m, s


def operators(rng, base, k, size, L):
    """single steps from arbitrary legal populations"""
    lib, ut, utt = problem(rng, k, max(L, 4) if base else L)
    m = model(base, OPS[:L], 0.01, size, int(rng.integers(1, 9)), lib, ut, utt, mutate_rate=float(rng.choice([0.4, 1.0])), delete_rate=float(rng.choice([0.5, 1.0, 0.0])), add_rate=float(rng.choice([0.4, 1.0])))
    L = 4 if base else L
    ev = [dict(ev="begin", lib=L, size=size)]
    s = int(rng.integers(1 << 30))
    random.seed(s)
    np.random.seed(s % (1 << 31))
    m.Chrom = [m.random_genome() for _ in range(size)]
    ev.append(dict(ev="op", op="born", before=[], after=plain(m.Chrom)))
    for n in range(6):
        for op, f in (("cross", "cross_over"), ("mutate", "mutation"), ("dedup", "delete_duplicates")):
            before = plain(m.Chrom)
            try:
                with quiet():
                    getattr(m, f)()
            except Exception as ex:
                return ev + [dict(ev="raised", what="%s: %s: %s" % (f, type(ex).__name__, str(ex)[:100]))]
            ev.append(dict(ev="op", op=op, before=before, after=plain(m.Chrom)))
    return ev


def run(cx):
    rng = np.random.default_rng(cx.seed)
    for size, R in ((4, "3, 1, 3, 2"), (3, "1, 2, 1, 4"), (5 if cx.thorough else 4, "1, 1, 2, 2"), (1, "2, 1, 3"), (2, "2, 1, 2, 3")):
        cx.model_check("DlgaPopR", MC % size, files={"DlgaPopR.tla": MCMOD % R})
    traces = []
    T = 5 if cx.thorough else 1
    sizes = [(8, 6), (6, 10), (7, 5), (12, 3), (5, 8), (2, 4), (9, 1), (20, 4)]
    for r in range(T):
        for base in (False, True):
            for k, (size, gens) in enumerate(sizes):
                for L in ((1, 3, 6) if not base else (4,)):
                    ev, m, s = search(cx, rng, base, k + r, size, gens, L, verbose=bool(k % 2), mutate_rate=float(rng.choice([0.4, 1.0])), genes_prob=float(rng.choice([0.6, 0.2, 0.9])))
                    if ev is None:
                        cx.count("searches_without_finite_scores")
                        continue
                    traces.append(dict(name="%s-search-size%d-gens%d-lib%d-r%d" % ("base" if base else "kd", size, gens, L, r), events=ev))
            for k in range(8):
                size = [2, 3, 4, 5, 6, 8, 11, 16][k]
                traces.append(dict(name="%s-ops-size%d-r%d" % ("base" if base else "kd", size, r), events=operators(rng, base, k, size, [1, 2, 3, 4, 6, 5, 2, 6][k])))
    key = lambda t, j: "%s:%s" % ("-".join(t["name"].split("-")[:2]), t["events"][j].get("op", t["events"][j].get("what", t["events"][j]["ev"]).split(":")[0]))
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(lambda i: cx.validate("DlgaPopTrace", traces[i::4], key=key, what="population"), range(4)))

"""C23: sequences of the language-model search are grammatical, exclusions hold, and what is scored is what is read back."""
import copy
from fractions import Fraction
import numpy as np
from concurrent.futures import ThreadPoolExecutor
from h_eqgpt import mods, Run, surrogates, poly_net, VARS, tiny
from h_sga import quiet

LEVEL = "model_checking"
MC = "CONSTANTS Terms = {7, 8%s} Max = %d Emit = %s\nSPECIFICATION Spec\nINVARIANTS Grammatical NeverExcluded Idempotent Faithful CutUnreadable Told\nCHECK_DEADLOCK FALSE\n"
P = 46337
LETTERS = {"t": "t", "x": "x", "y": "y", "z": "z"}
TERMS = ["u", "ux", "uxx", "uxxx", "uxxxx", "uxxxxx", "ux^2", "u^2", "u^3", "(uux)x", "(uux)xx", "(u^3)xx", "(u^4)xx", "(u(u^2)xx)xx", "(1/u)xx", "(u^-2*ux)x", "x", "x^2", "x^4",
         "(uxx+ux/x)^2", "ut", "ut^2", "ut^3", "utt", "uxt", "uxxt", "uxxtt", "(uux)t"]
# the variables a word cannot do without
NEEDS = {"Laplace(u)": "y", "BiLaplace(u)": "y", "Laplace(utt)": "ty"}


def needs(w):
    if w in NEEDS:
        return sorted(NEEDS[w])
    s = w.replace("sqrt", "").replace("sinh", "").replace("sin", "").replace("exp", "").replace("Laplace", "").replace("Bi", "")
    return sorted({c for c in s if c in "txyz"})


def steps(cx, rng, C, G, n):
    """single steps from arbitrary logits and exclusions"""
    import torch, random
    ev = []

    class Stub:
        def __init__(self, logits):
            self.l = logits

        def decoder(self, d):
            return torch.zeros(1, d.shape[1], 1), None

        def projection(self, x):
            return self.l.expand(1, x.shape[1], -1)
    V = len(C.id2word)
    for k in range(n):
        mask = torch.tensor((rng.random(V) < rng.choice([0.2, 0.6, 1.0])).astype(np.float32))
        mask[1:5] = 1.0
        mask[int(rng.integers(6, V))] = 1.0
        lg = torch.tensor(rng.normal(0, [0.1, 3.0, 8.0][k % 3], size=V), dtype=torch.float32)
        bad = [i for i in range(6, V) if mask[i] == 0] or [0]
        lg[int(rng.choice(bad))] += 6.0   # an excluded token is the favourite
        if k % 5 == 0:
            lg[:7] += 5.0
        s = [5, 6, 2]
        for _ in range(int(rng.integers(0, 40))):
            s.append(int(rng.choice([2, 3, 4])) if len(s) % 2 == 0 else int(rng.integers(7, V)))
        random.seed(int(rng.integers(1 << 30)))
        np.random.seed(int(rng.integers(1 << 30)))
        with torch.no_grad():
            tok, _ = G.GPT.step(Stub(lg.reshape(1, 1, -1)), s, mask)
        ev.append(dict(ev="step", s=s, mask=[int(x) for x in mask.tolist()], tok=int(tok)))
    return ev


def term_events(rng, C, n):
    """term values at points where u is a known polynomial"""
    import torch
    from kd.model.eqgpt.calculate_terms import calculate_terms
    ev = []
    for _ in range(n):
        c = rng.integers(-2, 3, size=(8, 3))
        c[7, 0] = rng.choice([-1, 1])
        c[6, 1] = rng.choice([-1, 1])
        c[5, 2] = rng.choice([-1, 1])
        x0, t0 = int(rng.choice([-2, -1, 1, 2])), int(rng.choice([-1, 0, 1, 2]))
        # make u a power of two there, so that divisions stay exact
        val = lambda: sum(int(c[i, j]) * x0 ** i * t0 ** j for i in range(8) for j in range(3))
        c[0, 0] += int(rng.choice([1, -1, 2, 4])) - val()
        order = VARS if rng.random() < 0.5 else ["x", "t"]
        pt = [[x0 if v == "x" else t0 for v in order], [1.0, 1.0]]
        net = poly_net(c.tolist())
        f = net if order == VARS else (lambda d, net=net: net(torch.flip(d, [1])))
        ser = lambda dt: [sum(_b(i, k) * int(c[i, j]) * x0 ** (i - k) * _f(j, dt) * (t0 ** (j - dt) if j >= dt else 0) for i in range(k, 8) for j in range(3)) % P for k in range(8)]
        u, v, w = ser(0), ser(1), ser(2)
        for word in TERMS:
            db = torch.tensor(pt, dtype=torch.float64, requires_grad=True)
            r = calculate_terms(word, f, db, list(order), 1, 2)
            q = Fraction(float(np.asarray(r).reshape(-1)[0]))
            ev.append(dict(ev="term", word=word, u=u, v=v, w=w, x0=x0, val=q.numerator % P * pow(q.denominator, P - 2, P) % P))
    return ev


def _b(n, k):
    r = 1
    for i in range(k):
        r = r * (n - i) // (i + 1)
    return r


def _f(n, k):
    r = 1
    for i in range(k):
        r *= n - i
    return r


def random_seq(rng, ids, long=False, cut=False):
    s, n = [6, 2], int(rng.integers(1, 24 if long else 7))
    for k in range(n):
        s.append(int(rng.choice(ids)))
        s.append(int(rng.choice([2, 2, 3, 4])) if k < n - 1 or cut else 1)
    return s


def score_events(cx, rng, C, K, n):
    """scores over integer term columns, exactly; exclusions; numbers out of numberless columns"""
    import torch
    ev = []
    words, ids = C.id2word, [i for i in range(7, len(C.id2word))]
    xs = [i for i in range(6, len(words)) if "x" in words[i].replace("sqrt(x)", "x") or "Laplace" in words[i] or "Div" in words[i]]
    orig = C.calculate_terms
    C.calculate_terms = lambda word, Net, *a: np.array(Net[word], dtype=float)
    try:
        for k in range(n):
            rows = 5
            kind = ["two", "two", "any", "nan", "inf", "ban", "flat"][k % 7]
            pick = [int(x) for x in rng.choice([i for i in ids if i not in (7, 29, 30, 46)] if kind == "two" else ids, size=3, replace=False)]
            if kind == "ban":
                pick = [[7, 29, 8], [7, 30, 8], [29, 30, 8], [7, 19, 21], [22, 46, 9], [7, 19, 31], [9, 29, 46]][int(rng.integers(7))]
            if kind == "two":
                a, b, c = pick
                body = [[6, 2, a, 1], [6, 2, a, 2, b, 1], [6, 2, a, 3, b, 1], [6, 2, a, 3, b, 2, c, 1], [6, 2, a, 2, b, 4, c, 1], [6, 2, a, 2, b, 2, a, 1], [6, 2, a, 3, b, 2, b, 3, a, 1], [6, 2, a, 3, b, 2, b, 4, a, 2, c, 1], [6, 2, b, 2, c, 2, b, 1], [6, 2, b, 4, c, 2, a, 1], [6, 2, a, 4, b, 3, c, 1], [6, 2, a, 4, b, 3, c, 2, b, 1], [6, 2, c, 4, a, 4, b, 2, c, 1], [6, 3, a, 2, b, 4, c, 2, a, 1]][int(rng.integers(14))]
            else:
                body = random_seq(rng, pick if kind == "ban" else [int(x) for x in rng.choice(ids, size=4)], long=k % 2 == 0, cut=k % 11 == 0)
                if kind == "ban":
                    body = body[:-1] + [2, pick[0], 2, pick[1], 2, pick[2], 1] if body[-1] == 1 else body
            nets, dens = [], {body[i + 1] for i in range(1, len(body) - 1, 2) if body[i] == 4}
            for _ in range(int(rng.integers(1, 4))):
                net = {}
                for i in range(6, len(words)):
                    col = rng.integers(-3, 4, size=rows)
                    if i in dens and kind == "two":
                        col = rng.choice([-1, 1], size=rows)
                    net[words[i]] = col.tolist()
                nets.append(net)
            nan = []
            used = [t for t in body[2::2] if t > 5]
            if kind in ("nan", "inf") and used:
                for t in set(rng.choice(used, size=1).tolist()):
                    for net in (nets if rng.random() < 0.6 else nets[:1]):
                        net[words[t]] = [float("nan") if kind == "nan" else float("inf")] * (rows if rng.random() < 0.5 else 1) + [1.0] * 4
                        net[words[t]] = net[words[t]][:rows]
                    nan += [int(t)] if kind == "nan" else []
            if kind == "flat":
                for net in nets:
                    net["ut"] = [0] * rows if rng.random() < 0.5 else [2] * rows
            mask = C.get_mask_invalid(VARS)
            before = [int(x) for x in mask.tolist()]
            with quiet(), np.errstate(all="ignore"):
                r, _, mask = C.calculate_reward(list(body), nets, [None] * len(nets), {}, mask, list(VARS), [1] * len(nets), [1] * len(nets))
                r2, _, _ = C.calculate_reward(list(body), nets, [None] * len(nets), {}, C.get_mask_invalid(VARS), list(VARS), [1] * len(nets), [1] * len(nets))
            fin = bool(np.isfinite(r))
            sc = lambda v: int(round(float(v) * 10000)) if np.isfinite(v) and abs(v) < 1e5 else "F:%r" % float(v)
            if fin and abs(r) < 1e5 or not fin:
                ev.append(dict(ev="number", s=body, finite=fin, score=sc(r) if fin and abs(r) < 1e5 else 0, again=sc(r2) if fin and abs(r2) < 1e5 else 0, xs=xs))
            ev.append(dict(ev="excl", s=body, before=before, after=[int(x) for x in mask.tolist()], nan=nan))
            if kind == "two" and fin:
                cl = C.delete_duplicate(list(body))
                cases, ok = [], True
                for net in nets:
                    cols = _columns(cl, net, words)
                    ok = ok and all(np.all(np.isfinite(x)) and np.all(x == np.round(x)) for x in cols) and 2 <= len(cols) <= 3
                    if not ok:
                        break
                    A = np.array(cols)
                    g = A[1:] @ A[1:].T
                    ok = ok and len({tuple(x) for x in cols}) == len(cols) and abs(np.linalg.det(g)) > 0.5 and np.var(A[0]) > 0
                    cases.append([[int(t), [int(v) for v in net[words[t]]]] for t in sorted(set(cl[::2]))])
                if ok and abs(r) < 5:
                    ev.append(dict(ev="score", s=body, cases=cases, score=sc(r), xs=xs))
                    cx.count("scores_decided_exactly")
    finally:
        C.calculate_terms = orig
    return ev


def _columns(cl, net, words):
    cols, cur, div = [], 1.0, False
    for t, o in zip(cl[::2], cl[1::2]):
        v = np.array(net[words[t]], dtype=float)
        cur = cur / v if div else cur * v
        div = o == 4
        if o in (1, 2):
            cols.append(cur)
            cur = 1.0
    return cols


def run(cx):
    import torch
    rng = np.random.default_rng(cx.seed)
    K, G, C = mods()
    words = C.id2word
    seqs = cx.generate("EqSeqMC", MC % ("", 8, "TRUE"))
    cx.model_check("EqSeqMC", MC % (", 9", 10 if cx.thorough else 8, "FALSE"))
    T = 6 if cx.thorough else 1
    traces = []
    for k in range(0, len(seqs), 400):
        traces.append(dict(name="clean-all-%d" % (k // 400), events=[dict(ev="clean", s=s, out=[int(x) for x in C.delete_duplicate(list(s))]) for s in seqs[k:k + 400]]))
    ids = list(range(7, len(words)))
    ev = []
    for k in range(150 * T):
        s = random_seq(rng, rng.choice(ids, size=[2, 3, 6][k % 3]).tolist(), long=k % 2 == 0, cut=k % 7 == 0)
        ev.append(dict(ev="clean", s=s, out=[int(x) for x in C.delete_duplicate(list(s))]))
    traces.append(dict(name="clean-random", events=ev))
    ev = []
    for vs in (["t", "x"], ["x", "t"], ["t", "x", "y"], ["t", "x", "y", "z"], ["x", "y"], ["t", "y"]):
        m = C.get_mask_invalid(list(vs))
        ev.append(dict(ev="mask", vars=vs, needs=[[] for _ in range(6)] + [needs(w) for w in words[6:]], mask=[int(x) for x in m.tolist()]))
    traces.append(dict(name="mask", events=ev))
    traces.append(dict(name="terms", events=term_events(rng, C, 6 * T)))
    for k in range(3 * T):
        traces.append(dict(name="steps-%d" % k, events=steps(cx, rng, C, G, 60)))
        traces.append(dict(name="score-%d" % k, events=score_events(cx, rng, C, K, 84)))
    # printing and training data
    ev = []
    for k in range(40 * T):
        ss = [random_seq(rng, rng.choice(ids, size=4).tolist(), long=k % 4 == 0, cut=k % 9 == 0) for _ in range(3)]
        ss = [s if k % 2 else (s[:-1] if s[-1] == 1 else s) for s in ss]
        eqs, _ = K.KD_EqGPT._format_results(copy.deepcopy(ss), [3.0, 2.0, 1.0], words, C.delete_duplicate, C.word2id)
        tr = K.KD_EqGPT._prepare_train_data(copy.deepcopy(ss), [3.0, 2.0, 1.0], C.word2id, words, C.delete_duplicate)
        for s, e, t in zip(ss, eqs, tr):
            ev.append(dict(ev="text", s=s, text=e, words=[[i, words[i]] for i in sorted(set(s) | {1, 2})]))
            ev.append(dict(ev="train", s=s, out=[int(x) for x in t]))
    traces.append(dict(name="texts", events=ev))
    # whole searches
    plans = [dict(kind="fine", bias={1: 0.5}), dict(kind="fine", bias={1: -6.0}), dict(kind="zero", bias={1: 1.0, 24: 3.0, 47: 3.0}), dict(kind="fine", bias={6: 9.0, 12: 9.0, 51: 9.0, 1: 1.0}), dict(kind="zero", bias={1: 0.0})]
    for k, p in enumerate(plans * T):
        sg = surrogates(rng, p["kind"])
        seed = int(rng.integers(1000))
        kw = dict(seed=seed, epochs=2, samples=[14, 8, 14, 10, 12][k % 5], nets=sg, bias=p["bias"], weights=k)
        r = Run(cx.scratch, **kw)
        ev = [dict(ev="step", s=s, mask=m, tok=t) for s, m, t in r.steps]
        ev += [dict(ev="seq", s=s, mask=m, max=G.max_pos - 2) for s, m, _ in r.seqs]
        ev += [dict(ev="train", s=a, out=b) for s, o in r.train for a, b in zip(s, o)]
        if k % 5 in (0, 2):
            torch.manual_seed(99)
            r2 = Run(cx.scratch, **kw)
            ev.append(dict(ev="same", a=[s for s, _, _ in r.seqs], b=[s for s, _, _ in r2.seqs]))
        if r.error and not r.seqs:
            ev.append(dict(ev="raised", what=r.error))
        cx.count("sequences_generated", len(r.seqs))
        cx.count("sequences_cut_at_the_limit", sum(1 for s, _, _ in r.seqs if s[-1] != 1))
        cx.count("searches_that_excluded_terms", int(any(m != r.steps[0][1] for _, m, _ in r.steps)))
        traces.append(dict(name="search-%d" % k, events=ev))
    key = lambda t, j: "%s:%s:%s" % (t["name"].split("-")[0], t["events"][j]["ev"], t["events"][j].get("word", ""))
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(lambda i: cx.validate("EqSeqTrace", traces[i::4], key=key, what="sequence"), range(4)))

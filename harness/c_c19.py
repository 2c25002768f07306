"""C19: gene i is the i-th configured operator, in the library, the text and the typeset equation."""
import contextlib, io, os, re
import numpy as np
from concurrent.futures import ThreadPoolExecutor
from h_sga import quiet
from h_dlga import OPS
from c_c22 import equation, DL

LEVEL = "model_checking"
MC = 'CONSTANTS Max = %d Unknown = {"u_y"} Emit = %s\nSPECIFICATION Spec\nINVARIANTS Aligned Refused Told\nCHECK_DEADLOCK FALSE\n'
BASE = dict(names=[["u", "u"]], axes=[["x", "x"], ["t", "t"]], field="u", canon=["x", "t"], space=["x"])
BADOPS = ["u_y", "ux", "uxx", "U", "u_xxxx", "", "u ", "u_txx", "sin"]


def poly(c):
    import torch

    class Poly(torch.nn.Module):
        """a fixed polynomial with a parameter training may move without effect"""
        def __init__(self):
            super().__init__()
            self.p = torch.nn.Parameter(torch.zeros(1))
            self.calls = 0

        def forward(self, d):
            self.calls += 1
            x, t = d[:, 0:1], d[:, 1:2]
            u = 0 * (x * t) ** 4 + 0 * self.p
            for i, row in enumerate(c):
                for j, v in enumerate(row):
                    if v:
                        u = u + float(v) * x ** i * t ** j
            return u
    return Poly()


def new(ops, verbose=False, max_iter=1, **kw):
    from kd.model.kd_dlga import KD_DLGA
    m = KD_DLGA(operators=ops, epi=0.01, input_dim=2, verbose=verbose, max_iter=max_iter)
    for k, v in kw.items():
        setattr(m, k, v)
    return m


def field(rng):
    c = np.zeros((5, 4), dtype=int)
    for _ in range(8):
        c[rng.integers(0, 5), rng.integers(0, 4)] = rng.integers(-2, 3)
    c[3, 2] = rng.choice([-1, 1])
    c[1, 1] = rng.choice([-2, 1])
    pts = np.column_stack([rng.integers(-3, 4, size=7), rng.integers(-3, 4, size=7)])
    return c.tolist(), pts


def ints(a):
    a = np.asarray(a, dtype=float)
    return np.round(a).astype(int).tolist() if np.all(np.isfinite(a)) and np.all(np.abs(a - np.round(a)) < 1e-3) and np.all(np.abs(a) < 2e9) else [[repr(a.tolist()[:2])]]


def lib(cx, rng, ops, state={}):
    import torch
    c, pts = field(rng)
    m = new(list(ops))
    m.Net = poly(c)
    m.best_epoch = 500
    os.makedirs("model_save", exist_ok=True)
    torch.save(m.Net.state_dict(), "model_save/Net_500.pkl")
    m.Net = poly(c)
    try:
        with quiet():
            th = m.generate_meta_data(pts.astype(float))
    except (ValueError, KeyError, TypeError) as e:
        return dict(ev="refused", ops=list(ops), trained=False)
    meta = [dict(name=k, vals=ints(np.asarray(v).reshape(-1))) for k, v in sorted(m.metadata.items())]
    return dict(ev="lib", ops=list(ops), c=c, pts=pts.tolist(), theta=ints(th.detach().cpu().numpy()), ut=ints(m.u_t.reshape(-1)), utt=ints(m.u_tt.reshape(-1)), meta=meta)


NUM = r"(?:\d+\.?\d*(?:e[+-]?\d+)?|nan|inf)"


def parse(text):
    """'u_t=0.5*u*u_x-1.0*u_xx' -> lhs, terms; None when it does not read so"""
    if text.count("=") != 1:
        return "", [dict(w=0, names=["unreadable: " + text])]
    lhs, rhs = text.split("=")
    pos, terms = 0, []
    rhs = rhs.strip()
    while pos < len(rhs):
        m = re.compile(r"\s*([+-]?)\s*(%s)\s*\*\s*([A-Za-z_]\w*(?:\s*\*\s*[A-Za-z_]\w*)*)" % NUM).match(rhs, pos)
        if not m or (terms and not m.group(1)):
            return lhs.strip(), [dict(w=0, names=["unreadable: " + text])]
        w = float(m.group(2)) * (-1 if m.group(1) == "-" else 1)
        terms.append(dict(w=int(round(w * 1e4)) if abs(w) < 1e5 else 10 ** 9, names=[x.strip() for x in m.group(3).split("*")]))
        pos = m.end()
    return lhs.strip(), terms


def text_event(text, ops, ind, coef, name):
    lhs, terms = parse(text)
    w = [float(x) for x in np.asarray(coef, dtype=float).reshape(-1)]
    return dict(ev="text", lhs=lhs, name=name, terms=terms, ops=list(ops), ind=[[int(g) for g in mod] for mod in ind], coefs=[int(round(x * 1e4)) if abs(x) < 1e5 else 10 ** 9 for x in w], text=text)


def product(coef, ind, ops):
    terms = []
    for w, mod in zip(coef, ind):
        t = DL[ops[mod[0]]]
        for g in mod[1:]:
            t = ["mul"] + t + DL[ops[g]]
        terms.append((w, t))
    return terms


def fitted(cx, rng, k, fits, typeset):
    """whole fits on polynomial data"""
    import random
    n_ops = int(rng.integers(1, 7))
    ops = [str(o) for o in rng.permutation(OPS)[:n_ops]]
    c, pts = field(rng)
    m = new(list(ops), max_iter=2, pop_size=[4, 6, 9][k % 3], n_generations=2)
    m.Net = poly(c)
    X = np.array([[x, t] for x in range(-2, 3) for t in range(-2, 3)], dtype=float)
    if k % 2:
        X = X[rng.permutation(len(X))]
    with quiet():
        import torch
        y = m.Net(torch.tensor(X, dtype=torch.float32)).detach().numpy().astype(float)
    y = y if k % 3 else y.reshape(-1)
    random.seed(int(rng.integers(1 << 30)))
    np.random.seed(int(rng.integers(1 << 30)))
    buf = io.StringIO()
    from kd.model.kd_dlga import KD_DLGA
    final = []
    orig = KD_DLGA.evolution

    def watch(self, *a, **kw):
        r = orig(self, *a, **kw)
        final.append(r)
        return r
    KD_DLGA.evolution = watch
    Xb, yb = X.copy(), y.copy()
    try:
        with contextlib.redirect_stdout(buf), np.errstate(all="ignore"):
            with contextlib.redirect_stderr(io.StringIO()):
                m.fit(X, y)
    finally:
        KD_DLGA.evolution = orig
    ev = []
    ind, coef, name = m.Chrom[0], np.asarray(m.coef[0], dtype=float).reshape(-1), m.name[0]
    line = [s for s in buf.getvalue().splitlines() if s.startswith("equation form:")]
    shown = line[-1].split(":", 1)[1].strip() if line else "nothing was reported"
    if ind:
        ev.append(text_event(shown, ops, ind, coef, name))
    ev.append(dict(ev="fit", reported="%s|%s|%s" % (final[0][0], np.round(np.asarray(final[0][1], dtype=float).reshape(-1), 6).tolist(), final[0][3]), head="%s|%s|%s" % (ind, np.round(coef, 6).tolist(), name)))
    meta = [dict(name=a, vals=ints(np.asarray(v).reshape(-1))) for a, v in sorted(m.metadata.items())]
    ev.append(dict(ev="lib", ops=list(ops), c=c, pts=X.astype(int).tolist(), theta=ints(m.Theta.detach().cpu().numpy()), ut=ints(m.u_t.reshape(-1)), utt=ints(m.u_tt.reshape(-1)), meta=meta))
    ev.append(dict(ev="fit", reported="data unchanged", head="data unchanged" if np.array_equal(X, Xb) and np.array_equal(y, yb) else "data changed"))
    fits.append(dict(name="fit-%d" % k, events=ev))
    if ind and np.all(np.abs(coef) < 2e4):
        terms = product([float("%.4f" % x) for x in coef], ind, ops)
        typeset.append(dict(name="fit-%d" % k, events=[equation(m.eq_latex, terms, mode="fit", axis={"u_t": "t", "u_tt": "tt"}[name], **BASE)]))
        cx.count("fits_typeset")


def best(cx, rng, k):
    """training along a prescribed path of network states, checkpointed every 500 steps"""
    import torch
    n = int(rng.integers(3, 6))
    h = [float(x) for x in rng.permutation([0.1, 0.5, 0.8, 1.0, 1.3, 1.9])[:n]]
    if k % 2 == 0 and 1.0 not in h:
        h[int(rng.integers(n))] = 1.0

    class Drift(torch.autograd.Function):
        @staticmethod
        def forward(ctx, p):
            return p.detach().clone()

        @staticmethod
        def backward(ctx, g):
            return -torch.ones(1)     # the parameter moves steadily whatever the loss

    class Net(torch.nn.Module):
        def __init__(self):
            super().__init__()
            self.p = torch.nn.Parameter(torch.zeros(1))

        def forward(self, d):
            q = Drift.apply(self.p)
            i = min(int((float(q) + 0.02) / 0.5 - 0.5), n - 1)
            return h[max(i, 0)] * 2.0 * d[:, 0:1] + 0 * d[:, 1:2] ** 3 + 0 * q
    X = np.array([[x, t] for x in (-2., -1., 1., 2.) for t in (0., 1., 2., 3., 4.)])
    y = 2.0 * X[:, 0:1]
    m = new(["u", "u_x"], max_iter=500 * n, pop_size=4, n_generations=1)
    m.Net = Net()
    np.random.seed(int(rng.integers(1 << 30)))
    with quiet():
        net, ep = m.train_NN(X.copy(), (y if k % 2 else y.reshape(-1)).copy())
        m.Net, m.best_epoch = net, ep
        m.generate_meta_data(X)
    seen = float(np.median(np.asarray(m.metadata["u"]).reshape(-1) / (2.0 * X[:, 0])))
    err = [abs(v - 1.0) for v in h]
    order = sorted(set(err))
    used = [i + 1 for i in range(n) if abs(h[i] - seen) < 1e-4]
    return dict(ev="best", ranks=[order.index(e) for e in err], used=used[0] if used else 0, epoch=int(ep))


def run(cx):
    rng = np.random.default_rng(cx.seed)
    T = 6 if cx.thorough else 1
    cx.model_check("DlgaLibMC", MC % (5 if cx.thorough else 4, "FALSE"))
    cases = cx.generate("DlgaLibMC", MC % (4 if cx.thorough else 3, "TRUE"))
    ev = [lib(cx, rng, ops) for ops in cases]
    cx.count("operator_lists_from_the_model", len(ev))
    for k in range(40 * T):
        ops = [str(o) for o in rng.permutation(OPS)[:int(rng.integers(4, 7))]]
        if k % 3 == 0:
            ops.insert(int(rng.integers(len(ops) + 1)), BADOPS[k % len(BADOPS)])
        if k % 7 == 1:
            ops.append(ops[0])
        ev.append(lib(cx, rng, ops))
    traces = [dict(name="library-%d" % i, events=ev[i::6]) for i in range(6)]
    # refused before anything is trained
    ev = []
    for k in range(12 * T):
        ops = [str(o) for o in rng.permutation(OPS)[:int(rng.integers(0, 4))]]
        ops.insert(int(rng.integers(len(ops) + 1)), BADOPS[k % len(BADOPS)])
        m = new(ops, pop_size=4, n_generations=1)
        m.Net = poly(field(rng)[0])
        try:
            with quiet():
                m.fit(np.array([[x, t] for x in range(3) for t in range(3)], dtype=float), np.arange(9.0).reshape(-1, 1))
            ev.append(dict(ev="accepted", ops=ops))
        except Exception:
            ev.append(dict(ev="refused", ops=ops, trained=m.Net.calls > 0))
    traces.append(dict(name="refused", events=ev))
    # texts of arbitrary individuals
    ev = []
    for k in range(120 * T):
        ops = [str(o) for o in rng.permutation(OPS)[:int(rng.integers(1, 7))]]
        ind = [[int(g) for g in rng.integers(0, len(ops), size=int(rng.integers(1, 4)))] for _ in range(int(rng.integers(1, 5)))]
        coef = np.array([float(rng.choice([1.0, -1.0, 0.5, 0.9962, -1.0031, -0.00004, 1e-6, -3.14159, 0.1235, 250.0, 12345.678, rng.normal()])) for _ in ind]).reshape(-1, 1)
        name = ["u_t", "u_tt"][k % 2]
        with quiet():
            ev.append(text_event(new(ops).convert_chrom_to_eq(ind, name, coef), ops, ind, coef, name))
    traces.append(dict(name="texts", events=ev))
    # the typeset equation of an individual, with whatever coefficients a fit may give
    from kd.viz.dlga_eq2latex import dlga_eq2latex
    typeset = []
    for k in range(60 * T):
        ops = [str(o) for o in rng.permutation(OPS)[:int(rng.integers(1, 7))]]
        ind = [[int(g) for g in rng.integers(0, len(ops), size=int(rng.integers(1, 4)))] for _ in range(int(rng.integers(1, 5)))]
        coef = [float(rng.choice([1.0, -1.0, 0.9962, -1.0031, 0.9997, 1.01, 0.5, -0.1235, 12.5, 100.0])) for _ in ind]
        name = ["u_t", "u_tt"][k % 2]
        with quiet():
            s = dlga_eq2latex(chromosome=ind, coefficients=np.array(coef).reshape(-1, 1), lhs_name_str=name, operator_names=ops)
        typeset.append(dict(name="typeset-%d" % k, events=[equation(s, product(coef, ind, ops), mode="fit", axis={"u_t": "t", "u_tt": "tt"}[name], **BASE)]))
    for k in range(8 * T):
        fitted(cx, rng, k, traces, typeset)
    traces.append(dict(name="checkpoints", events=[best(cx, rng, k) for k in range(3 * T)]))
    key = lambda t, j: "%s:%s" % (t["name"].split("-")[0], t["events"][j]["ev"])
    jobs = [("DlgaLibTrace", traces[i::3]) for i in range(3)] + [("TypesetTrace", typeset[i::2]) for i in range(2)]
    with ThreadPoolExecutor(5) as ex:
        list(ex.map(lambda j: cx.validate(j[0], j[1], key=key, what="operators"), [j for j in jobs if j[1]]))

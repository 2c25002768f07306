"""C32: the sparse-data search scores and fits on the field its network has at that moment."""
import hashlib, os
import numpy as np
from types import SimpleNamespace
from h_discover import quiet, nd_like, burgers_like
from common import ranks

LEVEL = "model_checking"
MC = """CONSTANTS NC = %d V = %d K = %d Forget = TRUE Emit = %s
SPECIFICATION Spec
INVARIANTS FieldIsNets Fresh ReportedBest Rounds
PROPERTIES CarryBetter
CHECK_DEADLOCK FALSE
"""
NETC = {"number_layer": 2, "n_hidden": 8, "duration": 1}
FITDEF = dict(coefs=True, weight=0, asked=0, signs=0, agree=0, far=0, observed=0)
FIELDDEF = dict(value=True, rate=True, slopes=True, strange=0, outside=0, missing=0)


def estimator(conf, n=12, seed=3):
    from kd.model.kd_discover import KD_Discover_SPR
    return KD_Discover_SPR(n_iterations=1, n_samples_per_batch=n, seed=seed, config_out={"pinn": dict(NETC, **conf)})


# ------------------------------------------------ the model's histories, on the real alternation and candidate cache
class Searcher:
    def __init__(self, log):
        self.log, self.k = log, 0

    def search(self, n_epochs=1, verbose=False, keep_history=True, **kw):
        return self.log.search(keep_history)


class Net:
    def __init__(self, log):
        self.log = log

    def pretrain(self):
        self.log.pretrain()

    def train_pinn(self, program_pde, count=1, coef=0.1, local_sample=True, last=False):
        self.log.fit(program_pde, coef)

    def generate_meta_data(self):
        return None, None, {}


class Log:
    """stand-ins for network, task and sampler that record; scores[v] is what candidates earn on field v"""
    def __init__(self, U, k, plan, keep):
        from kd.model.discover.program import Program, from_tokens
        self.P, self.make, self.U, self.plan, self.seqs = Program, from_tokens, U, plan, keep
        self.v, self.net, self.round, self.ev, self.carry, self.coef = 0, 0, 0, [dict(ev="begin", net=0, k=k)], None, None

    # task
    task_type, stochastic, max_depth, noise_level, spatial_error, add_const, cut_ratio = "pde_pinn", False, 9, 0, False, False, 0.03

    def reward_function(self, p):
        c = self.seqs.index(tuple(int(t) for t in p.tokens))
        p.invalid, p.cached_terms, p.error_node, p.error_type = False, None, None, None
        return self.score(c), [1.0 + c + 10 * self.v] * len(p.STRidge.terms), None, None

    def evaluate(self, p):
        return {"nmse_test": 0.0, "success": False}

    def generate_meta_data(self, model, generation_type="AD", plot=False):
        self.v = self.net
        self.ev.append(dict(ev="field", net=self.net, **FIELDDEF))

    def score(self, c):
        return float(self.plan[self.v - 1][0][c]) / 4

    # network
    def pretrain(self):
        self.net += 1
        self.ev.append(dict(ev="pretrain", before=self.net - 1, after=self.net, lost=0, strange=0))

    def ident(self, p):
        return self.seqs.index(tuple(int(t) for t in p.tokens)) + 1

    def fit(self, ps, coef):
        p = ps[0]
        c = self.ident(p) - 1
        self.carry = c
        self.net += 1
        p.r_ridge
        self.ev.append(dict(ev="fit", before=self.net - 1, after=self.net, eq=c + 1, **dict(FITDEF, coefs=bool(len(ps) == 1 and p.w[0] == 1.0 + c + 10 * self.v), weight=int(round(coef * 1000)), asked=int(round(self.coef * 1000)))))

    # search
    def search(self, keep):
        import numpy as np
        scores, asked = self.plan[self.round]
        self.round += 1
        ps = [self.make(np.array(self.seqs[c], dtype=np.int32)) for c in asked]
        rs = [p.r_ridge for p in ps]
        best = ps[int(np.argmax(rs))]
        held = [p for p in self.P.cache.values() if "r_ridge" in p.__dict__]
        stale = sum(p.r_ridge != self.score(self.ident(p) - 1) for p in held)
        self.ev.append(dict(ev="search", net=self.net, stale=stale, scored=len(held), own=True, found=self.ident(best), fs=int(best.r_ridge * 4),
                            cs=0 if self.carry is None else int(self.score(self.carry) * 4)))
        return {"program": best, "r": best.r_ridge, "expression": best.str_expression, "traversal": repr(best)}


def replay(cx, U, ds, k, plan, seqs, coef):
    from kd.model.discover.program import Program
    m = estimator({"iter_num": k, "coef_pde": coef})
    with quiet():
        m.import_dataset(ds, sample=20, colloc_num=10, random_state=1)
        log = Log(U, k, plan, seqs)
        log.coef, log.library = coef, U.lib
        Program.clear_cache()
        Program.set_task(log)
        Program.default_terms = []
        m.searcher, m.denoise_pinn = Searcher(log), Net(log)
        res = m.callIterPINN(1, False)
    p = res["program"]
    log.ev.append(dict(ev="end", eq=log.ident(p), own=p.r_ridge == log.score(log.ident(p) - 1)))
    return dict(name="alternation", events=log.ev)


# ------------------------------------------------------------------------------------ real networks and real searches
def state(net):
    return hashlib.sha1(b"".join(v.detach().cpu().numpy().tobytes() for v in net.state_dict().values())).hexdigest()


def rows(a):
    a = np.ascontiguousarray(np.asarray(a, dtype=np.float32))
    return [r.tobytes() for r in a]


def arr(x):
    return np.asarray(x.detach().cpu().numpy() if hasattr(x, "detach") else x, dtype=np.float32)


def extra(a, b):
    """how many rows a has that b has not, with multiplicity"""
    from collections import Counter
    return sum((Counter(a) - Counter(b)).values())


class Watch:
    def __init__(self, m, k, coef):
        self.m, self.k, self.coef = m, k, coef
        self.ids, self.eqs, self.ev, self.carry, self.reals = {}, {}, [], None, []
        self.first, self.found = True, None

    def net(self):
        return self.ids.setdefault(state(self.m.denoise_pinn.nn), len(self.ids) + 1)

    def eq(self, p):
        return self.eqs.setdefault(tuple(int(t) for t in p.tokens), len(self.eqs) + 1)

    def fresh(self, p):
        from kd.model.discover.program import Program
        import warnings
        q = Program(np.array(p.tokens, dtype=np.int32))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r, w, _, _ = Program.task.reward_function(q)
        return float(r), [float(x) for x in np.ravel(w)]

    def same(self, p):
        r, w = self.fresh(p)
        eq = lambda a, b: a == b or (a != a and b != b) or abs(a - b) <= 1e-7 * max(1, abs(a))
        pw = [float(x) for x in np.ravel(p.w)]
        return eq(r, float(p.r_ridge)) and len(w) == len(pw) and all(abs(a - b) <= 1e-5 * max(1, abs(a)) or a != a for a, b in zip(w, pw))

    def begin(self):
        self.ev.append(dict(ev="begin", net=self.net(), k=self.k))

    def pretrain(self, real):
        net = self.m.denoise_pinn
        d = self.m.data_class.get_data()
        b = self.net()
        real()
        want = rows(np.vstack([np.hstack([d["X_u_train"], d["u_train"]]), np.hstack([d["X_u_val"], d["u_val"]])]))
        got = rows(np.hstack([arr(x) for x in net.x] + [arr(net.t), arr(net.u_train)]))
        self.ev.append(dict(ev="pretrain", before=b, after=self.net(), lost=extra(want, got), strange=extra(got, want)))

    def field(self, task):
        import torch
        net, d = self.m.denoise_pinn, self.m.data_class.get_data()
        lb, ub = [torch.tensor(np.asarray(d[k], dtype=np.float32)) for k in ("lb", "ub")]
        cols = [torch.tensor(arr(c)).reshape(-1, 1).requires_grad_(True) for c in list(task.x) + [task.t]]
        u = net.nn(2 * (torch.cat(cols, 1) - lb) / (ub - lb) - 1)
        g = torch.autograd.grad(u.sum(), cols)
        close = lambda a, b: a.shape == b.shape and bool(np.allclose(a, b, rtol=1e-3, atol=1e-5 * (1 + np.abs(b).max())))
        gu = torch.autograd.grad(task.u[0].sum(), list(task.x), retain_graph=True, allow_unused=True)
        slopes = len(task.x) == len(cols) - 1 and all(a is not None and close(arr(a), arr(b)) for a, b in zip(gu, g))
        pts = np.hstack([arr(c) for c in cols])
        F = np.asarray(d["X_f_train"], dtype=np.float32)
        q = float(task.cut_ratio)
        lo, hi = np.quantile(F, q, axis=0), np.quantile(F, 1 - q, axis=0)
        e = 1e-5 * (hi - lo)
        inner, outer = np.all((F > lo + e) & (F < hi - e), axis=1), np.any((F < lo - e) | (F > hi + e), axis=1)
        have = rows(pts)
        self.ev.append(dict(ev="field", net=self.net(), value=close(arr(task.u[0]), arr(u)), rate=close(arr(task.ut).reshape(-1, 1), arr(g[-1])), slopes=bool(slopes), strange=extra(have, rows(F)),
                            outside=len(set(have) & set(rows(F[outer]))), missing=extra(rows(F[inner]), have)))

    def search(self, real):
        self.found = None
        from kd.model.discover.program import Program
        res = real()
        p = self.found = res["program"]
        held = [x for x in list(Program.cache.values()) if "r_ridge" in x.__dict__]
        stale = sum(not self.same(x) for x in held)
        f, c = float(p.r_ridge), None if self.carry is None else self.fresh(self.carry)[0]
        fs, cs = (1, 0) if c is None or c != c else (int(f > c + 1e-12), int(c > f + 1e-12)) if abs(f - c) > 1e-12 else (0, 0)
        self.ev.append(dict(ev="search", net=self.net(), stale=stale, scored=len(held), own=bool(res["expression"] == p.str_expression and float(res["r"]) == float(p.r_ridge)),
                            found=self.eq(p), fs=fs, cs=cs))
        return res

    def fit(self, ps, coef, local, real):
        import torch
        net, d = self.m.denoise_pinn, self.m.data_class.get_data()
        before = {k: v.clone() for k, v in net.nn.state_dict().items()}
        b = self.net()
        p = ps[0]
        ok = len(ps) == 1 and self.same(p)
        real()
        after = {k: v.clone() for k, v in net.nn.state_dict().items()}
        e = dict(FITDEF, coefs=bool(ok), weight=int(round(float(coef) * 1000)), asked=int(round(self.coef * 1000)))
        if local:
            obs = np.vstack([np.hstack([d["X_u_train"], d["u_train"]]), np.hstack([d["X_u_val"], d["u_val"]])])[:, :-1]
            L = np.hstack([arr(x) for x in net.x_local] + [arr(net.t_local)])
            span = np.asarray(d["ub"]) - np.asarray(d["lb"])
            e["far"] = int(sum(np.max(np.abs(obs - r) / span, axis=1).min() > 0.0101 for r in L))
            e["observed"] = int(sum(np.max(np.abs(L - r) / span, axis=1).min() > 0.0101 for r in obs))
        if self.first and net.pinn_epoch == 1:
            e["signs"], e["agree"] = self.descent(p, before, after, local, obs if local else None)
        self.first = False
        self.ev.append(dict(ev="fit", before=b, after=self.net(), eq=self.eq(p), **e))
        self.carry = p

    def descent(self, p, before, after, local, obs):
        """the first step goes down the misfit to all observations plus the weighted penalty"""
        import torch
        from kd.model.discover.program import Program
        net, d = self.m.denoise_pinn, self.m.data_class.get_data()
        net.nn.load_state_dict(before)
        T = lambda a: torch.tensor(np.asarray(a, dtype=np.float32))
        lb, ub = T(d["lb"]), T(d["ub"])
        f = lambda X: net.nn(2 * (X - lb) / (ub - lb) - 1)
        X, y = T(np.vstack([d["X_u_train"], d["X_u_val"]])), T(np.vstack([d["u_train"], d["u_val"]]))
        loss = ((f(X) - y) ** 2).mean()

        def penalty(P):
            c = [T(P[:, i:i + 1]).requires_grad_(True) for i in range(P.shape[1])]
            u = f(torch.cat(c, 1))
            ut = torch.autograd.grad(u.sum(), c[-1], create_graph=True)[0]
            rhs = 0
            for w, tk in zip(np.ravel(p.w), p.STRidge.terms_token):
                rhs = rhs + float(w) * Program.execute_function(tk, [u], c[:-1])[0]
            return ((ut - rhs) ** 2).mean()
        pen = penalty(np.asarray(d["X_f_train"]))
        if local:
            pen = pen + penalty(np.hstack([arr(x) for x in net.x_local] + [arr(net.t_local)]))
        total = loss + self.coef * pen
        ps = list(net.nn.parameters())
        names = [k for k, _ in net.nn.named_parameters()]
        g = torch.autograd.grad(total, ps, allow_unused=True) if torch.isfinite(total) else [None]
        net.nn.load_state_dict(after)
        if any(x is None or not torch.isfinite(x).all() for x in g):
            return 0, 0
        n = a = 0
        gm = max(float(x.abs().max()) for x in g)
        for k, x in zip(names, g):
            big = x.abs() > 1e-2 * gm
            s = (after[k] - before[k])[big]
            n += int(big.sum())
            a += int((torch.sign(s) == -torch.sign(x[big])).sum())
        return n, a


def real_run(cx, ds, conf, seed, n=60, twice=False, samp=30):
    """one training, watched from outside"""
    import kd.model.discover.pinn as P
    import kd.model.discover.searcher as S
    from kd.model.discover.task.pde.pde_pinn import PDEPINNTask
    k, coef = conf["iter_num"], conf["coef_pde"]
    m = estimator(conf, n, seed)
    W = Watch(m, k, coef)
    old = (P.PINN_model.pretrain, P.PINN_model.train_pinn, S.Searcher.search, PDEPINNTask.generate_meta_data)

    def pretrain(self):
        W.begin()
        self.pretrain_epoch = 3
        W.pretrain(lambda: old[0](self))

    def train_pinn(self, program_pde, count=1, coef=0.1, local_sample=True, last=False):
        W.fit(program_pde, coef, local_sample, lambda: old[1](self, program_pde, count, coef=coef, local_sample=local_sample, last=last))

    def search(self, *a, **kw):
        return W.search(lambda: old[2](self, *a, **kw))

    def meta(self, *a, **kw):
        r = old[3](self, *a, **kw)
        W.field(self)
        return r
    P.PINN_model.pretrain, P.PINN_model.train_pinn, S.Searcher.search, PDEPINNTask.generate_meta_data = pretrain, train_pinn, search, meta
    out = []
    try:
        with quiet():
            m.import_dataset(ds, sample=samp, colloc_num=int(40 + seed % 30), random_state=seed)
            for rep in range(2 if twice else 1):
                W.ev, W.carry, W.first = [], None, True
                try:
                    res = m.train(n_epochs=1, verbose=False)
                except (IndexError, TypeError, AttributeError):
                    if W.found is not None and not W.found.invalid:
                        raise
                    cx.count("runs_without_a_usable_equation")      # nothing valid among the few candidates sampled
                    return out
                p = res["program"]
                W.ev.append(dict(ev="end", eq=W.eq(p), own=bool(W.same(p))))
                out.append(dict(name="real", events=W.ev))
    finally:
        P.PINN_model.pretrain, P.PINN_model.train_pinn, S.Searcher.search, PDEPINNTask.generate_meta_data = old
    return out


def losses(cx, rng, n):
    """the penalty of known equations for fields that are polynomials"""
    import torch
    from kd.model.discover.loss import pinn_loss
    from kd.model.discover.program import Program, from_tokens
    out = []
    for k in range(n):
        dim = 1 + k % 3
        m = estimator({"iter_num": 1, "coef_pde": 1.0})
        with quiet():
            m.import_dataset(burgers_like(12, 10) if dim == 1 else nd_like(dim, 6, 5), sample=20, colloc_num=10, random_state=1)
        L = list(Program.library.names)
        N = int(rng.integers(20, 60))
        C = rng.uniform(0.2, 1.2, (N, dim + 1))
        a, b, s = rng.uniform(0.5, 1.5, 3)
        x = [torch.tensor(C[:, i:i + 1], dtype=torch.float32, requires_grad=True) for i in range(dim)]
        t = torch.tensor(C[:, -1:], dtype=torch.float32, requires_grad=True)
        xi = int(rng.integers(dim))
        net = SimpleNamespace(net_u=lambda X: a * X[:, xi:xi + 1] ** 2 + b * X[:, -1:] * X[:, xi:xi + 1] + s * X[:, -1:] ** 2)
        X, T = C[:, xi], C[:, -1]
        u, ut, ux, uxx = a * X ** 2 + b * T * X + s * T ** 2, b * X + 2 * s * T, 2 * a * X + b * T, 2 * a + 0 * X
        if dim > 1:
            toks, cols = ["add_t", "lap_t", "u1", "n2_t", "u1"], [uxx, u ** 2]
        elif k % 2:
            toks, cols = ["diff_t", "u1", "x%d" % (xi + 1)], [ux]
        else:
            toks, cols = ["add_t", "mul_t", "u1", "diff_t", "u1", "x%d" % (xi + 1), "n2_t", "u1"], [u * ux, u ** 2]
        if any(q not in L for q in toks):
            continue
        p = from_tokens(np.array([L.index(q) for q in toks], dtype=np.int32))
        w = [float(v) for v in rng.normal(size=len(cols))]
        got = float(pinn_loss(net, p, x, t, w))
        want = float(np.mean((ut - sum(c * v for c, v in zip(w, cols))) ** 2))
        # a field the equation u_t = w u_x, or u_t = w lap u, holds for exactly
        net0 = SimpleNamespace(net_u=(lambda X: (X[:, xi:xi + 1] + 1.5 * X[:, -1:]) ** 2) if dim == 1 else (lambda X: X[:, xi:xi + 1] ** 2 + 3 * X[:, -1:]))
        p0 = from_tokens(np.array([L.index(q) for q in (("diff_t", "u1", "x1") if dim == 1 else ("lap_t", "u1"))], dtype=np.int32))
        zero = float(pinn_loss(net0, p0, x, t, [1.5])) < 1e-8
        out.append(dict(name="loss", events=[dict(ev="loss", ratio=int(round(1000 * got / want)), zero=bool(zero))]))
    return out


def run(cx):
    cx.model_check("AlternateMC", MC % (2, 2, 2, "FALSE"))
    cx.model_check("AlternateMC", MC % (3, 1, 1, "FALSE"))
    if cx.thorough:
        cx.model_check("AlternateMC", MC % (3, 2, 1, "FALSE"))
        cx.model_check("AlternateMC", MC % (2, 2, 3, "FALSE"), timeout=800)
    from c_c05 import Universe
    U = Universe()
    rng = np.random.default_rng(cx.seed)
    cwd = os.getcwd()
    os.chdir(cx.scratch)
    traces = []
    try:
        seqs = [s for s in U.seq.values() if len(s) in (2, 3)][:6]
        ds = burgers_like(14, 12)
        hist = cx.generate("AlternateMC", MC % (2, 1, 2, "TRUE"))
        pick = [hist[i] for i in rng.permutation(len(hist))[:400 if cx.thorough else 120]]
        plans = [(2, [([s for s in h["scores"]], [c - 1 for c in h["asked"]]) for h in hs]) for hs in pick]
        for _ in range(120 if cx.thorough else 40):
            k = int(rng.integers(1, 5))
            plans.append((k, [([int(x) for x in rng.integers(0, 6, 6)], [int(x) for x in rng.permutation(6)[:int(rng.integers(1, 7))]]) for _ in range(k + 1)]))
        for k, plan in plans:
            traces.append(replay(cx, U, ds, k, plan, seqs, float(rng.choice([0.1, 0.5, 1.0, 2.0]))))
        runs = [(burgers_like(16, 14, seed=1), dict(iter_num=1, coef_pde=0.3, local_sample=False, pinn_epoch=1), 1, False),
                (burgers_like(16, 14, seed=2), dict(iter_num=1, coef_pde=2.0, local_sample=True, pinn_epoch=1), 2, True),
                (nd_like(2, 7, 6), dict(iter_num=1, coef_pde=0.5, local_sample=True, pinn_epoch=1), 3, False),
                (nd_like(3, 5, 5), dict(iter_num=2, coef_pde=1.0, local_sample=False, pinn_epoch=1), 4, False),
                (burgers_like(12, 16, seed=3), dict(iter_num=3, coef_pde=0.05, local_sample=True, pinn_epoch=4), 5, False),
                (nd_like(2, 6, 7, order=["t", "y", "x"]), dict(iter_num=2, coef_pde=0.7, local_sample=True, pinn_epoch=3), 6, False)]
        for j in range(8 if cx.thorough else 2):
            q = rng
            runs.append((burgers_like(int(q.integers(10, 20)), int(q.integers(10, 20)), seed=j) if j % 2 else nd_like(int(q.integers(2, 4)), 6, 6, seed=j),
                         dict(iter_num=int(q.integers(1, 4)), coef_pde=float(q.choice([0.1, 0.4, 1.5])), local_sample=bool(q.integers(2)), pinn_epoch=int(q.choice([1, 1, 3]))), int(q.integers(1000)), False))
        for ds_, conf, seed, twice in runs:
            traces += real_run(cx, ds_, conf, seed, twice=twice)
        if not any(t["name"] == "real" for t in traces):
            raise RuntimeError("no training found a single usable equation")
        cx.count("trainings_watched", sum(t["name"] == "real" for t in traces))
        traces += losses(cx, rng, 12)
    finally:
        os.chdir(cwd)
    cx.validate("AlternateTrace", traces, key=lambda t, j: "%s:%s" % (t["name"], t["events"][j]["ev"]), what="alternation of search and network")
    cx.assumptions.append("short trainings of small networks; equations are searched among a few dozen sampled candidates; runs in which none of them is valid say nothing")

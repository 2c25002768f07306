"""C08: coefficients match the reported terms, the reward is that of the prediction, unusable candidates are refused."""
import re
from fractions import Fraction as F
import numpy as np
from h_discover import quiet
from h_expr import Grid, frac, fracs, BIN, UN, DER, LAP

LEVEL = "model_checking"
COEFS = [1, -1, 2, -3, 0.5, 0.75, -0.625, 100, 12, -7.5]
EDGE = [8192, 16384, -16384, -8192, F(1, 16384), F(-1, 16384), F(1, 21000), F(-1, 21000), F(1, 30000), 9999, 10001, -10001, 0]
# (small and large limits, both signs, both sides)


class Fitting:
    def __init__(self, rng, dim, n_state=1, n_param=0, spatial=False, maxdepth=4, const=False, cut=(0, 1), **kw):
        from kd.model.discover.program import Program
        from kd.model.discover.task.pde.pde import PDETask
        self.P = Program
        self.G = G = Grid(rng, dim, n_state=n_state, n_param=n_param, big=True, **kw)
        self.cut, self.const = cut, const
        self.task = t = PDETask(BIN + UN + DER[dim] + LAP[dim], "toy", metric="pde_reward", metric_params=[0.01], spatial_error=spatial, protected=self.G.protected, max_depth=maxdepth,
                                add_const=const, data_noise_level=0.1 if cut[0] else 0, cut_ratio=cut[0] / cut[1])
        t.load_data(dict(u=G.u[0], X=G.x, ut=np.zeros(G.shape), n_input_dim=dim, param_data=G.p or None, n_param_var=n_param, param_names=None))
        if n_state > 1:
            raise ValueError
        G.lib = t.library
        G.tok = {x.name: x for x in G.lib.tokens}
        self.cf = dict(spatial=spatial, maxdepth=maxdepth, const=const, num=cut[0], den=cut[1])
        sl = tuple(slice((cut[0] * n) // cut[1], -((-(cut[1] - cut[0]) * n) // cut[1])) for n in G.shape)
        self.keep = sl

    def begin(self):
        e = self.G.begin()
        return dict(e, cf=self.cf)

    def candidate(self, rng, depth, top=None):
        k = int(rng.integers(1, 5))
        parts = [self.G.random(rng, int(rng.integers(0, depth + 1)), ops=top) for _ in range(k)]
        seq = parts[0]
        for p in parts[1:]:
            seq = [str(rng.choice(["add", "sub"]))] + (seq + p if rng.random() < 0.5 else p + seq)
        return seq

    def columns(self, seq):
        """values of the additive terms on the scored part (None when some term has no usable value)"""
        from kd.model.discover.stridge import STRidge, unsafe_execute
        cols = []
        for term in STRidge([self.G.tok[t] for t in seq]).terms_token:
            with quiet():
                y, inv, _, _ = unsafe_execute(term, self.G.u, self.G.x)
            if y is None or inv or np.shape(y) != tuple(self.G.shape):
                return None
            cols.append(np.asarray(y)[self.keep].reshape(-1))
        return np.array(cols).T

    def score(self, seq, ut):
        """build the candidate afresh and have the task score it"""
        from kd.model.discover.program import from_tokens
        P = self.P
        P.clear_cache()
        P.set_task(self.task)
        P.n_objects, P.have_cython, P.default_terms = 1, False, []
        P.set_execute(False, False)
        P.set_const_optimizer("dummy")
        P.set_complexity("length")
        self.task.ut = ut.reshape(-1, 1)
        names = [t.name for t in self.G.lib.tokens]
        p = from_tokens(np.array([names.index(t) for t in seq], dtype=np.int32))
        with quiet():
            r = float(p.r_ridge)
        return p, r

    def event(self, rng, seq, mode):
        G = self.G
        C = self.columns(seq)
        e = dict(ev="score", toks=G.names(seq))
        n = int(np.prod([s.stop - s.start for s in self.keep]))
        if C is None:
            ut = rng.integers(-5, 6, size=n).astype(float)
            e["ut"] = [int(v) for v in ut]
        else:
            A = np.hstack([C, np.ones((n, 1))]) if self.const else C
            if mode == "planted":
                pool = COEFS + (EDGE if rng.random() < 0.4 else [])
                cs = [pool[int(rng.integers(0, len(pool)))] for _ in range(A.shape[1])]
                ut = A @ np.array([float(c) for c in cs])
                e["cs"] = [[F(c).numerator, F(c).denominator] for c in cs]
                s = np.linalg.svd(A, compute_uv=False)
                e["indep"] = bool(A.shape[0] >= A.shape[1] and len(s) and s[-1] > 1e-6 * s[0])
                if np.var(ut) < 1e-12 and e["indep"] and all(abs(c) >= 5e-5 for c in cs):
                    return None
            else:
                if self.const:
                    return None
                ut = rng.integers(-5, 6, size=n).astype(float)
                e["ut"] = [int(v) for v in ut]
        p, r = self.score(seq, ut)
        e["st"] = "invalid" if p.invalid else "ok"
        e["r"] = int(round(r * 10000)) if np.isfinite(r) else "F:%r" % r
        if p.invalid:
            if C is not None and mode != "planted":   # the reason for refusing must be a coefficient outside the configured range
                w = np.linalg.lstsq(C, ut, rcond=None)[0]
                e["tiny"] = bool(any(abs(x) < 6e-5 or abs(x) > 9e3 for x in w))
            e.setdefault("tiny", False)
            return e
        w = [float(x) for x in p.w]
        e["w"] = [frac(x) for x in w] if mode == "planted" and e.get("indep") else [int(round(x * 1e4)) for x in w]
        e["terms"] = [G.names([t.name for t in term]) for term in p.STRidge.terms_token]
        yh = np.asarray(p.y_hat_rhs, dtype=float).reshape(-1)
        e["yhat"] = [int(round(v * 1e4)) if abs(v) < 2e5 else "F:%r" % v for v in yh] if mode != "planted" else []
        with quiet():
            m = float(p.evaluate["nmse_test"])
        e["mse"] = int(round(m * 1e4)) if m < 1e5 else "F:%r" % m
        e["rep"] = self.parse(p.str_expression)
        return e

    def parse(self, s):
        ws, terms = [], []
        for part in s.split(" + "):
            c, _, t = part.partition(" * ")
            ws.append(int(round(float(c) * 10000)))
            if t:
                terms.append(self.G.names(re.findall(r"\w+", t)))
        return dict(w=ws, terms=terms)


def run(cx):
    import torch
    torch.set_num_threads(1)
    rng = np.random.default_rng(cx.seed)
    plans = [(1, {}), (1, dict(n_param=1)), (1, dict(const=True)), (1, dict(maxdepth=3)), (2, dict(spatial=True)), (2, dict(spatial=False, equal=True)),
             (3, dict(spatial=True)), (1, dict(pool=[0, 0, 1, -1, 2, -2, 3])), (1, dict(cut=(1, 4))), (2, dict(cut=(1, 5), spatial=False)), (1, dict(protected=True, pool=[0, 1, -1, 2, 4])),
             (3, dict(spatial=False))]
    traces = []
    for r in range(28 if cx.thorough else 7):
        for k, (dim, kw) in enumerate(plans):
            f = Fitting(rng, dim, **kw)
            ev = [f.begin()]
            easy = ["mul", "n2", "mul", "neg", "abs", "n2"] + DER[dim] + LAP[dim]
            for j in range(14 if dim == 1 else 8 if dim == 2 else 4):
                e = f.event(rng, f.candidate(rng, 2 if j % 3 else 3, easy if j % 4 else None), "planted" if j % 2 else "free")
                if e is not None:
                    ev.append(e)
            if kw.get("spatial"):
                d = DER[dim]
                bal = ["add"] * (dim - 1) + sum([[d[1], "u1", "x%d" % (i + 1)] for i in range(dim)], [])
                for s in (bal, ["add", "u1"] + bal, [d[0], "u1", "x1"], [d[0], "u1", "x%d" % dim], ["add", d[0], "u1", "x%d" % dim, "n2", "u1"]):
                    for m in ("planted", "free"):
                        e = f.event(rng, s, m)
                        if e is not None:
                            ev.append(e)
            ev.append(dict(ev="end"))
            traces.append(dict(name="plan%d-%d" % (k, r), events=ev))
    from concurrent.futures import ThreadPoolExecutor
    key = lambda t, j: "score:%s:%s" % (t["events"][j].get("st"), ",".join(t["events"][j].get("toks", ["-"])))
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(lambda i: cx.validate("FitTrace", traces[i::4], key=key, what="scoring"), range(4)))

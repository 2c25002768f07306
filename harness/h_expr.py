"""Exact fields for the real expression evaluator, and random well-formed token sequences."""
import itertools, math
from fractions import Fraction as F
import numpy as np

BIN, UN = ["add", "sub", "mul", "div"], ["sin", "cos", "tan", "exp", "log", "sqrt", "n2", "n3", "n4", "n5", "neg", "abs", "tanh", "inv", "logabs", "expneg", "sigmoid"]
DER = {1: ["diff", "diff2", "diff3", "diff4"], 2: ["Diff", "Diff2"], 3: ["Diff_3", "Diff2_3"]}
LAP = {1: [], 2: ["lap"], 3: ["lap_3"]}
PROT = {"div", "exp", "log", "logabs", "sqrt", "inv", "expneg", "n2", "n3", "n4", "sigmoid"}
T_BIN, T_UN, T_DER = ["add_t", "sub_t", "mul_t", "div_t"], ["n2_t", "n3_t"], ["diff_t", "diff2_t", "diff3_t", "diff4_t"]


def frac(v):
    """a float as the [n, d] the specification computes with, or a mark that it is not one"""
    v = float(v)
    if math.isnan(v) or math.isinf(v):
        return "F:%r" % v
    f = F(v).limit_denominator(30000)
    if abs(float(f) - v) > 1e-9 * max(1.0, abs(v)) or abs(f.numerator) > 2**31 - 1:
        return "F:%r" % v
    return [f.numerator, f.denominator]


def fracs(a):
    return [frac(v) for v in np.asarray(a, dtype=float).reshape(-1)]


class Grid:
    """u on a dim-dimensional space-time grid with dyadic values; spacing 1/2, 1 or 2"""
    def __init__(self, rng, dim, n_state=1, n_param=0, protected=False, pool=None, equal=False, big=False):
        from kd.model.discover.functions import create_tokens
        from kd.model.discover.library import Library
        self.dim, self.protected = dim, protected
        if dim == 1:
            shape = [int(rng.integers(4, 9 if big else 6)), int(rng.integers(2, 5 if big else 3))]
        elif dim == 2:
            shape = [2, int(rng.integers(4, 6)), int(rng.integers(4, 6))]
        else:
            shape = [1, 4, 5, 4]
        if equal and dim > 1:
            shape[1:] = [4] * dim
        self.shape = shape
        ax = (lambda k: 0) if dim == 1 else (lambda k: k + 1)
        self.x = []
        for k in range(dim):
            h = [0.5, 1.0, 2.0][int(rng.integers(0, 3))]
            self.x.append((np.arange(shape[ax(k)]) * h - h * int(rng.integers(0, 3))).reshape(-1, 1))
        pool = pool or [-3, -2, -1, 0, 1, 2, 3, 0.5, -0.5, 4]
        fld = lambda: rng.choice(np.array(pool, dtype=float), size=shape)
        self.u = [fld() for _ in range(n_state)]
        self.p = [fld() for _ in range(n_param)]
        ops = BIN + UN + DER[dim] + LAP[dim]
        self.lib = Library(create_tokens(dim, ops, protected, n_state_var=n_state, task_type="pde", n_param_var=n_param))
        for t in self.lib.tokens:
            if t.param_var is not None:
                t._param_data_ref = self.p[t.param_var]
        self.tok = {t.name: t for t in self.lib.tokens}
        self.leaves = [dict(n="x%d" % (i + 1), k="x", i=i + 1) for i in range(dim)] + [dict(n="u%d" % (i + 1), k="u", i=i + 1) for i in range(n_state)] + \
                      [dict(n="p%d" % (i + 1), k="p", i=i + 1) for i in range(n_param)]

    def spec(self, n):
        """the name under which the specification knows the operator the library uses for n"""
        return "protected_" + n if self.protected and n in PROT else n

    def data(self):
        return dict(x=[fracs(a) for a in self.x], u=[fracs(a) for a in self.u], p=[fracs(a) for a in self.p])

    def begin(self):
        return dict(ev="begin", torch=False, dim=self.dim, shape=self.shape, leaf=self.leaves, **self.data())

    def names(self, seq):
        return [self.spec(t) for t in seq]

    def random(self, rng, depth, ops=None):
        """a random complete prefix expression in which derivatives act on something containing the field"""
        ops = ops or (BIN + UN + DER[self.dim] + LAP[self.dim])
        us = [l["n"] for l in self.leaves if l["k"] != "x"]
        xs = [l["n"] for l in self.leaves if l["k"] == "x"]
        u = lambda: str(rng.choice(us))

        def gen(d):
            if d == 0 or rng.random() < 0.15:
                return [u() if rng.random() < 0.75 else str(rng.choice(xs))]
            o = str(rng.choice(ops))
            if o in DER[self.dim]:
                return [o] + full(d - 1) + [str(rng.choice(xs))]
            if o in LAP[self.dim]:
                return [o] + full(d - 1)
            if o in BIN:
                return [o] + gen(d - 1) + gen(d - 1)
            return [o] + gen(d - 1)

        def full(d):
            for _ in range(20):
                s = gen(d)
                if any(t in us for t in s):
                    return s
            return [u()]
        return full(depth)

    def run(self, seq):
        from kd.model.discover.stridge import unsafe_execute
        y, invalid, _, _ = unsafe_execute([self.tok[t] for t in seq], self.u, self.x)
        if y is None:
            return "none", "-"
        if invalid:
            return "invalid", "-"
        y = np.asarray(y)
        if y.shape != tuple(self.shape):
            if not any(t[0] in "up" and t[1:].isdigit() for t in seq):   # only coordinates: read on the whole grid
                y = np.broadcast_to(y, self.shape) if self.dim > 1 or y.shape == (self.shape[0], 1) else y
        if y.shape != tuple(self.shape):
            return "val", "shape %s" % (y.shape,)
        return "val", fracs(y)


class TorchGrid:
    """u as polynomials of the coordinates, evaluated at integer points through autograd leaves"""
    def __init__(self, rng, dim=1, n_state=1, npts=4):
        import torch
        from kd.model.discover.functions import create_tokens
        from kd.model.discover.library import Library
        self.dim, self.m = dim, dim + 1
        self.lib = Library(create_tokens(dim, T_BIN + T_UN + T_DER + ["lap_t"], False, n_state_var=n_state, task_type="pde"))
        self.tok = {t.name: t for t in self.lib.tokens}
        self.pts = rng.integers(-2, 3, size=(npts, self.m)).astype(float)
        self.cols = [torch.tensor(self.pts[:, k:k + 1], dtype=torch.float64, requires_grad=True) for k in range(self.m)]
        self.polys, us = [], []
        for _ in range(n_state):
            terms = {}
            for _ in range(int(rng.integers(2, 4))):
                e = tuple(int(v) for v in rng.integers(0, 4 if dim == 1 else 3, size=self.m))
                terms[e] = int(rng.integers(1, 3)) * (1 if rng.random() < 0.6 else -1)
            terms.setdefault(tuple([2] * dim + [1]), 1)
            self.polys.append([dict(e=list(e), c=c) for e, c in terms.items()])
            v = 0
            for e, c in terms.items():
                mono = c
                for k, p in enumerate(e):
                    for _ in range(p):
                        mono = mono * self.cols[k]
                v = v + mono
            us.append(v)
        self.u = [torch.cat(us, dim=1)]
        self.x = self.cols[:dim]
        self.leaves = [dict(n="x%d" % (i + 1), k="x", i=i + 1) for i in range(dim)] + [dict(n="u%d" % (i + 1), k="u", i=i + 1) for i in range(n_state)]

    def begin(self):
        return dict(ev="begin", torch=True, pts=[[frac(v) for v in r] for r in self.pts], m=self.m, nx=self.dim, leaf=self.leaves, polys=self.polys)

    def names(self, seq): return list(seq)

    def data(self):
        import torch
        return dict(pts=[[frac(v) for v in r] for r in torch.cat(self.cols, dim=1).detach().numpy()])

    def random(self, rng, depth):
        us = [l["n"] for l in self.leaves if l["k"] == "u"]
        xs = [l["n"] for l in self.leaves if l["k"] == "x"]

        def gen(d):
            if d == 0 or rng.random() < 0.2:
                return [str(rng.choice(us)) if rng.random() < 0.8 else str(rng.choice(xs))]
            o = str(rng.choice(T_BIN + T_UN + T_DER[:3] + T_DER + ["lap_t", "mul_t", "diff_t"]))
            if o in T_DER:
                return [o] + full(d - 1) + [str(rng.choice(xs))]
            if o == "lap_t":
                return [o] + full(d - 1)
            return [o] + gen(d - 1) + (gen(d - 1) if o in T_BIN else [])

        def full(d):
            for _ in range(20):
                s = gen(d)
                if any(t in us for t in s):
                    return s
            return [str(rng.choice(us))]
        return full(depth)

    def run(self, seq):
        from kd.model.discover.stridge import unsafe_execute_torch
        y, invalid, _, _ = unsafe_execute_torch([self.tok[t] for t in seq], self.u, self.x)
        if invalid:
            return "invalid", "-"
        y = y.detach().numpy()
        if y.shape != (len(self.pts), 1):
            return "val", "shape %s" % (y.shape,)
        return "val", fracs(y)

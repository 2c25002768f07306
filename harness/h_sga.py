"""Problems, real expression trees and evaluations for the genetic symbolic search."""
import contextlib, io, signal
import numpy as np
from h_expr import fracs

BIN, UN = ["+", "-", "*", "/", "d", "d^2"], ["^2", "^3"]
arity = lambda n: 2 if n in BIN else 1 if n in UN else 0
quiet = lambda: contextlib.redirect_stdout(io.StringIO())


class Hang(Exception):
    pass


@contextlib.contextmanager
def limit(sec):
    """real time limit on driven code that might never come back"""
    def bail(*a):
        raise Hang("no answer within %ss" % sec)
    old = signal.signal(signal.SIGALRM, bail)
    signal.setitimer(signal.ITIMER_REAL, sec)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class Problem:
    """a grid with named axes, fields and parameters, dyadic values"""
    def __init__(self, rng, axes, lhs, fields=("u",), params=(), target=None, sizes=None, pool=None, cut=False, descend=False, **cfg):
        self.axes, self.lhs, self.target, self.cut, self.cfg = list(axes), lhs, target or fields[0], cut, cfg
        self.shape = list(sizes or [int(rng.integers(4, 7)) for _ in axes])
        self.x = {}
        for a, n in zip(self.axes, self.shape):
            h = [0.5, 1.0, 2.0][int(rng.integers(0, 3))] * (-1 if descend and rng.integers(0, 2) else 1)
            self.x[a] = np.arange(n) * h - h * int(rng.integers(0, 3))
        pool = np.array(pool or [-3, -2, -1, 0, 1, 2, 3, 0.5, -0.5, 4], dtype=float)
        self.fields = {f: rng.choice(pool, size=self.shape) for f in fields}
        self.params = {f: rng.choice(pool[pool != 0], size=self.shape) for f in params}

    def config(self, **kw):
        from kd.model.sga.sgapde.config import SolverConfig
        with quiet():
            return SolverConfig(problem_name="custom", fields_data={k: v.copy() for k, v in self.fields.items()},
                                coords_1d={k: v.copy() for k, v in self.x.items()}, axis_order=list(self.axes), target_field=self.target,
                                lhs_axis=self.lhs, param_fields={k: v.copy() for k, v in self.params.items()} or None, delete_edges=self.cut, **{**self.cfg, **kw})

    def context(self, **kw):
        from kd.model.sga.sgapde.context import ProblemContext
        c = self.config(**kw)
        with quiet():
            return ProblemContext(c)

    def dataset(self, legacy=False):
        from kd.dataset import PDEDataset
        if legacy:
            return PDEDataset(equation_name="custom_case", x=self.x["x"], t=self.x["t"], usol=self.fields[self.target], domain={"x": (-9, 9), "t": (-9, 9)}, epi=1e-3, param_fields=self.params or None)
        return PDEDataset(equation_name="custom_case", fields_data=self.fields, coords_1d=self.x, axis_order=self.axes, target_field=self.stored[0], lhs_axis=self.stored[1], param_fields=self.params or None)

    stored = ("u", "t")

    def surrogates(self, rng, normal):
        """replaces every field by a polynomial of the axes, and gives the surrogate networks that compute exactly these"""
        import torch
        self.poly, models = {}, {}
        g = np.meshgrid(*[self.x[a] for a in self.axes], indexing="ij")
        X = np.stack([v.reshape(-1) for v in g], axis=1)
        for f in self.fields:
            mons = {}
            for _ in range(int(rng.integers(2, 5))):
                e = tuple(int(v) for v in rng.integers(0, 3, size=len(self.axes)))
                if sum(e) <= 3:
                    mons[e] = int(rng.choice([-2, -1, 1, 2, 3]))
            for i in range(len(self.axes)):
                mons[tuple(2 if j == i else 0 for j in range(len(self.axes)))] = int(rng.choice([-2, -1, 1, 2]))
            self.poly[f] = mons
            self.fields[f] = sum(c * np.prod([v ** k for v, k in zip(g, e)], axis=0) for e, c in mons.items())

            class Net(torch.nn.Module):
                in_features = len(self.axes)

                def __init__(s, mons, y):
                    super().__init__()
                    s.mons, s.y = mons, y

                def forward(s, z):
                    if normal:
                        z = z * torch.tensor(X.astype(np.float32).std(axis=0)) + torch.tensor(X.astype(np.float32).mean(axis=0))
                    out = sum(c * torch.stack([z[:, i] ** k for i, k in enumerate(e)], 1).prod(1) for e, c in s.mons.items())
                    if normal:
                        out = (out - float(s.y.mean())) / float(s.y.std())
                    return out.reshape(-1, 1)
            models[f] = Net(mons, self.fields[f])
        return models

    def autograd_context(self, rng, normal):
        from kd.model.sga.sgapde.context import ProblemContext
        models = self.surrogates(rng, normal)
        c = self.config(use_autograd=True, normal=normal)
        c.autograd_models = models
        with quiet():
            return ProblemContext(c)

    def begin_autograd(self, ctx):
        def snap(a):
            r = np.round(np.asarray(a, dtype=float) * 64) / 64
            return fracs(np.where(np.abs(r - a) < 2e-3, r, a))
        e = self.begin(ctx)
        e["vals"] = [snap(r[2]) for r in ctx.VARS]
        e["ut"] = snap(ctx.ut)
        e["poly"] = [[f, [dict(e=list(k), c=v) for k, v in m.items()]] for f, m in self.poly.items()]
        return e

    def fitted(self, legacy=False, explicit=False, **kw):
        """the problem the estimator hands to its solver for this dataset"""
        from kd.model.kd_sga import KD_SGA
        got = []

        class Solver:
            best_equation_details_ = None

            def __init__(self, config):
                pass

            def run(self, context):
                got.append(context)
                return "", 0.0
        self.stored = (list(self.fields)[0], self.axes[0]) if explicit else (self.target, self.lhs)
        if explicit:
            kw.update(target_field=self.target, lhs_axis=self.lhs)
        m = KD_SGA(delete_edges=self.cut, primary_spatial_axis=self.cfg.get("primary_spatial_axis"), **kw)
        with quiet():
            m.fit_dataset(self.dataset(legacy), solver_cls=Solver)
        return got[0]

    def begin(self, ctx):
        pairs = lambda d: [[k, fracs(v)] for k, v in d.items()]
        return dict(ev="begin", axes=self.axes, shape=self.shape, x=[fracs(self.x[a]) for a in self.axes], fields=pairs(self.fields), params=pairs(self.params),
                    lhs=self.lhs, target=self.target, cut=self.cut, names=[str(r[0]) for r in ctx.VARS], vals=[fracs(r[2]) for r in ctx.VARS],
                    den=[str(r[0]) for r in ctx.den], ut=fracs(ctx.ut))


def build(ctx, toks, depth=None):
    """the real Tree object for a prefix expression"""
    from kd.model.sga.sgapde.tree import Tree, Node, dfs, tree2str_merge
    import copy
    ops = {r[0]: r for r in ctx.OPS}
    leaf = {r[0]: r for r in ctx.VARS}
    for a in ctx.axis_order:
        leaf.setdefault(a, [a, 0, ctx.coord_grids[a]])
    pos = [0]

    def parse():
        n = toks[pos[0]]
        pos[0] += 1
        return (n, [parse() for _ in range(arity(n))])
    root = parse()
    levels, cur = [], [(root, None)]
    while cur:
        nxt, row = [], []
        for i, ((n, kids), parent) in enumerate(cur):
            r = ops[n] if kids else leaf[n]
            row.append(Node(depth=len(levels), idx=i, parent_idx=parent, name=r[0], var=r[2], full=r, child_num=len(kids), child_st=len(nxt) if kids else (None if levels else 0)))
            nxt += [(k, i) for k in kids]
        levels.append(row)
        cur = nxt
    while len(levels) < (depth or 2):
        levels.append([])
    t = Tree.__new__(Tree)
    t.max_depth, t.tree = len(levels), levels
    ret = []
    dfs(ret, t.tree, depth=0, idx=0)
    t.preorder = " ".join(ret)
    t.inorder = tree2str_merge(copy.deepcopy(t.tree))
    return t


def value(ctx, trees):
    """what the scoring stage makes of these terms: (kept terms, value of each as fracs) or None when it could use none"""
    from kd.model.sga.sgapde.pde import evaluate_mse
    terms = list(trees)
    with quiet(), np.errstate(all="ignore"):
        kept, w, M = evaluate_mse(terms, ctx, True, return_matrix=True)
    return kept, M


def term_event(ctx, toks, tree=None):
    t = tree or build(ctx, toks)
    kept, M = value(ctx, [t])
    if not kept:
        st, v = "out", []
    elif M is None:
        st, v = "nonfinite", []
    else:
        st, v = "val", fracs(M[:, ctx.num_default])
    return dict(ev="term", toks=list(toks), st=st, v=v)


def random_toks(rng, names, den, depth, p_leaf=0.35, root=True):
    if depth <= 1 or (not root and rng.random() < p_leaf):
        return [str(rng.choice(names))]
    n = str(rng.choice([o for o in BIN + UN if not root or o not in "+-"]))
    if n in ("d", "d^2"):
        return [n] + random_toks(rng, names, den, depth - 1, p_leaf, False) + [str(rng.choice(den))]
    return [n] + sum([random_toks(rng, names, den, depth - 1, p_leaf, False) for _ in range(arity(n))], [])


def nodes(ctx, tree):
    """the tree's levels as the specification sees them; ok says the node carries the payload of its name and no stale cache"""
    pay = {r[0]: r[2] for r in ctx.OPS}
    pay.update({r[0]: r[2] for r in ctx.VARS})
    pay.update({a: ctx.coord_grids[a] for a in ctx.axis_order if a not in pay})

    def same(a, b):
        if callable(a) or callable(b):
            return a is b or getattr(a, "__name__", 1) == getattr(b, "__name__", 2)
        return np.shape(a) == np.shape(b) and bool(np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True))
    out = []
    for lev in tree.tree:
        out.append([dict(n=str(n.name), c=int(n.child_num), st=-1 if n.child_st is None else int(n.child_st), p=-1 if n.parent_idx is None else int(n.parent_idx),
                         ok=n.name in pay and same(n.var, pay[n.name]) and same(n.cache, n.var)) for n in lev])
    return out


def tree_rec(ctx, tree):
    return dict(lv=nodes(ctx, tree), pre=tree.preorder.split(" "), text=tree.inorder.replace(" ", ""))


def pde_rec(ctx, pde):
    return [tree_rec(ctx, t) for t in pde.elements]


def make_pde(ctx, rng, toks_list, depth):
    from kd.model.sga.sgapde.pde import PDE
    p = PDE.__new__(PDE)
    p.context, p.depth, p.p_var, p.elements, p.W = ctx, depth, 0.5, [build(ctx, t, depth) for t in toks_list], len(toks_list)
    return p


@contextlib.contextmanager
def watching(log):
    """records every equation handed to scoring, as it was handed over, and the score that came back"""
    from kd.model.sga.sgapde import pde as A, solver as B
    orig = A.evaluate_mse
    busy = []

    def spy(a_pde, context, is_term=False, **kw):
        if is_term or busy:
            return orig(a_pde, context, is_term, **kw)
        busy.append(1)
        try:
            before = pde_rec(context, a_pde)
            r = orig(a_pde, context, is_term, **kw)
            log.append(dict(cand=before, kept=[t.inorder.replace(" ", "") for t in a_pde.elements], score=float(r[0])))
            return r
        finally:
            busy.pop()
    had = [m for m in (A, B) if getattr(m, "evaluate_mse", None) is orig]
    for m in had:
        m.evaluate_mse = spy
    try:
        yield
    finally:
        for m in had:
            m.evaluate_mse = orig


def rounds(ctx, num, depth, width, gens, seed, p_var=0.5, p_mute=0.3, p_rep=1.0, p_cro=0.5, sec=120):
    """a real search, one record per variation round: pool before, what was scored, pool after"""
    import random
    from kd.model.sga.sgapde.solver import SGA
    np.random.seed(seed)
    random.seed(seed)
    log, out = [], []
    pool = lambda s: [dict(eq=pde_rec(ctx, e), w=int(e.W), score=float(m)) for e, m in zip(s.eqs, s.mses)]
    with quiet(), np.errstate(all="ignore"), watching(log), limit(sec):
        s = SGA(context=ctx, num=num, depth=depth, width=width, p_var=p_var, p_mute=p_mute, p_rep=p_rep, p_cro=p_cro, pde_lib=[], err_lib=[])
        out.append(dict(kind="init", before=[], cands=list(log), after=pool(s)))
        for g in range(gens):
            for kind, step in (("cross", lambda: s.cross_over(s.p_cro)), ("change", lambda: s.change(s.p_mute, s.p_rep))):
                b = pool(s)
                del log[:]
                step()
                out.append(dict(kind=kind, before=b, cands=list(log), after=pool(s)))
    return s, out

"""Driving the real token sampler: library/constraint builders, exhaustive prefix walks, sampled episodes."""
import numpy as np
import itertools

INV = {"inv": "inv", "neg": "neg", "exp": "log", "log": "exp", "sqrt": "n2", "n2": "sqrt"}
TRIG = {"sin", "cos", "tan", "csc", "sec", "cot", "arcsin", "arccos", "arctan", "arccsc", "arcsec", "arccot"}


def describe(lib):
    """The library as the specification sees it: by names and what the caller asked for."""
    names = [t.name for t in lib.tokens]
    out = []
    for t in lib.tokens:
        kind = "op"
        if t.input_var is not None: kind = "input"
        elif t.state_var is not None: kind = "state"
        elif t.param_var is not None: kind = "param"
        elif t.name == "const": kind = "const"
        diff = "diff" in t.name or "Diff" in t.name
        inv = INV.get(t.name)
        out.append(dict(nm=t.name, ar=int(t.arity), kind=kind, diff=diff, trig=(t.name in TRIG) or diff,
                        inv=(names.index(inv) + 1) if inv in names else 0))
    return out


def spec_constraints(cfg):
    """config dict (as given to the model) -> constraint records for the spec; only switched-on ones."""
    res = []
    for k, a in cfg.items():
        for one in (a if isinstance(a, list) else [a]):
            if not isinstance(one, dict) or not one.get("on", False):
                continue
            r = {"c": k}
            if k == "length":
                r.update(min=one.get("min_") or 0, max=one.get("max_") or 0)
            elif k == "repeat":
                tk = one["tokens"]
                r.update(tokens=tk.split(",") if isinstance(tk, str) else list(tk), max=one["max_"])
            elif k == "relational":
                f = lambda v: v.split(",") if isinstance(v, str) else list(v)
                r.update(rel=one["relationship"], targets=f(one["targets"]), effectors=f(one["effectors"]))
            elif k == "diff_descedent":
                r.update(extra=list(one.get("extra") or []))
            res.append(r)
    return res


def make_lib(function_set, n_input=1, n_state=1, n_param=0, const=False, protected=False):
    from kd.model.discover.functions import create_tokens
    from kd.model.discover.library import Library
    fs = list(function_set) + (["const"] if const else [])
    return Library(create_tokens(n_input, fs, protected, n_state_var=n_state, task_type="pde", n_param_var=n_param))


def setup_program(lib):
    from kd.model.discover.program import Program
    Program.library = lib
    Program.n_objects = 1
    Program.clear_cache()


def make_task(lib, prior):
    from kd.model.discover.task.task import HierarchicalTask

    class _T(HierarchicalTask):
        task_type = "x"
        def reward_function(self, program): return 0.
        def evaluate(self, program): return {}
        def load_data(self, *a, **k): pass
    t = _T()
    t.library = lib
    t.obs0 = t.reset_task(prior)
    return t


def parent_name_ix(lib):
    """adjusted parent index -> token index+1 (k-th operator in library order); the empty one -> 0"""
    ops = [i for i, t in enumerate(lib.tokens) if t.arity > 0]
    return lambda a: 0 if int(a) >= len(ops) else ops[int(a)] + 1


def sib_ix(lib):
    return lambda a: 0 if int(a) >= len(lib.tokens) else int(a) + 1


def walk(lib, prior, limit_nodes=4000, max_depth=10, rng=None, cap_per_level=None):
    """Breadth-first walk of the real sampler: every prefix its own masks allow (sampled per level beyond a cap)."""
    task = make_task(lib, prior)
    pn, sn = parent_name_ix(lib), sib_ix(lib)
    L = len(lib.tokens)
    nodes, done = [], []
    ini = np.asarray(prior.initial_prior())
    al = [t + 1 for t in range(L) if ini[t] != -np.inf]
    nodes.append(dict(ev="node", seq=[], parent=pn(task.obs0[1]), sibling=sn(task.obs0[2]), open=int(task.obs0[3]), allowed=al))
    level = [([t - 1], 1.0) for t in al]
    depth = 0
    while level and depth < max_depth and len(nodes) < limit_nodes:
        depth += 1
        if cap_per_level and len(level) > cap_per_level:
            ix = rng.choice(len(level), cap_per_level, replace=False)
            level = [level[i] for i in sorted(ix)]
        acts = np.array([s for s, _ in level], dtype=np.int32)
        obs = np.zeros((len(level), 4), dtype=np.float32)
        obs[:, 3] = [d for _, d in level]
        nobs, pr = task.get_next_obs(acts.copy(), obs)
        nobs = np.asarray(nobs); pr = np.asarray(pr)
        nxt = []
        for i, (s, d) in enumerate(level):
            seq = [x + 1 for x in s]
            if nobs[i, 3] <= 0:
                done.append(s)
                continue
            al = [t + 1 for t in range(L) if pr[i, t] != -np.inf]
            nodes.append(dict(ev="node", seq=seq, parent=pn(nobs[i, 1]), sibling=sn(nobs[i, 2]), open=int(nobs[i, 3]), allowed=al))
            for t in al:
                nxt.append((s + [t - 1], float(nobs[i, 3])))
        level = nxt
    return nodes, done

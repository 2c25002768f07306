"""Histories of constructing, importing, setting up and fitting several search models in one process."""
import copy, hashlib, json, os, random
import multiprocessing as mp
import numpy as np
from h_discover import quiet, burgers_like, nd_like

OFF = {k: {"on": False} for k in ("length", "repeat", "inverse", "trig", "soft_length", "diff_left", "diff_right", "diff_descedent")}
# kind -> (class name, constructor keywords)
KINDS = {
    "default": ("KD_Discover", dict()),
    "ops": ("KD_Discover", dict(binary_operators=["add", "mul"], unary_operators=["n2"])),
    "opsdiff": ("KD_Discover", dict(binary_operators=["mul", "add", "div"], unary_operators=["diff2", "n3"])),
    "cfgset": ("KD_Discover", dict(config_out={"task": {"function_set": ["add", "sub", "diff", "mul", "n3", "diff4"]},
                                               "prior": {"length": {"min_": 3, "max_": 20, "on": True}, "diff_descedent": {"on": True}}})),
    "listprior": ("KD_Discover", dict(config_out={"prior": {"relational": [{"on": True, "targets": "n2", "effectors": "n2", "relationship": "child"},
                                                                           {"on": True, "targets": "u1", "effectors": "add", "relationship": "sibling"}]},
                                                  "controller": {"max_length": 24, "learning_rate": 0.01}, "training": {"epsilon": 0.25}})),
    "free": ("KD_Discover", dict(config_out={"prior": OFF, "controller": {"max_length": 12}})),
    "freeops": ("KD_Discover", dict(binary_operators=["add", "mul"], unary_operators=["n2"], config_out={"prior": OFF, "controller": {"max_length": 10}})),
    "spr": ("KD_Discover_SPR", dict()),
    "sprfree": ("KD_Discover_SPR", dict(config_out={"prior": OFF, "pinn": {"number_layer": 3, "noise": 0.0}})),
    "sprcfg": ("KD_Discover_SPR", dict(config_out={"task": {"function_set": ["add_t", "mul_t", "diff_t", "n2_t"]}, "pinn": {"coef_pde": 0.5}})),
}


def data(i):
    return {1: lambda: burgers_like(name="a"), 2: lambda: burgers_like(nx=19, nt=23, seed=2, name="b"),
            3: lambda: nd_like(2, n=7, nt=8, name="c"), 4: lambda: nd_like(3, n=6, nt=7, name="d"),
            5: lambda: nd_like(2, n=7, nt=8, params=("visc", "kap"), name="e"),
            6: lambda: burgers_like(nx=17, nt=18, seed=4, name="f")}[i]()


def digest(x):
    h = hashlib.sha1()

    def w(v):
        if isinstance(v, np.ndarray):
            h.update(("A%s%s" % (v.shape, v.dtype.kind)).encode())
            h.update(np.ascontiguousarray(v).tobytes())
        elif hasattr(v, "detach"):
            w(v.detach().cpu().numpy())
        elif isinstance(v, dict):
            h.update(b"{")
            for k in sorted(v, key=str):
                h.update(str(k).encode())
                w(v[k])
            h.update(b"}")
        elif isinstance(v, (list, tuple)):
            h.update(b"[")
            for y in v:
                w(y)
            h.update(b"]")
        else:
            h.update(repr(v).encode())
    w(x)
    return h.hexdigest()[:12]


def make(kind):
    import kd.model.kd_discover as K
    cls, kw = KINDS[kind]
    kw = copy.deepcopy(kw)
    with quiet():
        m = getattr(K, cls)(n_iterations=3, n_samples_per_batch=12, seed=5, **kw)
    return m, kw


def given_state(m, kw):
    import kd.model.kd_discover as K
    return digest([kw, K.KD_Discover.__init__.__defaults__, K.KD_Discover._DIFF_TOKENS_BY_DIM, K.KD_Discover._DIFF_TOKENS_TORCH_BY_DIM,
                   sorted(K.KD_Discover._ALL_DIFF_TOKENS), m.seed, m.n_iterations, m.n_samples_per_batch, m.core_num, list(m.operator)])


def seeds(k):
    import torch
    np.random.seed(k)
    random.seed(k)
    torch.manual_seed(k)


def observe(m, kind):
    """component -> what can be seen of the configuration right after an import/set-up"""
    from kd.model.discover.program import Program, from_tokens
    from h_sampler import walk
    import torch
    o = {}
    o["functions"] = ",".join(m.config_task["function_set"])
    o["vocabulary"] = ",".join(t.name for t in Program.library.tokens)
    pri = m.prior.priors
    if pri:
        nodes, done = walk(Program.library, m.prior, limit_nodes=150, max_depth=3, rng=np.random.default_rng(0), cap_per_level=25)
        o["constraints"] = "|".join(sorted(p.__class__.__name__ for p in pri)) + " " + digest([[n["seq"], n["allowed"]] for n in nodes]) + digest(m.prior.initial_prior())
    else:
        o["constraints"] = "none"
    c = m.controller
    o["controller"] = "max_length=%s pqt_k=%s lr=%s %s prior-is-own=%s %s" % (c.max_length, c.pqt_k, getattr(c, "learning_rate", ""), [tuple(p.shape) for p in c.parameters()] if hasattr(c, "parameters") else "",
                                                                         c.prior is m.prior, c.state_manager is m.state_manager)
    s = m.searcher
    o["search"] = "best=%s/%s epochs=%s evals=%s memory=%d iterations=%s batch=%s histories=%d/%d eps=%s own=%s" % (
        s.best_p, s.r_best, s.total_epoch, s.nevals, len(s.pq), s.n_iterations, s.batch_size, len(s.r_history), len(s.r_train), s.args["epsilon"], s.controller is c)
    o["cache"] = "%d" % len(Program.cache)
    t = Program.task
    if kind.startswith("spr"):
        d = m.data_class.get_data()
        o["data"] = digest({k: v for k, v in d.items() if isinstance(v, (np.ndarray, int, str, float, list, tuple)) or hasattr(v, "detach")})
        o["network"] = digest([p for p in m.denoise_pinn.nn.parameters()]) + " noise=%s coll=%s" % (m.denoise_pinn.noise, m.denoise_pinn.coef_pde)
    else:
        o["data"] = digest([t.u, t.x, t.ut, t.param_data])
        p = from_tokens(np.array([[x.name for x in Program.library.tokens].index("u1")], dtype=np.int32))
        with quiet():
            o["reward"] = "%.12g" % float(p.r_ridge)
        Program.clear_cache()
    o["task"] = "%s %s eq=%s depth=%s noise=%s cut=%s const=%s %s stochastic=%s torch=%s" % (
        (type(t).__name__,) + tuple(getattr(t, a, None) for a in ("function_set", "eq_num", "max_depth", "noise_level", "cut_ratio", "add_const", "threshold", "stochastic")) + (Program.use_torch,))
    o["configuration"] = digest(json.loads(json.dumps(m.config, default=str)))
    o["output"] = str(m.out_path)
    # the random streams start from the model's seed (after a set-up of the plain model)
    if not kind.startswith("spr"):
        o["random"] = digest([np.random.get_state()[1][:8], random.getstate()[1][:8], torch.initial_seed()])
    return o


def kept(m):
    """what a set-up model has of its own - its record of the search, its sampler, constraints, data and configuration -
    all of which other models leave alone; {} before the first set-up"""
    if getattr(m, "searcher", None) is None:
        return {}
    s, c = m.searcher, m.controller
    plain = lambda o: {k: v for k, v in vars(o).items() if isinstance(v, (np.ndarray, int, float, str, bool, list, tuple, type(None))) and not k.startswith("_")}
    return {
        "found": digest([list(s.r_history), list(s.r_train), s.top_samples_per_batch, None if s.best_p is None else s.best_p.tokens, s.r_best, s.prev_r_best, s.total_epoch, s.nevals,
                         [repr(e) for e in (s.pq.heap if hasattr(s.pq, "heap") else [])], len(s.pq)]),
        "sampler": digest([[p for p in c.parameters()] if hasattr(c, "parameters") else 0, c.max_length, c.pqt_k]),
        "constraints": digest([[p.__class__.__name__, plain(p)] for p in m.prior.priors] + [m.prior.do_count]),
        "data": digest({k: v for k, v in m.data_class.get_data().items() if isinstance(v, (np.ndarray, int, str, float, list, tuple, dict)) or hasattr(v, "detach")}),
        "configuration": digest(json.loads(json.dumps([m.config, m.operator, m.out_path, m.seed], default=str))),
        "settings": digest([s.n_iterations, s.batch_size, s.stability_selection, json.loads(json.dumps(s.args, default=str))]),
    }


def act(m, kind, a, d):
    """one action; returns the observation"""
    seeds(77)
    with quiet():
        if a == "import" or a == "fit":
            ds = data(d)
            if kind.startswith("spr"):
                m.import_dataset(ds, sample=20, colloc_num=30)
            else:
                m.import_dataset(ds)
        elif a == "setup":
            m.setup()
        o = observe(m, kind) if a != "train" else {}
        if a in ("fit", "train"):
            m.set_seeds(m.seed)
            try:
                r = m.train(n_epochs=2, verbose=False)
                o["result"] = "%s %s %.9g" % (r["traversal"], r["expression"], float(r["r"]))
            except Exception as ex:
                o["result"] = "raised %s: %s" % (type(ex).__name__, ex)
    return o


def _fresh(args):
    kind, d, a, scratch = args
    os.chdir(scratch)
    try:
        m, kw = make(kind)
        return kind, d, act(m, kind, a, d)
    except Exception as ex:
        import traceback
        return kind, d, {"error": traceback.format_exc()[-1500:]}


def fresh_table(todo, scratch):
    """todo: set of (kind, d, a); each in a process of its own (forked before anything was built here)"""
    ctx = mp.get_context("fork")
    with ctx.Pool(8, maxtasksperchild=1) as pool:
        return {(k, d): o for k, d, o in pool.map(_fresh, [(k, d, a, scratch) for k, d, a in todo], chunksize=1)}

"""Fitted models of every kind, plot requests on them, and what a request left behind."""
import contextlib, copy, hashlib, io, os
import numpy as np
from h_discover import quiet, burgers_like, nd_like
from h_reuse import digest, seeds
import c_c11 as A

PNG = b"\x89PNG\r\n\x1a\n"


# ------------------------------------------------------------------ models
def discover(ds, best=None, seed=3, **kw):
    from kd.model.kd_discover import KD_Discover
    from kd.model.discover.program import from_tokens
    for k in range(12):         # few candidates are sampled: a search may find no valid one, and then it has no history
        seeds(seed + k)
        m = KD_Discover(n_iterations=1, n_samples_per_batch=14 + 10 * k, seed=seed + k, **kw)
        m.import_dataset(ds)
        try:
            with quiet(), np.errstate(all="ignore"):
                m.train(n_epochs=2, verbose=False)
        except AttributeError:
            if m.searcher.best_p is not None or k == 11:
                raise
            continue
        if len(m.searcher.r_history) and len(m.searcher.r_train):
            break
    if best is not None:
        m.searcher.best_p = program(best)
    return m


def program(names):
    from kd.model.discover.program import Program, from_tokens
    lib = [t.name for t in Program.library.tokens]
    p = from_tokens(np.array([lib.index(n) for n in names], dtype=np.int32))
    with quiet(), np.errstate(all="ignore"):
        p.r_ridge
    return p


def spr(ds, best=("u1",), n=40, seed=3):
    """a model whose surrogate is the untrained network: nothing but its training is skipped"""
    import torch
    from kd.model.kd_discover import KD_Discover_SPR
    from kd.model.discover.program import Program
    seeds(seed)
    m = KD_Discover_SPR(n_iterations=1, n_samples_per_batch=12, seed=seed, config_out={"pinn": {"number_layer": 2, "n_hidden": 8, "pinn_epoch": 2, "iter_num": 1, "duration": 1}})
    m.import_dataset(ds, sample=n, colloc_num=n, random_state=4)
    with quiet():
        m.setup()
        Program.reset_task(m.denoise_pinn, m.config_pinn["generation_type"])
        m.searcher.best_p = program(list(best))
    return m


def regression(X, y, names):
    from kd.model.kd_discover_regression import KD_Discover_Regression
    for k in range(12):
        seeds(3 + k)
        m = KD_Discover_Regression(n_iterations=1, n_samples_per_batch=14 + 10 * k, seed=3 + k, binary_operators=["add", "mul"], unary_operators=["n2"])
        with quiet(), np.errstate(all="ignore"):
            m.fit(X, y, var_names=names)
        if len(m.searcher.r_history) and len(m.searcher.r_train):
            break
    return m


def dlga(b):
    with quiet():
        m, _ = A.dlga_mesh(None, b)
    return m


def sga(b, **kw):
    with quiet():
        m, _ = A._sga(None, b, **kw)
    return m


class Backend(A.StubBackend):
    def get_best(self):
        return {"equation": "x0 + 1"}

    def sympy(self, *a):
        import sympy
        return sympy.Symbol("x0") + 1

    def latex(self, *a, **k):
        return "x_{0} + 1"


def pysr(X, y):
    import kd.model.kd_pysr as K
    K._PySRRegressor = Backend
    m = K.KD_PySR(niterations=1, binary_operators=["+"])
    with quiet():
        m.fit(X, y)
    return m


# ------------------------------------------------------------------ state
def plain(o, memo, depth=0):
    """the content of a model: numbers, arrays, names, containers and the library's own objects"""
    if o is None or isinstance(o, (bool, int, float, str, bytes, np.generic)):
        return repr(o)
    if isinstance(o, np.ndarray):
        return digest(o) if o.dtype != object else [plain(v, memo, depth + 1) for v in o.ravel()]
    if hasattr(o, "detach"):
        return digest(o)
    if depth > 12 or id(o) in memo:
        return "..."
    memo.add(id(o))
    if isinstance(o, dict):
        return [(str(k), plain(o[k], memo, depth + 1)) for k in sorted(o, key=str)]
    if isinstance(o, (list, tuple)):
        return [plain(v, memo, depth + 1) for v in o]
    t = type(o)
    if t.__module__.startswith("torch") and hasattr(o, "state_dict"):
        return [(k, plain(v, memo, depth + 1)) for k, v in o.state_dict().items()] if hasattr(o, "parameters") else t.__name__
    if hasattr(o, "state_dict") and hasattr(o, "parameters"):
        return [(k, plain(v, memo, depth + 1)) for k, v in o.state_dict().items()]
    if t.__module__.startswith("kd.") and hasattr(o, "__dict__"):
        return [t.__name__] + [(k, plain(v, memo, depth + 1)) for k, v in sorted(vars(o).items()) if not callable(v) or type(v).__module__.startswith("kd.")]
    return t.__name__


def inner(m):
    return digest(plain(m, set()))


def shown(m):
    """what the model reports: its equation, histories and data, without anything computed on demand"""
    out = []
    s = getattr(m, "searcher", None)
    if s is not None:
        p = s.best_p
        for q in (p if isinstance(p, list) else [p]):
            if q is not None:
                out += [list(q.tokens) if hasattr(q, "tokens") else 0, np.asarray(getattr(q, "w", 0), dtype=float) if getattr(q, "w", None) is not None else 0, [repr(t) for t in getattr(getattr(q, "STRidge", None), "terms", None) or []]]
        out += [plain(s.r_history, set()), plain(s.r_train, set())]
    if getattr(m, "data_class", None) is not None:
        d = m.data_class.get_data()
        out.append([(k, plain(d[k], set())) for k in sorted(d, key=str)])
    for a in ("Chrom", "coef", "name", "metadata", "train_loss_history", "val_loss_history", "evolution_history", "user_operators", "Theta", "u_t", "equation_latex_", "best_equation_details_", "equation_", "sympy_expr_", "X_train_", "y_train_"):
        if getattr(m, a, None) is not None:
            out.append((a, plain(getattr(m, a), set())))
    c = getattr(m, "context_", None)
    if c is not None:
        out.append([(k, plain(getattr(c, k), set())) for k in ("u", "ut", "u_origin", "ut_origin", "coords_1d", "axis_order", "right_side_full", "default_names") if hasattr(c, k)])
    return digest([repr(x) if not isinstance(x, np.ndarray) else x for x in out])


# --------------------------------------------------------------- requests
class Fault:
    """the n-th attempt to write a picture fails, half way through"""

    def __init__(self, n=1):
        self.n, self.hit = n, 0

    def __enter__(self):
        import matplotlib.figure as F
        import pathlib
        self.F, self.P = F, pathlib
        self.old, self.oldw = F.Figure.savefig, pathlib.Path.write_bytes

        def save(fig, fname, *a, **k):
            self.hit += 1
            if self.hit == self.n:
                if isinstance(fname, (str, os.PathLike)):
                    with open(fname, "wb") as f:
                        f.write(PNG[:4])
                raise OSError(28, "No space left on device")
            return self.old(fig, fname, *a, **k)

        def write(p, data):
            self.hit += 1
            if self.hit == self.n:
                raise OSError(28, "No space left on device")
            return self.oldw(p, data)
        F.Figure.savefig, pathlib.Path.write_bytes = save, write
        return self

    def __exit__(self, *a):
        self.F.Figure.savefig, self.P.Path.write_bytes = self.old, self.oldw


def files(*roots):
    out = set()
    for r in roots:
        for d, _, fs in os.walk(r):
            out |= {os.path.realpath(os.path.join(d, f)) for f in fs}
    return out


def rcnow():
    import matplotlib
    return {k: repr(v) for k, v in dict.items(matplotlib.rcParams) if k not in ("backend", "backend_fallback")}


def request(m, kind, opts, root, family="", holds=(), data=(), fault=None, call=None, deep=False):
    """one request; the events it gives rise to.  Files already where it will write are replaced by a mark, so that a
    picture it reports is one it wrote.  call: one of the drawing functions instead of the facade."""
    import matplotlib.pyplot as plt
    from kd.viz.core import VizRequest, render, list_capabilities
    look = inner if deep else shown
    for f in files(root):
        with open(f, "wb") as h:
            h.write(b"old")
    inside = os.path.realpath(root) + os.sep
    before = rcnow(), set(plt.get_fignums()), look(m), digest([np.asarray(v) for v in data])
    raised, res, err = False, None, ""
    cm = fault or contextlib.nullcontext()
    with quiet(), np.errstate(all="ignore"), cm:
        try:
            res = call(m) if call else render(VizRequest(kind, m, opts))
        except Exception as ex:
            raised, err = True, "%s: %s" % (type(ex).__name__, str(ex)[:150])
    hurt = fault is not None and getattr(fault, "hit", 1) >= getattr(fault, "n", 1)
    after = rcnow(), set(plt.get_fignums()), look(m), digest([np.asarray(v) for v in data])
    name, ev = type(m).__name__, []
    if not call:
        paths = []
        for p in res.paths if res is not None else []:
            b = open(p, "rb").read() if os.path.isfile(p) else b""
            good = False
            if b.startswith(PNG):
                from PIL import Image
                try:
                    Image.open(io.BytesIO(b)).load()
                    good = True
                except Exception:
                    pass
            paths.append(dict(fresh=b != b"old" and b != b"", picture=good, inside=os.path.realpath(p).startswith(inside), name=os.path.basename(str(p))))
        ev.append(dict(ev="plot", of=name, family=family, holds=list(holds), can=list(list_capabilities(m)), kind=kind, intent=getattr(res, "intent", "") if res is not None else kind, paths=paths,
                       figure=bool(res is not None and res.figure), warnings=len(res.warnings) if res is not None else 0, raised=raised, hurt=hurt, err=err or (res.warnings[0][:200] if res is not None and res.warnings else "")))
    figs = after[1] ^ before[1]
    ev.append(dict(ev="behind", of=name, kind=kind, rc=after[0] == before[0], figures=0 if call and (hurt or raised) else len(figs), model=after[2] == before[2], data=after[3] == before[3], hurt=hurt, raised=raised,
                   err=err or "|".join(k for k in after[0] if after[0][k] != before[0].get(k))[:200]))
    for n in after[1] - before[1]:
        plt.close(n)
    return ev, res


def fields(rng, nx=6, nt=5):
    """fields for the figures that are given theirs"""
    x, t = np.linspace(0, 1, nx), np.linspace(0, 1, nt)
    u = rng.standard_normal((nx, nt))
    return dict(x_coords=x, t_coords=t, true_field=u, predicted_field=u + 0.1 * rng.standard_normal((nx, nt)), slice_times=[0.0, 0.4])


def worlds(which, seed):
    """(name, family, model, holds) of one sort of model; every model is asked before the next is made"""
    b = lambda v="legacy": A.Bundle(v, seed)
    from kd.model.kd_discover import KD_Discover, KD_Discover_SPR
    if which == "discover":
        m = discover(b().ds)
        yield "discover", "discover", m, ("fit", "history", "pde", "grid")
        m.searcher.best_p = program(["add", "mul", "u1", "diff", "u1", "x1", "diff2", "u1", "x1"])
        yield "discover set", "discover", m, ("fit", "history", "pde", "grid")
    if which == "discover nd":
        yield "discover 2-D", "discover", discover(b("txy").ds), ("fit", "history", "pde", "grid")
    if which == "spr":
        yield "spr", "discover", spr(b().ds), ("fit", "pde", "surrogate")
        yield "spr 2-D", "discover", spr(b("txy").ds), ("fit", "pde", "surrogate")
    if which == "regression":
        q = b()
        yield "regression", "discover", regression(q.X, q.y, ["a", "b"]), ("fit", "history")
    if which == "dlga":
        yield "dlga", "dlga", dlga(b()), ("fit",)
    if which == "sga":
        yield "sga", "sga", sga(b()), ("fit", "grid")
        yield "sga 2-D", "sga", sga(b("txy")), ("fit", "grid")
    if which == "sga named":
        yield "sga known problem", "sga", sga(b(), name="burgers"), ("fit", "grid", "truth")
        yield "sga without edges", "sga", sga(b(), delete_edges=True), ("fit",)
    if which == "pysr":
        q = b()
        yield "pysr", "pysr", pysr(q.X, q.y), ("fit",)
    if which == "unfitted":
        from kd.model.kd_dlga import KD_DLGA
        from kd.model.kd_sga import KD_SGA
        from kd.model.kd_pysr import KD_PySR
        from kd.model.kd_discover_regression import KD_Discover_Regression
        with quiet():
            yield "new KD_Discover", "discover", KD_Discover(n_iterations=1, n_samples_per_batch=10), ()
            yield "new KD_Discover_SPR", "discover", KD_Discover_SPR(n_iterations=1, n_samples_per_batch=10), ()
            yield "new KD_Discover_Regression", "discover", KD_Discover_Regression(n_iterations=1), ()
            yield "new KD_DLGA", "dlga", KD_DLGA(operators=["u", "u_x", "u_xx"], epi=0.1, input_dim=2), ()
            yield "new KD_SGA", "sga", KD_SGA(), ()
            import kd.model.kd_pysr as K
            K._PySRRegressor = Backend
            yield "new KD_PySR", "pysr", K.KD_PySR(), ()


WHICH = ["discover", "discover nd", "spr", "regression", "dlga", "sga", "sga named", "pysr", "unfitted"]
KINDS = {"discover": ["search_evolution", "density", "tree", "equation", "residual", "field_comparison", "parity", "spr_residual", "spr_field_comparison"],
         "dlga": ["training_curve", "validation_curve", "search_evolution", "optimization", "equation", "derivative_relationships", "parity", "residual", "field_comparison", "time_slices"],
         "sga": ["equation", "parity", "field_comparison", "time_slices", "residual"], "pysr": ["equation", "parity", "residual"]}


def options(kind, family, root, rng):
    """what the caller passes, and the arrays among it"""
    o = {"output_dir": root, "dpi": 40}
    if family == "dlga" and kind in ("field_comparison", "time_slices"):
        o.update(fields(rng))
    if family == "dlga" and kind == "residual":
        o.update(actual=rng.standard_normal(12), predicted=rng.standard_normal(12))
    if rng.random() < 0.5:
        o["style"] = {"font.size": 7}
    return o, [v for v in o.values() if isinstance(v, np.ndarray)]

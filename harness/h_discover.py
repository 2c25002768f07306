"""Small real datasets and KD_Discover models."""
import contextlib, io, os, sys
import numpy as np


@contextlib.contextmanager
def quiet():
    o, e = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        yield
    finally:
        sys.stdout, sys.stderr = o, e


def burgers_like(nx=24, nt=20, seed=0, name="toy"):
    from kd.dataset import PDEDataset
    x = np.linspace(-2, 2, nx)
    t = np.linspace(0, 1, nt)
    X, T = np.meshgrid(x, t, indexing="ij")
    u = np.exp(-(X - 0.7 * T) ** 2) + 0.3 * np.sin(1.3 * X + 0.9 * T + seed)
    return PDEDataset(equation_name=name, x=x, t=t, usol=u, domain={"x": (-2, 2), "t": (0, 1)}, epi=1e-3)


def nd_like(dim, n=10, nt=9, order=None, fields=("u",), params=None, seed=0, name="ndtoy"):
    from kd.dataset import PDEDataset
    names = ["x", "y", "z"][:dim]
    sizes = [n + i for i in range(dim)]
    coords = {a: np.linspace(-1 - 0.1 * i, 1 + 0.2 * i, s) for i, (a, s) in enumerate(zip(names, sizes))}
    coords["t"] = np.linspace(0, 1, nt)
    order = list(order or (names + ["t"]))
    g = dict(zip(order, np.meshgrid(*[coords[a] for a in order], indexing="ij")))
    f = {}
    for k, nm in enumerate(fields):
        v = 0.5 * g["t"] * (k + 1)
        for i, a in enumerate(names):
            v = v + np.sin((1.1 + 0.3 * i + 0.2 * k) * g[a] - (0.6 + 0.1 * i) * g["t"] + seed)
        f[nm] = v
    pf = {p: 1.0 + 0.1 * k + 0.3 * g["t"] * g[names[0]] for k, p in enumerate(params or [])}
    return PDEDataset(equation_name=name, fields_data=f, coords_1d=coords, axis_order=order, target_field=fields[0],
                      lhs_axis="t", param_fields=pf or None)


def discover_model(n=12, binary=None, unary=None, config=None, seed=0, n_iter=2):
    from kd.model.kd_discover import KD_Discover
    kw = {}
    if binary is not None:
        kw["binary_operators"] = binary
    if unary is not None:
        kw["unary_operators"] = unary
    return KD_Discover(n_iterations=n_iter, n_samples_per_batch=n, out_path="./log/", config_out=config, seed=seed, **kw)

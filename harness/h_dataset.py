"""Concrete datasets for the construction requests the specification enumerates, and what the real code answers."""
import numpy as np
from h_discover import quiet

PRIMES = dict(x=1, t=1, y=1, z=1, r=1)


def ints(a):
    """flat list of exact integers (a marker where a number is not one)"""
    out = []
    for v in np.asarray(a).reshape(-1).tolist():
        out.append(int(v) if isinstance(v, (int, float)) and v == v and abs(v) < 2**30 and v == int(v) else "BAD:%r" % (v,))
    return out


def field(a, name=None):
    r = dict(shape=list(np.shape(a)), v=ints(a))
    if name:
        r["n"] = name
    return r


class Request:
    """keyword arguments for PDEDataset plus the record of them the specification reads"""

    def __init__(self, rng, case, *, fields=1, params=0, poly=None, uniform=False, lhs=None, big=1000, step=5):
        self.mode, self.order = case["mode"], list(case["order"])
        defect = case["defect"]
        self.defect = defect
        sizes = dict(zip(self.order, case["sizes"]))
        self.lhs = lhs or case["lhs"]
        self.coords = {}
        for i, n in enumerate(self.order):
            st = int(rng.integers(1, step))
            inc = np.full(sizes[n], st) if uniform else rng.integers(1, step, size=sizes[n])
            self.coords[n] = (int(rng.integers(-20, 20)) + np.cumsum(inc)).astype(float)
        shape = tuple(sizes[n] for n in self.order)
        tot = int(np.prod(shape))

        def arr():
            return rng.permutation(big)[:tot].reshape(shape).astype(float) if tot <= big else rng.integers(0, big, size=shape).astype(float)
        self.poly = poly
        if poly is None:
            self.target = "u" if fields == 1 else str(rng.choice(["u", "rho"]))
            names = [self.target] + ["w%d" % k for k in range(1, fields)]
            self.fields = {n: arr() for n in names}
        else:
            self.target = "u"
            g = dict(zip(self.order, np.meshgrid(*[self.coords[n] for n in self.order], indexing="ij")))
            x, t = g["x"], g["t"]
            self.fields = {"u": poly[0] + poly[1] * x + poly[2] * t + poly[3] * x * t}
        self.params = {"p%d" % k: arr() for k in range(params)}
        order, coords, flds, par = list(self.order), dict(self.coords), dict(self.fields), dict(self.params)
        target, lhsa = self.target, self.lhs
        has = ["x", "t", "u"] if self.mode == "legacy" else ["fields", "coords", "order"]
        u = flds[self.target]
        finite = {n: True for n in par}
        applies = True
        if defect == "transposed":
            flds[target] = u.T.copy()
        elif defect == "long":
            flds[target] = np.concatenate([u, u[:1]], axis=0)
        elif defect == "longlast":
            flds[target] = np.concatenate([u, u[..., :1]], axis=-1)
        elif defect == "short":
            k = int(rng.integers(len(order)))
            coords[order[k]] = np.append(coords[order[k]], coords[order[k]][-1] + 1)
        elif defect == "flat":
            flds[target] = u.reshape(-1)
        elif defect == "extra_dim":
            flds[target] = u[..., None]
        elif defect == "param_shape":
            par["q"] = u.T.copy() if len(set(shape)) > 1 else u[..., None]
            finite["q"] = True
        elif defect == "param_flat":
            par["q"] = u.reshape(-1).copy()
            finite["q"] = True
        elif defect in ("param_nan", "param_inf"):
            par["q"] = u.copy()
            par["q"].reshape(-1)[int(rng.integers(tot))] = np.nan if defect == "param_nan" else -np.inf
            finite["q"] = False
        elif defect in ("no_x", "no_t", "no_u"):
            if self.mode == "legacy":
                has.remove(defect[3:])
            else:
                applies = False
        elif self.mode == "legacy" and defect != "none":
            applies = False
        elif defect == "no_fields":
            has.remove("fields")
        elif defect == "no_coords":
            has.remove("coords")
        elif defect == "no_order":
            has.remove("order")
        elif defect == "empty_order":
            order, coords, flds = [], {}, {target: np.array(3.0)}
        elif defect == "empty_fields":
            flds = {}
        elif defect == "dup_axis":
            order = order + [order[0]]
        elif defect == "extra_axis":
            order = order + ["q"]
        elif defect == "extra_coord":
            coords["q"] = np.array([1.0, 2.0])
        elif defect == "renamed_axis":
            order = order[:-1] + ["q"]
        elif defect == "no_target":
            target = "missing"
        elif defect == "no_lhs":
            lhsa = "missing"
        elif defect == "other_field":
            flds["v"] = np.concatenate([u, u[:1]], axis=0)
        elif defect == "other_transposed":
            flds["v"] = u.T.copy() if len(set(shape)) > 1 else u[..., None]
        elif defect == "reordered":       # a different axis order for the same arrays
            order = order[1:] + order[:1]
        elif defect == "scalar_field":
            flds[target] = np.array(1.0)
        self.applies = applies
        kw = dict(equation_name="req")
        if self.mode == "legacy":
            args = {}
            if "x" in has: args["x"] = coords["x"]
            if "t" in has: args["t"] = coords["t"]
            if "u" in has: args["usol"] = flds[target]
            col = rng.random() < 0.3
            if col and "x" in args: args["x"] = args["x"].reshape(-1, 1)
            if rng.random() < 0.4 and len(args) == 3:
                kw["pde_data"] = dict(args)
            else:
                kw.update(args)
            target, lhsa = "u", "t"
            flds = {"u": flds[self.target]}
        else:
            if "fields" in has: kw["fields_data"] = flds
            if "coords" in has: kw["coords_1d"] = coords
            if "order" in has: kw["axis_order"] = order
            kw.update(target_field=target, lhs_axis=lhsa)
        if par:
            kw["param_fields"] = par
        self.kw = kw
        self.watch = [(a, a.copy(), a.shape) for a in list(coords.values()) + list(flds.values()) + list(par.values())]
        self.rec = dict(mode=self.mode, has=has, order=order, coords=[dict(n=n, v=ints(v)) for n, v in coords.items()], fields=[field(a, n) for n, a in flds.items()],
                        target=target, lhs=lhsa, params=[dict(field(a, n), finite=finite[n]) for n, a in par.items()])

    def kept(self):
        return all(a.shape == s and np.array_equal(a, b, equal_nan=True) for a, b, s in self.watch)

    def build(self):
        from kd.dataset import PDEDataset
        ds, ok = None, True
        try:
            with quiet():
                ds = PDEDataset(**self.kw)
        except Exception as ex:
            ok = False
            self.err = ex
        return ds, dict(ev="construct", c=self.rec, ok=ok, kept=self.kept())


def attempt(f, *a, **k):
    try:
        with quiet():
            return True, f(*a, **k)
    except Exception:
        return False, None

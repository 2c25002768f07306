"""C25: the symbolic-regression wrapper exposes its last successful fit only."""
import numpy as np

LEVEL = "model_checking"
MC = 'CONSTANTS MaxFits = %d Emit = %s\nSPECIFICATION Spec\nINVARIANTS LastSuccess NeverHalf NoContact\nCHECK_DEADLOCK FALSE\n'


class Log:
    def __init__(self):
        self.k, self.plan, self.spec, self.built, self.fits = 0, "ok", {}, [], []


def backend(log):
    """a stand-in for the external regressor; every instance belongs to one call of fit"""
    import sympy

    class Row:
        def __init__(s, t):
            s.t = t

        def __getitem__(s, k):
            raise KeyError(k)

        def __str__(s):
            return s.t

    class Fake:
        def __init__(self, **kw):
            log.built.append(kw)
            if log.plan == "build":
                raise RuntimeError("no backend")
            self.k, self.spec = log.k, log.spec

        def fit(self, X, y):
            log.fits.append((self.k, X, y))
            if log.plan == "fit":
                raise FloatingPointError("search failed")

        def predict(self, X):
            return 1000.0 * self.k + np.asarray(X).sum(axis=1)

        def __str__(self):
            return "model%d" % self.k

        def __getattr__(self, n):
            sp = self.__dict__.get("spec") or {}
            if n in ("latex", "sympy", "get_best"):
                how = sp["best" if n == "get_best" else n]
                if how == "absent":
                    raise AttributeError(n)
                if how == "raises":
                    def bad(*a, **k):
                        raise ValueError(n)
                    return bad
                if n == "latex":
                    return lambda: "  " if how == "blank" else sp["ltext"]
                if n == "sympy":
                    return lambda: sympy.Symbol("s") ** self.k + 1
                return lambda: {"equation": sp["btext"]} if how == "dict" else Row(sp["btext"])
            raise AttributeError(n)
    return Fake


def flat(kw):
    return [[k, str(kw[k])] for k in sorted(kw)]


def drive(rng, plans, name):
    import sympy
    from kd.model import kd_pysr as M
    log = Log()
    had = M._PySRRegressor
    M._PySRRegressor = backend(log)
    try:
        bo, uo = [None, ["+", "*"], ["/", "-", "+"]][rng.integers(3)], [None, ["sin"], []][rng.integers(3)]
        extra = [None, {"populations": 3}, {"niterations": 7, "maxsize": 9}][rng.integers(3)]
        want = {"niterations": 50}
        if bo is not None:
            want["binary_operators"] = list(bo)
        if uo is not None:
            want["unary_operators"] = list(uo)
        want.update(extra or {})
        args = [None if v is None else (dict(v) if isinstance(v, dict) else list(v)) for v in (bo, uo, extra)]
        m = M.KD_PySR(niterations=50, binary_operators=args[0], unary_operators=args[1], extra_model_kwargs=args[2])
        for v in args:                      # the caller's own lists are the caller's
            if isinstance(v, list):
                v.append("cos")
            elif isinstance(v, dict):
                v["zzz"] = 1
        ev = [dict(ev="new", kwargs=flat(want), best=str(m.best_equation_))]

        def use():
            X = rng.integers(0, 9, size=(int(rng.integers(1, 4)), int(rng.integers(1, 3))))
            e = dict(ev="use", x=[int(v) for v in X.sum(axis=1)], pred=[], latex="", lhs=str(rng.choice(["y", "u_t"])), predict_raised=False, latex_raised=False)
            try:
                e["pred"] = [int(v) for v in m.predict(X if rng.random() < 0.5 else X.tolist())]
            except RuntimeError:
                e["predict_raised"] = True
            try:
                e["latex"] = m.equation_latex(e["lhs"])
            except RuntimeError:
                e["latex_raised"] = True
            e["best"] = str(m.best_equation_)
            e["train"] = [] if m.X_train_ is None else [np.asarray(m.X_train_).tolist(), np.asarray(m.y_train_).tolist()]
            ev.append(e)
        use()
        for k, p in enumerate(plans, 1):
            n, d = int(rng.integers(1, 5)), int(rng.integers(1, 3))
            X = rng.integers(-5, 6, size=(n, d)).astype(float)
            y = rng.integers(-5, 6, size=n).astype(float)
            if p == "ndim":
                Xa = [X.reshape(-1), X.reshape(1, n, d)][rng.integers(2)]
            else:
                Xa = X
            ya = np.concatenate([y, y]) if p == "rows" else y.reshape(-1, 1) if rng.random() < 0.5 else y
            log.k, log.plan = k, p
            log.spec = dict(latex=str(rng.choice(["text", "blank", "raises", "absent"])), sympy=str(rng.choice(["text", "raises", "absent"])), best=str(rng.choice(["dict", "row", "raises", "absent"])),
                            ltext="L%d" % k, btext="B%d" % k, name="model%d" % k, stext=sympy.latex(sympy.Symbol("s") ** k + 1), data=[X.tolist(), y.tolist()])
            nb, nf = len(log.built), len(log.fits)
            raised = False
            try:
                m.fit(Xa.tolist() if rng.random() < 0.3 else Xa, ya)
            except (ValueError, RuntimeError, FloatingPointError):
                raised = True
            seen = [] if len(log.fits) == nf else [np.asarray(log.fits[-1][1]).tolist(), np.asarray(log.fits[-1][2]).tolist()]
            ev.append(dict(ev="fit", plan=p, raised=raised, contacted=len(log.built) > nb or len(log.fits) > nf, kwargs=flat(log.built[-1]) if len(log.built) > nb else [], given=[X.tolist(), y.tolist()], seen=seen, backend=log.spec))
            use()
        return dict(name=name, events=ev)
    finally:
        M._PySRRegressor = had


def run(cx):
    rng = np.random.default_rng(cx.seed)
    n = 5 if cx.thorough else 4
    cx.model_check("WrapperMC", MC % (n + 1, "FALSE"))
    cases = cx.generate("WrapperMC", MC % (n, "TRUE"))
    tr = [drive(rng, c, "fits-%s" % "-".join(c)) for c in cases]
    tr += [drive(rng, [str(p) for p in rng.choice(["ok", "ok", "rows", "ndim", "build", "fit"], size=9)], "long-%d" % k) for k in range(200 if cx.thorough else 30)]
    cx.validate("WrapperTrace", tr, key=lambda t, j: "wrapper:%s:%s" % (t["events"][j]["ev"], t["events"][j].get("plan", "")), what="wrapper")

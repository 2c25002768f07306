"""C31: stability selection asks the distinct leading candidates and reports the one most draws favour."""
import numpy as np
from h_discover import quiet
from c_c05 import Universe, StubTask, FakeController, MAXLEN, SC

LEVEL = "model_checking"
MC = """CONSTANTS NMax = %d NLn = %d NErr = %d K = %d D = %d V = %d Emit = %s
SPECIFICATION Spec
INVARIANTS NoneLost Voters Winner ExactWins
CHECK_DEADLOCK FALSE
"""


class Task(StubTask):
    """scripted rewards, test errors and stability draws"""
    def __init__(self, lib):
        super().__init__(lib)
        self.err, self.draw, self.asked = {}, {}, []

    def evaluate(self, p):
        return {"nmse_test": np.float64(self.err[tuple(int(t) for t in p.tokens)]), "success": False}

    def stability_test(self, p):
        k = tuple(int(t) for t in p.tokens)
        self.asked.append(k)
        mse, cv = self.draw[k]
        return mse.copy(), cv.copy()


def drive(U, name, cands, k, rng, cap=None, off=False):
    """cands: (length, error class, draws) in the order of the memory"""
    from kd.model.discover.program import Program
    from kd.model.discover.searcher import Searcher
    task = Task(U.lib)
    Program.clear_cache()
    Program.set_task(task)
    Program.n_objects, Program.have_cython, Program.default_terms = 1, False, []
    by_len = {}
    for i, s in U.seq.items():
        by_len.setdefault(len(s), []).append(i)
    ids, meta = [], {}
    for pos, (ln, err, prod) in enumerate(cands):
        i = int(rng.choice([x for x in by_len[ln] if x not in ids]))
        ids.append(i)
        meta[i] = (ln, err, prod)
        s = U.seq[i]
        task.script[s] = ((60 - pos) / SC, True)
        task.err[s] = err * 1e-3 + float(rng.choice([0, 0, 1e-8, -1e-8]))
        f = 2.0 ** rng.integers(-6, 7, len(prod))
        task.draw[s] = (np.array(prod, float) * f, 1 / f)
    ctrl = FakeController(cap or len(ids), len(U.ar))
    sr = Searcher(ctrl, {"n_iterations": 1, "n_samples_per_batch": len(ids), "stability_selection": False if off else k, "epsilon": 1.0})
    order = [int(x) for x in rng.permutation(ids)]
    real = sr.search_one_step

    def step(epoch=0, verbose=False):
        ctrl.next = (order, [list(U.seq[i]) + [int(x) for x in rng.integers(0, len(U.ar), MAXLEN - len(U.seq[i]))] for i in order])
        return real(epoch=epoch, verbose=verbose)
    sr.search_one_step = step
    rev = lambda t: U.rev.get(tuple(int(x) for x in t), -1)
    with quiet():
        res = sr.search(n_epochs=1, verbose=False)
    p = res["program"]
    win = rev(p.tokens)
    shown = win if res["expression"] == p.str_expression and res["traversal"] == repr(p) and sr.best_p is p else -1
    after = [rev(np.frombuffer(i, dtype=np.int32)) for i, _ in sr.pq.iter_in_order()]
    asked = [rev(t) for t in task.asked]
    if off:
        return dict(ev="off", asked=asked, win=win, best=ids[0], shown=shown)
    held = [i for i in ids][:cap or len(ids)]
    return dict(ev="vote", k=k, asked=asked, win=win, shown=shown, after=after,
                list=[dict(id=i, ln=meta[i][0], err=meta[i][1]) for i in held], prod=[list(meta[a][2]) for a in asked if a in meta],
                rew=int(round(float(res["r"]) * SC)), own=60 - ids.index(win) if win in ids else -1)


def estimates(cx, rng, n):
    """the real test of real equations on samples whose answer is known"""
    from kd.model.discover.task.pde.pde_pinn import PDEPINNTask
    from kd.model.discover.program import Program, from_tokens
    t = PDEPINNTask(["add", "mul", "n2", "sub"], "toy", metric="pde_reward", metric_params=(0.01,), n_input_var=1)
    Program.clear_cache()
    Program.set_task(t)
    Program.n_objects, Program.have_cython, Program.default_terms = 1, False, []
    Program.set_execute(False, False)
    L = list(t.library.names)
    eqs = {"u": (["u1"], lambda u: [u]), "u2": (["n2", "u1"], lambda u: [u ** 2]), "u+u2": (["add", "u1", "n2", "u1"], lambda u: [u, u ** 2]),
           "u3": (["mul", "u1", "n2", "u1"], lambda u: [u ** 3]), "u+u3": (["add", "u1", "mul", "u1", "n2", "u1"], lambda u: [u, u ** 3])}
    traces = []
    for k in range(n):
        N = int(rng.choice([1200, 1501, 2000]))
        u = rng.uniform(0.5, 2.5, (N, 1))
        x = np.linspace(0, 1, N).reshape(-1, 1)
        true = list(eqs)[int(rng.integers(len(eqs)))]
        cols = eqs[true][1](u)
        clean = sum(c * a for c, a in zip(cols, (1.5, -0.8)))
        noisy = bool(k % 3)
        ut = clean + (0.2 * rng.normal(size=(N, 1)) if noisy else 0)
        t.u, t.x, t.ut = [u.copy()], [x.copy()], ut.copy()
        np.random.seed(int(rng.integers(1 << 30)))
        got = {}
        names = [true] + [e for e in eqs if e != true]
        if not noisy and "+" not in true:
            names = [nm for nm in names if nm == true or true not in nm.split("+")]     # a larger equation that holds too
        for nm in names:
            p = from_tokens(np.array([L.index(a) for a in eqs[nm][0]], dtype=np.int32))
            tok = [int(a) for a in p.tokens]
            with quiet():
                m, c = p.execute_stability_test()
            m, c = np.asarray(m, float).ravel(), np.asarray(c, float).ravel()
            got[nm] = (m, c)
            if noisy and (nm == true or len(eqs[nm][0]) < 4):
                A = np.hstack(eqs[nm][1](u))
                w = np.linalg.lstsq(A, ut, rcond=None)[0]
                r = ut - A @ w
                # half the sample drawn with repetition, then half the sample drawn from that: what one resample leaves
                # of the uncertainty of a coefficient (sandwich form, valid for a wrong equation too)
                G = np.linalg.inv(A.T @ A)
                se = np.sqrt(np.diag(G @ (A.T @ (A * r ** 2)) @ G)) * np.sqrt(N / (N // 2))
                cv = float(np.mean(se / np.abs(w.ravel())))
                if np.max(se / np.abs(w.ravel())) < 0.1:
                    kept = np.array_equal(t.u[0], u) and np.array_equal(t.x[0], x) and np.array_equal(t.ut, ut) and tok == [int(a) for a in p.tokens]
                    traces.append(dict(name="estimate", events=[dict(ev="estimate", draws=len(m), spreads=len(c), kept=bool(kept), eq=nm,
                                                                     mse=int(round(1000 * m.mean() / (r ** 2).mean())), cv=int(round(1000 * c.mean() / (0.92 * cv))))]))
        if not noisy:
            for nm in names[1:]:
                a, b = got[true][0] * got[true][1], got[nm][0] * got[nm][1]
                traces.append(dict(name="duel", events=[dict(ev="duel", eq="%s against %s" % (true, nm), draws=len(a), won=int((a < b).sum()))]))
    return traces


def run(cx):
    cx.model_check("StabSelMC", MC % (4, 3, 3, 2, 1, 2, "FALSE"))
    cx.model_check("StabSelMC", MC % (3, 2, 3, 3, 3, 2, "FALSE"))
    if cx.thorough:
        cx.model_check("StabSelMC", MC % (5, 3, 3, 3, 1, 2, "FALSE"))
        cx.model_check("StabSelMC", MC % (3, 1, 3, 3, 3, 3, "FALSE"))
    U = Universe()
    rng = np.random.default_rng(cx.seed)
    traces = []
    # every memory of the model and every outcome of its draws, replayed
    seen = set()
    for nmax, nln, nerr, K, D, V in ((3, 2, 2, 2, 2, 2), (3, 1, 3, 3, 2, 2)):
        for h in cx.generate("StabSelMC", MC % (nmax, nln, nerr, K, D, V, "TRUE")):
            lst, prod = h["list"], h["prod"]
            key = (K, str(h))
            if key in seen:
                continue
            seen.add(key)
            errs = []
            for c in reversed(lst):
                if c["err"] not in errs:
                    errs.insert(0, c["err"])
            # the draws belong to the equation, whichever form of it is asked
            of = {e: [9] * D for e in errs}
            for e, q in zip(errs, prod):
                of[e] = list(q)
            traces.append(dict(name="spec", events=[drive(U, "spec", [(3 if c["ln"] == 1 else 5, c["err"], of[c["err"]]) for c in lst], K, rng)]))
    cx.count("replayed_spec_histories", len(traces))
    for k in range(400 if cx.thorough else 120):
        n = int(rng.integers(1, 11))
        ne = int(rng.integers(1, n + 1))
        D = int(rng.choice([1, 2, 5, 100]))
        hi = int(rng.choice([2, 5, 1000]))
        fav = {e: [int(x) for x in rng.integers(1, hi + 1, D)] for e in range(1, ne + 1)}
        lens = [1, 2, 3, 3, 4, 4, 5, 5, 5]
        used = {1: 0, 2: 0}
        cs = []
        for _ in range(n):
            ln = int(rng.choice(lens))
            if ln < 3:
                if used[ln] >= 1:
                    ln = 5
                else:
                    used[ln] += 1
            cs.append((ln, int(rng.integers(1, ne + 1)), [int(x) for x in rng.integers(1, hi + 1, D)] if k % 2 else None))
        cs = [(a, e, d or fav[e]) for a, e, d in cs]
        cap = int(rng.integers(1, n + 1)) if k % 5 == 0 else None
        traces.append(dict(name="random", events=[drive(U, "random", cs, int(rng.choice([1, 2, 3, 3, 5, 20])), rng, cap)]))
        if k % 6 == 0:
            traces.append(dict(name="off", events=[drive(U, "off", cs, 0, rng, None, True)]))
    traces += estimates(cx, rng, 12 if cx.thorough else 6)
    cx.validate("StabSelTrace", traces, key=lambda t, j: "%s" % t["name"], what="stability selection")
    cx.assumptions.append("the search's candidates are real; their rewards, test errors and draws are scripted; the draws themselves are checked on real equations statistically")

"""C05: one search never loses its best candidate; the elite is exactly the risk quantile."""
import itertools
import numpy as np
from h_discover import quiet

LEVEL = "model_checking"
MC = """CONSTANTS NIds = %d B = %d MaxIter = %d Num = %d Den = %d Cap = %d Emit = %s
SPECIFICATION Spec
INVARIANTS BestIsMax BestEvaluated BestInMemory
PROPERTIES Monotone EliteHasBest
CHECK_DEADLOCK FALSE
%s
"""
MAXLEN = 9
SC = 64


class StubTask:
    """scripted rewards for real candidates"""
    task_type, stochastic, max_depth, noise_level, spatial_error, add_const, cut_ratio = "pde", False, 9, 0, False, False, 0.03

    def __init__(self, lib):
        self.library, self.script, self.calls = lib, {}, []

    def reward_function(self, p):
        k = tuple(int(t) for t in p.tokens)
        r, ok = self.script[k]
        p.invalid, p.cached_terms = (not ok), None
        p.error_node = p.error_type = None if ok else "scripted"
        self.calls.append(k)
        return r, [1.0] * len(p.STRidge.terms), None, None

    def evaluate(self, p):
        return {"nmse_test": 0.0, "success": False}


class FakeController:
    max_length = MAXLEN

    def __init__(self, cap, nch, mini=3):
        self.pqt_k, self.pqt_batch_size, self.nch = cap, mini, nch
        self.next, self.trained = None, None

    def sample_episodes(self, n):
        import torch
        ids, seqs = self.next
        assert len(ids) == n
        self.trained = None
        return (torch.tensor(seqs, dtype=torch.int32), torch.tensor([[[float(i)] * MAXLEN] * 4 for i in ids]),
                torch.tensor([[[float(i)] * self.nch] * MAXLEN for i in ids]), torch.tensor([MAXLEN] * n), torch.tensor([True] * n))

    def train_step(self, b, batch, pqt):
        self.trained = (b, batch, pqt)


class Universe:
    """distinct complete expressions of the real library, numbered; candidate i is expression i"""
    def __init__(self):
        from h_sampler import make_lib
        self.lib = make_lib(["add", "mul", "n2"])
        ar = [t.arity for t in self.lib.tokens]
        seqs = []
        for n in range(1, 6):
            for s in itertools.product(range(len(ar)), repeat=n):
                d, ok = 1, True
                for k, t in enumerate(s):
                    d += ar[t] - 1
                    if d == 0 and k < n - 1:
                        ok = False
                        break
                if ok and d == 0:
                    seqs.append(s)
        self.seq = {i + 1: s for i, s in enumerate(seqs)}
        self.rev = {s: i for i, s in self.seq.items()}
        self.ar = ar

    def ident(self, row):
        d = 1
        for k, t in enumerate(row):
            d += self.ar[int(t)] - 1
            if d == 0:
                return self.rev.get(tuple(int(x) for x in row[:k + 1]), -1)
        return -1


def scaled(x):
    x = float(x)
    return -1 if not np.isfinite(x) else int(round(x * SC)) if abs(x * SC - round(x * SC)) < 1e-6 else -999


def drive(U, name, batches, cand, num, den, cap, rng, again=()):
    """cand: id -> (score or None for not-a-number, valid)."""
    from kd.model.discover.program import Program
    from kd.model.discover.searcher import Searcher
    task = StubTask(U.lib)
    Program.clear_cache()
    Program.set_task(task)
    Program.n_objects, Program.have_cython, Program.default_terms = 1, False, []
    for i, (sc, ok) in cand.items():
        task.script[U.seq[i]] = (float("nan") if sc is None else sc / SC, ok)
    ctrl = FakeController(cap, len(U.ar))
    s = Searcher(ctrl, {"n_iterations": len(batches), "n_samples_per_batch": len(batches[0]), "stability_selection": 0, "epsilon": num / den})
    ev = [dict(ev="new", cap=cap, num=num, den=den)]
    C = lambda i: dict(id=i, sc=0 if cand[i][0] is None else cand[i][0], ok=cand[i][1], ln=len(U.seq[i]), on=True)
    pos = [0]

    def rows(b):
        g = lambda a, *ix: int(round(float(np.asarray(a)[ix])))
        return [dict(id=U.ident(np.asarray(b.actions)[k]), sc=scaled(b.rewards[k]), ln=int(b.lengths[k]), obs=g(b.obs, k, 1, 0),
                     prior=g(b.priors, k, 1, 0), on=bool(b.on_policy[k])) for k in range(len(b.rewards))]

    real = s.search_one_step

    def step(epoch=0, verbose=False):
        ids = batches[pos[0]]
        pos[0] += 1
        seqs = [list(U.seq[i]) + [int(x) for x in rng.integers(0, len(U.ar), MAXLEN - len(U.seq[i]))] for i in ids]
        ctrl.next = (ids, seqs)
        info = real(epoch=epoch, verbose=verbose)
        t = ctrl.trained
        e = dict(ev="step", batch=[C(i) for i in ids], trained=t is not None, rows=rows(t[1]) if t else [], base=scaled(t[0]) if t else -1,
                 mini=[dict(id=r["id"], sc=r["sc"], ln=r["ln"], obs=r["obs"], prior=r["prior"]) for r in rows(t[2])] if t else [],
                 ret=U.rev.get(tuple(int(x) for x in info["program"].tokens), -1) if info else 0,
                 best=scaled(s.best_reward), bestp=U.rev.get(tuple(int(x) for x in s.best_p.tokens), -1) if s.best_p is not None else 0,
                 list=[dict(id=U.rev.get(tuple(np.frombuffer(i, dtype=np.int32).tolist()), -1), sc=scaled(x.rewards), ln=int(x.lengths))
                       for i, x in s.pq.iter_in_order()])
        if info and abs(float(info["r"]) * SC - cand[e["ret"]][0]) > 1e-6:
            e["ret"] = -2
        ev.append(e)
        return info
    s.search_one_step = step
    parts = [p for p in again if 0 < p < len(batches)] + [len(batches)]
    start = 0
    for k, p in enumerate(parts):
        keep = bool(k % 2)
        if k:
            ev.append(dict(ev="again", keep=keep))
        with quiet():
            res = s.search(n_epochs=p - start, verbose=False, keep_history=keep)
        i = U.rev.get(tuple(int(x) for x in res["program"].tokens), -1)
        ok = res["expression"] == res["program"].str_expression and res["traversal"] == repr(res["program"])
        r = float(res["r"])
        ev.append(dict(ev="end", id=i, sc=scaled(0.0 if np.isnan(r) else r), expr=i if ok else -1))
        start = p
    return dict(name=name, events=ev)


def run(cx):
    view = "VIEW View"
    cx.model_check("SearchMC", MC % (5, 3, 3, 1, 2, 2, "FALSE", view))
    cx.model_check("SearchMC", MC % (5, 4, 2 if not cx.thorough else 3, 1, 4, 2, "FALSE", view))
    cx.model_check("SearchMC", MC % (4, 3, 3, 1, 1, 1, "FALSE", view))
    U = Universe()
    rng = np.random.default_rng(cx.seed)
    traces = []
    # the specification's histories (candidate 1 invalid, 2 valid but worthless, others by rank), replayed
    for num, den, cap in ((1, 2, 2), (1, 1, 1)):
        hist = cx.generate("SearchMC", MC % (4, 2, 2, num, den, cap, "TRUE", ""))
        off = 3
        for h in sorted({tuple(map(tuple, h)) for h in hist}):
            cand = {off + i: ((0 if i <= 2 else (i - 2) * 8), i != 1) for i in range(1, 5)}
            traces.append(drive(U, "spec-%d/%d-%s" % (num, den, h), [[off + i for i in b] for b in h], cand, num, den, cap, rng))
    cx.count("replayed_spec_histories", len(traces))
    n = 250 if cx.thorough else 60
    for k in range(n):
        B = int(rng.choice([2, 3, 5, 8, 16, 33, 50]))
        num, den = [(1, 2), (1, 4), (3, 4), (1, 1), (1, 8), (1, 50), (1, 50)][int(rng.integers(0, 7))]
        if den == 50:
            B = 50  # the default risk level; the quantile index is far from a rounding boundary
        ids = [int(x) for x in rng.permutation(sorted(U.seq))[:int(rng.integers(3, 40))]]
        levels = int(rng.integers(1, 60))
        pinv = float(rng.choice([0, 0.2, 0.6, 0.95]))
        cand = {}
        for i in ids:
            x = rng.random()
            if x < pinv:
                cand[i] = (0, False)
            elif x < pinv + 0.05:
                cand[i] = (None, True)
            else:
                cand[i] = (int(rng.integers(0, levels)), True)
        nb = int(rng.integers(1, 7))
        weights = rng.random(len(ids))
        # improving, worsening and mixed rounds
        order = sorted(ids, key=lambda i: cand[i][0] or 0, reverse=bool(k % 2))
        batches = []
        for b in range(nb):
            if k % 3 == 0:
                pool = order[: max(2, (b + 1) * len(order) // nb)][-max(2, len(order) // 2):]
            else:
                pool = ids
            batches.append([int(x) for x in rng.choice(pool, B)])
        if all(cand[i][0] is None for i in batches[0]):
            cand[batches[0][0]] = (0, False)
        again = [int(x) for x in rng.integers(1, nb + 1, 2)] if k % 4 == 0 else ()
        traces.append(drive(U, "random-%d" % k, batches, cand, num, den, int(rng.integers(1, 11)), rng, sorted(set(again))))
    cx.validate("SearchTrace", traces, key=lambda t, j: "%s:%s" % (t["events"][j]["ev"], t["name"].split("-")[0]), what="search bookkeeping")
    cx.assumptions.append("candidates are real Program objects; their rewards are scripted, the sampler and its training are recorded stand-ins")

"""C04: the bounded best-candidate memory."""
import itertools
import numpy as np

LEVEL = "model_checking"
MC = """CONSTANTS NIds = %d MaxSc_ = %d Cap = %d MaxSteps = %d Mode = "%s" Emit = %s
SPECIFICATION Spec
INVARIANTS NoTwins Bounded BestKept TopK FullIfPossible
CHECK_DEADLOCK FALSE
"""


class P:
    def __init__(self, i): self.str = b"cand-%03d" % i


def pid(b): return int(b.split(b"-")[1])


class Drive:
    """One memory object of the real code and what a reader sees of it."""
    def __init__(self, mode, cap, seed=0):
        from kd.model.discover.dso.memory import make_queue
        kw = dict(priority=(mode != "fifo"), capacity=cap, seed=seed)
        if mode == "rm":
            kw["remove_same"] = True
        self.mode, self.q, self.score, self.ln = mode, make_queue(**kw), {}, {}
        self.ev = [dict(ev="new", mode=mode, cap=cap, size=len(self.q))]

    def entry(self, i): return dict(id=i, sc=self.score[i], ln=self.ln[i])

    def define(self, i, sc, ln): self.score[i], self.ln[i] = sc, ln

    def mk(self, ids):
        import torch
        from kd.model.discover.dso.memory import Batch
        n = len(ids)
        tensor = np.array if self.mode == "rm" else torch.tensor  # this variant is only used with numpy batches
        return Batch(actions=tensor([[i] * 4 for i in ids]), obs=tensor([[[float(i)] * 4] * 3 for i in ids]),
                     priors=tensor([[[float(i)] * 2] * 4 for i in ids]), lengths=tensor([self.ln[i] for i in ids]),
                     rewards=tensor([self.score[i] / 64.0 for i in ids]), on_policy=tensor([True] * n))

    def rec(self, item, b):
        return dict(id=pid(item), sc=int(round(float(b.rewards) * 64)), ln=int(b.lengths))

    def listing(self):
        if self.mode == "fifo":
            return [self.rec(c.item, c.extra_data) for c in self.q.heap]
        return [self.rec(i, e) for i, e in self.q.iter_in_order()]

    def ends(self, d):
        if self.mode != "fifo":
            for k, f in (("max", self.q.get_max), ("min", self.q.get_min)):
                s, i, e = f()
                r = self.rec(i, e)
                r["sc"] = int(round(float(s) * 64))
                d[k] = r
        return d

    def ins(self, i):
        from kd.model.discover.dso.memory import get_samples
        b = self.mk([i])
        self.q.push_sample(get_samples(b, 0), P(i))
        self.ev.append(self.ends(dict(ev="ins", e=self.entry(i), list=self.listing(), size=len(self.q))))

    def batch(self, ids):
        self.q.push_batch(self.mk(ids), [P(i) for i in ids])
        self.ev.append(dict(ev="batch", es=[self.entry(i) for i in ids], list=self.listing(), size=len(self.q)))

    def best(self, ids):
        b = self.mk(ids)
        top = max(self.score[i] for i in ids)
        before = None
        self.q.push_best(b, [P(i) for i in ids])
        i = next(i for i in ids if self.score[i] == top)
        self.ev.append(self.ends(dict(ev="ins", e=self.entry(i), list=self.listing(), size=len(self.q))))

    def pop(self):
        r = self.q.pop()
        e = self.rec(r[1], r[2])
        self.ev.append(dict(ev="pop", e=e, list=self.listing(), size=len(self.q)))

    def rows(self, b):
        g = lambda a, *ix: int(round(float(np.asarray(a)[ix])))
        return [dict(id=g(b.actions, k, 0), obs=g(b.obs, k, 0, 0), prior=g(b.priors, k, 0, 0), sc=int(round(float(b.rewards[k]) * 64)),
                     ln=int(b.lengths[k])) for k in range(len(b.rewards))]

    def sample(self, n, tens):
        b = self.q.sample_batch(n, make_tensor=tens)
        self.ev.append(dict(ev="sample", n=n, rows=self.rows(b)))

    def all(self):
        self.ev.append(dict(ev="all", rows=self.rows(self.q.to_batch())))


def run(cx):
    # design: every history over a small universe keeps the memory's promises
    for mode in ("best", "rm"):
        for cap in (1, 2, 3):
            cx.model_check("MemoryMC", MC % (4 if not cx.thorough else 5, 3, cap, 5 if not cx.thorough else 6, mode, "FALSE"))
    traces = []
    # every history the specification has, replayed into the real memory
    for mode, cap in itertools.product(("best", "rm", "fifo"), (1, 2, 3)):
        steps = 5 if cx.thorough else 4
        hists = cx.generate("MemoryMC", MC % (4, 3, cap, steps, "rm" if mode == "rm" else "best", "TRUE"))
        seen = set()
        for h in hists:
            h = tuple(h)
            if len(h) < steps or h in seen:
                continue
            seen.add(h)
            d = Drive(mode, cap)
            for i in range(1, 5):
                d.define(i, 1 + (i * 2) % 3, 1 + i % 2)
            for i in h:
                d.ins(i)
            traces.append(dict(name="spec-%s-cap%d-%s" % (mode, cap, "".join(map(str, h))), events=d.ev))
    cx.count("replayed_spec_histories", len(traces))
    # long histories: batches as the search makes them, ties, repeats, mini-batch sampling, pops
    rng = np.random.default_rng(cx.seed)
    for k in range(240 if cx.thorough else 60):
        mode = ("best", "best", "fifo", "rm")[k % 4]
        cap = int(rng.integers(1, 12))
        d = Drive(mode, cap, seed=k)
        n = int(rng.integers(5, 40))
        levels = int(rng.integers(2, 40))
        for i in range(1, n + 1):
            d.define(i, int(rng.integers(0, levels)), int(rng.integers(1, 5)))
        for _ in range(int(rng.integers(10, 40))):
            op = rng.random()
            if op < 0.4:
                d.ins(int(rng.integers(1, n + 1)))
            elif op < 0.65:
                d.batch([int(x) for x in rng.integers(1, n + 1, size=int(rng.integers(1, 5)))])
            elif op < 0.7:
                ids = [int(x) for x in rng.integers(1, n + 1, size=int(rng.integers(1, 5)))]
                d.best(sorted(set(ids), key=ids.index))
            elif len(d.q) == 0:
                continue
            elif op < 0.85:
                d.sample(int(rng.integers(1, 6)), bool(rng.integers(0, 2)))
            elif op < 0.93:
                d.all()
            elif op < 0.97:
                d.pop()
        traces.append(dict(name="random-%s-%d" % (mode, k), events=d.ev))
    # a run of the search's own memory: ascending, descending, all-equal scores at the default capacity
    for nm, f in (("ascending", lambda i: i), ("descending", lambda i: 100 - i), ("equal", lambda i: 7), ("zigzag", lambda i: (i * 37) % 50)):
        for cap in (1, 5, 10):
            d = Drive("best", cap)
            for i in range(1, 41):
                d.define(i, f(i), 1 + i % 4)
                d.ins(i)
            d.all()
            traces.append(dict(name="%s-cap%d" % (nm, cap), events=d.ev))
    cx.validate("MemoryTrace", traces, key=lambda t, j: "%s:%s" % (t["events"][j]["ev"], t["name"].rsplit("-", 1)[0]), what="candidate memory")

"""The language-model search with a tiny stand-in network, stand-in surrogates and recorded steps."""
import contextlib, logging, math, os
import numpy as np
from h_sga import quiet

VARS = ["t", "x"]


def mods():
    import kd.model.kd_eqgpt as K
    import kd.model.eqgpt.gpt_model as G
    import kd.model.eqgpt.continue_train_GPT_all as C
    return K, G, C


@contextlib.contextmanager
def tiny(G):
    small = dict(d_model=8, d_ff=16, d_k=4, d_v=4, n_layers=1, n_heads=2)
    old = {k: getattr(G, k) for k in small}
    for k, v in small.items():
        setattr(G, k, v)
    try:
        yield
    finally:
        for k, v in old.items():
            setattr(G, k, v)


def poly_net(c):
    """u(t, x) = sum c[i][j] x^i t^j; variables in the order t, x"""
    import torch

    class Poly(torch.nn.Module):
        def forward(self, d):
            t, x = d[:, 0:1], d[:, 1:2]
            u = 0 * x * t
            for i, row in enumerate(c):
                for j, v in enumerate(row):
                    if v:
                        u = u + v * x ** i * t ** j
            return u
    return Poly()


def smooth_net(a, b, shift, amp=1.0):
    import torch

    class Smooth(torch.nn.Module):
        def forward(self, d):
            t, x = d[:, 0:1], d[:, 1:2]
            return shift + amp * (torch.sin(a * x - t) * torch.exp(-b * t) + 0.1 * torch.cos(2 * x + t))
    return Smooth()


class Run:
    """one whole search, everything observable recorded"""
    def __init__(self, scratch, seed, epochs, samples, nets, bias=None, weights=0, **kw):
        import pickle, torch
        K, G, C = mods()
        self.steps, self.seqs, self.rounds, self.train = [], [], [], []
        d = os.path.join(scratch, "eqgpt")
        os.makedirs(os.path.join(d, "gpt_model"), exist_ok=True)
        from pathlib import Path
        old_dir, K._DATA_DIR = K._DATA_DIR, Path(d)
        keep = [(G.GPT, "step", G.GPT.step), (C, "calculate_reward", C.calculate_reward), (K.KD_EqGPT, "_update_top10", K.KD_EqGPT.__dict__["_update_top10"]),
                (K.KD_EqGPT, "_load_surrogates", K.KD_EqGPT._load_surrogates), (K.KD_EqGPT, "_prepare_train_data", K.KD_EqGPT.__dict__["_prepare_train_data"])]
        step0, rew0, top0, tr0 = keep[0][2], keep[1][2], keep[2][2].__func__, keep[4][2].__func__

        def step(m, sentence, mask):
            s, k = [int(x) for x in sentence], [int(x) for x in mask.tolist()]
            r = step0(m, sentence, mask)
            self.steps.append((s, k, int(r[0])))
            return r

        def reward(sentence, Net, db, w, mask, *a):
            s, k = [int(x) for x in sentence], [int(x) for x in mask.tolist()]
            with np.errstate(all="ignore"):
                r = rew0(sentence, Net, db, w, mask, *a)
            self.seqs.append((s, k, float(r[0])))
            return r

        def top(epoch, all_reward, all_sentence, aw, se, *a):
            old = None if aw is None else (list(aw), [list(map(int, x)) for x in se])
            cand = ([float(x) for x in all_reward.tolist()], [list(map(int, x)) for x in all_sentence])
            r = top0(epoch, all_reward, all_sentence, aw, se, *a)
            self.rounds.append((old, cand, (list(r[0]), [list(map(int, x)) for x in r[1]])))
            return r

        def train(se, aw, *a):
            s = [list(map(int, x)) for x in se]
            r = tr0(se, aw, *a)
            self.train.append((s, [list(map(int, x)) for x in r]))
            return r
        self.error = None
        try:
            G.GPT.step, C.calculate_reward = step, reward
            K.KD_EqGPT._update_top10 = staticmethod(top)
            K.KD_EqGPT._prepare_train_data = staticmethod(train)
            K.KD_EqGPT._load_surrogates = lambda self_, *a, **k: nets
            with tiny(G), quiet():
                torch.manual_seed(weights)
                m = G.GPT()
                st = m.state_dict()
                for tok, v in (bias or {}).items():
                    st["projection.bias"][tok] = v
                torch.save(st, os.path.join(d, "gpt_model", "PDEGPT_wave_breaking.pt"))
                with open(os.path.join(d, "wave_breaking_data.pkl"), "wb") as f:
                    pickle.dump({}, f)
                self.est = K.KD_EqGPT(optimize_epochs=epochs, samples_per_epoch=samples, seed=seed, **kw)
                logging.disable(logging.CRITICAL)
                try:
                    self.result = self.est.fit_pretrained()
                except Exception as ex:
                    self.error = "%s: %s" % (type(ex).__name__, str(ex)[:150])
        finally:
            logging.disable(logging.NOTSET)
            K._DATA_DIR = old_dir
            for o, n, v in keep:
                setattr(o, n, v)


def surrogates(rng, kind):
    """(nets, databases, nx, nt) of a few cases"""
    import torch
    nets, dbs = [], []
    for k in range(2):
        x = np.linspace(0.5, 2.5, 7) if kind != "zero" else np.linspace(-1, 1, 7)
        t = np.linspace(0.1, 1.0, 5)
        T, X = np.meshgrid(t, x, indexing="ij")
        dbs.append(torch.tensor(np.stack([T.ravel(), X.ravel()], 1), dtype=torch.float32, requires_grad=True))
        nets.append(smooth_net(float(rng.uniform(0.5, 2)), float(rng.uniform(0, 0.5)), 0.0 if kind == "zero" else 2.0, 0.0 if kind == "flat" else 1.0))
    return nets, dbs, [7, 7], [5, 5]


def concise(s):
    """reference clean-up, only to name equations consistently"""
    s = list(s)
    if s and s[-1] == 1:
        s = s[:-1]
    gs, cur = [], []
    for w in s:
        if w == 2:
            gs.append(cur)
            cur = []
        else:
            cur.append(w)
    gs.append(cur)
    seen, out = [], []
    for g in gs:
        k = sorted(g[::2])
        if k not in seen:
            seen.append(k)
            out.append(g)
    r = []
    for g in out:
        r += g + [2]
    return r[:-1]

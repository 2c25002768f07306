"""Network-assisted genetic search driven on exact integer term libraries (no training)."""
import copy, math, random
import numpy as np
from h_sga import quiet

OPS = ["u", "u_x", "u_t", "u_xx", "u_xxx", "u_tt"]


def model(base, ops, epi, size, gens, lib, ut, utt, **attrs):
    """a search whose term library is the given integer matrix"""
    import torch
    if base:
        from kd.model.dlga import DLGA
        m = DLGA(epi=epi, input_dim=2, max_iter=1)
    else:
        from kd.model.kd_dlga import KD_DLGA
        m = KD_DLGA(operators=list(ops), epi=epi, input_dim=2, verbose=bool(attrs.pop("verbose", False)), max_iter=1)
    attrs.pop("verbose", None)
    m.pop_size, m.n_generations = size, gens
    m.Theta = torch.from_numpy(np.asarray(lib, dtype=np.float32))
    m.u_t, m.u_tt = np.asarray(ut, dtype=float).reshape(-1, 1), np.asarray(utt, dtype=float).reshape(-1, 1)
    for k, v in attrs.items():
        setattr(m, k, v)
    return m


def fresh(m, chrom):
    """score an individual again, from its genes alone"""
    with quiet():
        g, n = m.translate_DNA(copy.deepcopy(chrom))
        coef, mse, _, name = m.get_fitness(g, n)
    return coef, float(mse), name


def sig(v):
    v = float(v)
    return v if not math.isfinite(v) or v == 0 else float("%.7g" % v)


def rec(fit, coef, name):
    return "%s|%s|%.6g" % (name, ",".join("%.5g" % (x + 0.0) for x in np.asarray(coef, dtype=float).reshape(-1)), fit)


def plain(pop):
    return [[[int(g) for g in m] for m in ind] for ind in pop]


class Watch:
    """records every selection of every search while active"""
    def __enter__(self):
        from kd.model.dlga import DLGA
        from kd.model.kd_dlga import KD_DLGA
        self.calls, self.undo = [], []
        for cls in (DLGA, KD_DLGA):
            if "select" not in cls.__dict__:
                continue
            orig = cls.__dict__["select"]

            def wrapped(m, *a, __orig=orig, **k):
                before = plain(m.Chrom)
                r = __orig(m, *a, **k)
                self.calls.append(dict(before=before, after=plain(m.Chrom), fit=[float(x) for x in m.Fitness], coef=[np.array(x) for x in m.coef], name=list(m.name)))
                return r
            self.undo.append((cls, orig))
            setattr(cls, "select", wrapped)
        return self

    def __exit__(self, *a):
        for cls, o in self.undo:
            setattr(cls, "select", o)

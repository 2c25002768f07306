"""C01: sampled expressions are complete, bounded prefix expressions; sampler context is the tree's; no dead ends."""
import copy, json
import numpy as np
import h_sampler as hs
from h_discover import quiet, burgers_like, discover_model

PDE = ["add", "mul", "div", "diff", "diff2", "n2"]
BASE = {"length": {"min_": 3, "max_": 6, "on": True}, "repeat": {"tokens": "add", "min_": None, "max_": 2, "on": True},
        "inverse": {"on": True}, "trig": {"on": True}, "soft_length": {"loc": 10, "scale": 5, "on": True},
        "diff_left": {"on": True}, "diff_right": {"on": True}, "diff_descedent": {"on": True}}


def configurations(thorough):
    def d(**k):
        c = copy.deepcopy(BASE)
        for a, b in k.items():
            c[a] = b
        return c
    L = lambda a, b: {"min_": a, "max_": b, "on": True}
    off = {"on": False}
    cs = [
        ("pde-default", dict(function_set=PDE), d()),
        ("pde-max7", dict(function_set=["add", "mul", "diff", "n2"]), d(length=L(3, 7))),
        ("pde-max5", dict(function_set=PDE + ["n3", "sub"]), d(length=L(3, 5))),
        ("two-fields", dict(function_set=["add", "mul", "diff", "n2"], n_state=2), d(length=L(3, 6))),
        ("2d-axes", dict(function_set=["add", "mul", "Diff", "Diff2"], n_input=2), d(length=L(3, 6))),
        ("params", dict(function_set=["add", "mul", "diff"], n_param=1), d(length=L(3, 6))),
        ("const", dict(function_set=["add", "mul", "n2"], const=True), d(length=L(3, 6), const={"on": True})),
        ("unary-trig", dict(function_set=["add", "sin", "cos", "exp", "log"]), d(length=L(3, 5))),
        ("no-inputs", dict(function_set=["add", "n2", "diff"], n_input=2), d(length=L(3, 6), no_inputs={"on": True})),
        ("no-priors-but-length", dict(function_set=["add", "mul", "n2", "diff"]), {"length": L(None, 5)}),
        ("max4", dict(function_set=["add", "n2", "n3", "diff"]), d(length=L(3, 4))),
        ("max3", dict(function_set=["add", "n2", "diff"]), d(length=L(3, 3))),
        ("strict-left", dict(function_set=["add", "mul", "diff", "n2"]), d(diff_left_strict={"on": True})),
        ("min5-nodiff", dict(function_set=["add", "mul", "n2"]), {"length": L(5, 7)}),
        ("min4-diff", dict(function_set=["add", "diff"]), d(length=L(4, 6))),
    ]
    if thorough:
        cs += [("pde-max8", dict(function_set=PDE), d(length=L(3, 8))),
               ("pde-full-max6", dict(function_set=["add", "mul", "div", "diff", "diff2", "diff3", "n2", "n3"]), d(length=L(3, 6))),
               ("2d-full", dict(function_set=["add", "mul", "Diff", "Diff2", "lap"], n_input=2), d(length=L(3, 7))),
               ("3-fields", dict(function_set=["add", "mul", "diff"], n_state=3), d(length=L(3, 7)))]
    return cs


def build(lib_kw, cfg):
    from kd.model.discover.dso.prior import make_prior
    with quiet():
        lib = hs.make_lib(**lib_kw)
        hs.setup_program(lib)
        prior = make_prior(lib, json.loads(json.dumps(cfg)))  # as loaded from a file: nothing shared
    return lib, prior


def design(cx, pick=("pde-default", "max3", "const", "two-fields")):
    lines = []
    for name, lk, cfg in configurations(False):
        if name not in pick:
            continue
        lib, _ = build(lk, cfg)
        lines.append(json.dumps({"lib": hs.describe(lib), "cons": hs.spec_constraints(cfg), "name": name}))
    cx.model_check("SamplerMC", "SPECIFICATION Spec\nINVARIANT NoDeadEnd Finished OpenOK Bounded Tight\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n",
                   files={"confs.ndjson": "\n".join(lines) + "\n"})


def run(cx):
    rng = np.random.default_rng(cx.seed)
    design(cx, ("pde-default", "max3", "const") if not cx.thorough else ("pde-default", "max3", "const", "two-fields", "2d-axes", "no-inputs", "min5-nodiff"))
    traces = []
    cap = 6000 if cx.thorough else 260
    for name, lk, cfg in configurations(cx.thorough):
        lib, prior = build(lk, cfg)
        nodes, done = hs.walk(lib, prior, limit_nodes=30000 if cx.thorough else 1500, rng=rng, cap_per_level=cap)
        ev = [dict(ev="conf", lib=hs.describe(lib), cons=hs.spec_constraints(cfg))]
        for n in nodes:
            ev.append(dict(ev="ctx", seq=n["seq"], parent=n["parent"], sibling=n["sibling"], open=n["open"], anyallowed=len(n["allowed"]) > 0))
        ln = cfg["length"]
        for s in done:
            ev.append(dict(ev="done", seq=[x + 1 for x in s], maxlen=ln["max_"] or 99, minlen=ln["min_"] or 2))
        traces.append(dict(name="walk:" + name, events=ev))
    traces += episodes(cx)
    def key(t, j):
        e = t["events"][j]
        if e["ev"] == "ctx" and not e["anyallowed"]:
            lib = t["events"][0]["lib"]
            slot = e["parent"] and lib[e["parent"] - 1]["diff"] and e["sibling"] and e["open"] == 1
            return "deadend:%s:%s" % ("last-slot-is-derivative-variable" if slot else "other", t["name"])
        return "%s:%s" % (e["ev"], t["name"])
    cx.validate("SamplerTrace", traces, key=key, what="sampler context/completeness")


def tokens_of(p, lib):
    """token indices of a program, by identity of its traversal's tokens (names)"""
    names = [t.name for t in lib.tokens]
    return [names.index("const" if (t.name == "const") else t.name) for t in p.traversal]


def episodes(cx, mask=False):
    """Whole episodes drawn by the real recurrent controller of a real model."""
    import torch
    from kd.model.discover.program import from_tokens, Program
    out = []
    variants = [("default", dict(), 120), ("short", dict(config={"prior": {"length": {"min_": 3, "max_": 9, "on": True}}}), 60),
                ("ops", dict(binary=["add", "mul", "diff"], unary=["n2", "u1"][:1], config={"prior": {"length": {"min_": 3, "max_": 12, "on": True}}}), 60)]
    for name, kw, n in variants:
        with quiet():
            m = discover_model(seed=cx.seed, **kw)
            m.import_dataset(burgers_like())
        given = copy.deepcopy(full_prior(kw.get("config")))
        lib = Program.library
        if cx.thorough:
            n *= 6
        torch.manual_seed(cx.seed)
        actions, obs, priors, _, _ = m.controller.sample_episodes(n)
        actions, obs, priors = actions.numpy(), obs.numpy(), priors.numpy()
        pn, sn = hs.parent_name_ix(lib), hs.sib_ix(lib)
        ar = [int(t.arity) for t in lib.tokens]
        ev = [dict(ev="conf", lib=hs.describe(lib), cons=hs.spec_constraints(given))]
        for i in range(n):
            seq, d = [], 1
            for t in range(actions.shape[1]):
                al = [j + 1 for j in range(len(ar)) if priors[i, t, j] != -np.inf]
                if mask:
                    ev.append(dict(ev="mask", seq=list(seq), allowed=al))
                    if actions[i, t] + 1 not in al:
                        ev.append(dict(ev="outside", seq=list(seq), tok=int(actions[i, t]) + 1))
                else:
                    ev.append(dict(ev="ctx", seq=list(seq), parent=pn(obs[i, 1, t]), sibling=sn(obs[i, 2, t]), open=int(obs[i, 3, t]),
                                   anyallowed=len(al) > 0))
                seq.append(int(actions[i, t]) + 1)
                d += ar[actions[i, t]] - 1
                if d == 0:
                    break
            ln = given["length"]
            if mask:
                ev.append(dict(ev="legal", seq=seq))
            else:
                ev.append(dict(ev="done", seq=seq, maxlen=ln["max_"], minlen=ln["min_"]))
                p = from_tokens(actions[i])
                ev.append(dict(ev="finish", seq=seq, out=[x + 1 for x in tokens_of(p, lib)]))
                ev.append(dict(ev="done", seq=[x + 1 for x in tokens_of(p, lib)], maxlen=ln["max_"], minlen=ln["min_"]))
        out.append(dict(name="episodes:" + name, events=ev))
        if not mask:  # arbitrary, possibly unfinished or overlong token strings
            rng = np.random.default_rng(cx.seed + 7)
            fe = [dict(ev="conf", lib=hs.describe(lib), cons=[])]
            for k in range(150 if not cx.thorough else 1500):
                s = rng.integers(0, len(ar), size=int(rng.integers(1, 9))).astype(np.int32)
                p = from_tokens(s.copy())
                fe.append(dict(ev="finish", seq=[int(x) + 1 for x in s], out=[x + 1 for x in tokens_of(p, lib)]))
            out.append(dict(name="finish:" + name, events=fe))
    return out


def full_prior(config):
    """The prior settings the caller configured: shipped defaults overlaid with theirs (read from the shipped file)."""
    import commentjson, os, kd.model.discover as d
    f = os.path.join(os.path.dirname(d.__file__), "config", "config_pde.json")
    base = commentjson.load(open(f, encoding="utf-8"))["prior"]
    for k, v in ((config or {}).get("prior") or {}).items():
        base[k] = dict(base.get(k, {}), **v)
    return base

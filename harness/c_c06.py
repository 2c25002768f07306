"""C06: a set-up model is what a fresh one would be, whatever happened before in the process."""
import re
import numpy as np
from h_discover import quiet
import h_reuse as H

LEVEL = "model_checking"
MC = """CONSTANTS MaxSteps = %d Emit = %s Acts = {%s}
SPECIFICATION Spec
INVARIANTS FunctionOfGiven NoForeign Distinct ActiveIsLast FoundOwn
PROPERTIES SnapshotKept FoundKept
CHECK_DEADLOCK FALSE
%s
"""
PLAIN = ["default", "ops", "opsdiff", "cfgset", "listprior", "free", "freeops"]
SPR = ["spr", "sprfree", "sprcfg"]


def histories(cx, steps, acts):
    hs = cx.generate("ReuseMC", MC % (steps, "TRUE", ", ".join('"%s"' % a for a in acts), ""))
    return sorted({tuple((e["a"], e["m"], e["d"]) for e in h) for h in hs})


def drive(kinds, hist, mapd):
    """one history over fresh objects; returns [(action, m, d, observation or None, givens, ordinal of the set-up of that object)]"""
    objs = {k: H.make(kind) for k, kind in kinds.items()}
    g0 = {k: H.given_state(*objs[k]) for k in kinds}
    out, cnt, act = [], {k: 0 for k in kinds}, None
    for a, m, d in hist:
        d = mapd[d]
        own = act == m
        if a != "train":
            cnt[m] += 1
            act = m
        out.append((a, m, d, H.act(objs[m][0], kinds[m], a, d), {k: H.given_state(*objs[k]) for k in kinds}, cnt[m], own, {k: H.kept(objs[k][0]) for k in kinds}))
    return g0, out


def run(cx):
    import torch
    import kd.model.kd_discover  # noqa
    torch.set_num_threads(1)
    cx.model_check("ReuseMC", MC % (8, "FALSE", '"import", "setup", "fit"', "VIEW View"))
    datas = [1, 2, 3, 4, 5]
    fresh = H.fresh_table([(k, d, "fit") for k in PLAIN for d in datas if not (k == "opsdiff" and d in (3, 4, 5))] +
                          [(k, d, "import") for k in SPR for d in (1, 2, 3, 4)], cx.scratch)
    for kd, o in fresh.items():
        if "error" in o:
            cx.violation("fresh:%s" % (kd,), "a freshly constructed model failed: " + o["error"], {"kind": kd[0], "data": kd[1]})
    fresh = {k: o for k, o in fresh.items() if "error" not in o}
    cx.count("fresh_processes", len(fresh))
    rng = np.random.default_rng(cx.seed)
    h3 = histories(cx, 3, ["import", "setup"])
    hf = histories(cx, 3, ["import", "setup", "fit"])
    cx.note("histories_available", len(h3) + len(hf))
    plan = []
    for k in range(len(h3) if cx.thorough else 110):
        h = h3[k % len(h3)] if cx.thorough else h3[int(rng.integers(0, len(h3)))]
        two = [str(x) for x in rng.choice(PLAIN, 2)] if k % 5 else [str(rng.choice(SPR)), str(rng.choice(PLAIN + SPR))]
        plan.append((h, two))
    free = ["free", "freeops"]
    n = 0
    while n < (150 if cx.thorough else 20):
        h = hf[int(rng.integers(0, len(hf)))]
        if not any(a == "fit" for a, _, _ in h):
            continue
        # a refit object has no constraints left (known finding), so results of later fits are compared for kinds given none
        two = [str(x) for x in rng.choice(free if n % 2 else PLAIN, 2)]
        h = tuple(("import" if a == "fit" and any(mm == m for _, mm, _ in h[:i]) and two[m - 1] not in free else a, m, d) for i, (a, m, d) in enumerate(h))
        plan.append((h, two))
        n += 1
    # deferred training: another model may have been set up in between
    for two in (("default", "ops"), ("free", "freeops"), ("cfgset", "default")):
        plan.append(((("import", 1, 1), ("train", 1, 1)), two))
        plan.append(((("import", 1, 1), ("import", 2, 2), ("train", 2, 2)), two))
        plan.append(((("import", 1, 1), ("import", 2, 2), ("train", 1, 1)), two))
    traces = []
    for n, (h, two) in enumerate(plan):
        kinds = {1: two[0], 2: two[1]}
        mapd = {1: 1, 2: 2, 3: [3, 5][int(rng.integers(0, 2))], 4: 4}
        if any((kinds[m], mapd[d]) not in fresh for _, m, d in h):
            mapd[3] = 3
        if any((kinds[m], mapd[d]) not in fresh for _, m, d in h):
            continue
        with quiet():
            g0, steps = drive(kinds, h, mapd)
        name = "%d:%s:%s" % (n, "+".join(two), ",".join("%s%d(%d)" % s for s in h))
        comps = sorted({c for s in steps for c in s[3]})
        for c in comps:
            ev = [dict(ev="begin")]
            for g, d in sorted({(kinds[m], d) for _, m, d, *_ in steps}):
                ev.append(dict(ev="fresh", g=g, d=d, val=fresh[(g, d)].get(c, "")))
            ev += [dict(ev="new", m=m, g=kinds[m], given="") for m in kinds]
            for a, m, d, o, gs, cnt, own, kp in steps:
                if c in o:
                    ev.append(dict(ev="import" if a == "train" else a, m=m, d=d, val=o[c], nth=cnt, comp=c, foreign=(a == "train" and not own),
                                   off=o.get("constraints") == "none", want=fresh[(kinds[m], d)].get(c, "")))
            traces.append(dict(name=name + ":" + c, events=ev))
        ev = [dict(ev="begin")] + [dict(ev="new", m=m, g=kinds[m], given=g0[m]) for m in kinds]
        for a, m, d, o, gs, cnt, own, kp in steps:
            ev += [dict(ev="given", m=k, val=gs[k]) for k in sorted(gs)]
        traces.append(dict(name=name + ":given", events=ev))
        # what each model has of its own changes only by its own doing
        for c in sorted({c for st in steps for v in st[7].values() for c in v}):
            ev = [dict(ev="begin")] + [dict(ev="new", m=m, g=kinds[m], given="") for m in kinds]
            for a, m, d, o, gs, cnt, own, kp in steps:
                ev += [dict(ev="has", m=k, by=m, val=kp[k].get(c, "nothing yet"), comp="own-" + c, a=a) for k in sorted(kp)]
            traces.append(dict(name=name + ":own " + c, events=ev))
    cx.count("histories", len(plan))

    def key(t, j):
        e = t["events"][j]
        c = e.get("comp", "given")
        if c == "constraints" and e["nth"] >= 2 and e["val"] == "none":
            return "resetup:constraints-all-off"
        if c == "controller" and e["nth"] >= 2 and e["off"] and re.sub(r"max_length=\d+", "", e["val"]) == re.sub(r"max_length=\d+", "", e["want"]):
            return "resetup:maximum-length-not-taken-from-the-length-constraint"
        if c == "result" and e.get("foreign"):
            return "result:trained-after-another-model-was-set-up"
        return "%s:%s:%s" % (e["ev"], c, "first" if e.get("nth", 1) == 1 else "again")
    cx.validate("ReuseTrace", traces, key=key, what="configuration of a reused model")
    cx.assumptions.append("initial policy weights are drawn from the process-wide random stream before the model's seed is applied; the harness seeds that stream")

"""C24: the reported list holds the best distinct equations the language-model search found."""
import copy, math
import numpy as np
from concurrent.futures import ThreadPoolExecutor
from h_eqgpt import mods, Run, surrogates, concise
from common import ranks

LEVEL = "model_checking"
MC = 'CONSTANTS Texts = {1, 2, 3, 4, 5, 6} Earn <- E Batch = %d Rounds = %d Size <- Two\nSPECIFICATION Spec\nINVARIANTS TheBest Distinct\nPROPERTIES Legal Leads\nCHECK_DEADLOCK FALSE\n'
MCMOD = "---- MODULE TopListE ----\nEXTENDS TopListMC\nE == <<%s>>\nTwo == %d\n====\n"


def text(C, s):
    return "".join(C.id2word[i] for i in concise(s))


def trace(C, name, rounds, report=None, error=None):
    """rounds: (old or None, cand, new) as (rewards, sentences)"""
    vals = sorted({float(r) for rd in rounds for q in rd if q for r in q[0] if not math.isnan(r)} | ({float(r) for r in report["rewards"]} | {float(report["best_reward"])} if report else set()) - {float("nan")})
    at = {v: i for i, v in enumerate(v for v in vals if not math.isnan(v))}
    rk = lambda r: -1 if math.isnan(r) else at[float(r)]
    q = lambda p: [] if p is None else [dict(r=rk(r), t=text(C, s)) for r, s in zip(*p)] + [dict(r=-2, t="reward without equation")] * abs(len(p[0]) - len(p[1]))
    ev = [dict(ev="begin")]
    for old, cand, new in rounds:
        ev.append(dict(ev="round", old=q(old), cand=q(cand), new=q(new)))
    if error:
        ev.append(dict(ev="raised", what=error))
    elif report:
        e = [dict(r=rk(r), t=t) for r, t in zip(report["rewards"], report["equations"])]
        e += [dict(r=-2, t="")] * abs(len(report["rewards"]) - len(report["equations"]))
        none = not report["equations"]
        ev.append(dict(ev="report", entries=e, best=dict(r=-1 if none else rk(report["best_reward"]), t=report["best_equation"])))
    return dict(name=name, events=ev)


def direct(cx, rng, C, K, k):
    """merges of arbitrary rounds; an equation earns the same reward whenever it turns up"""
    import torch
    est = K.KD_EqGPT
    pool = []
    while len(pool) < int(rng.integers(3, 30)):
        s = [6, 2]
        n = int(rng.integers(1, 4))
        for j in range(n):
            s += [int(rng.integers(7, 20)), int(rng.choice([2, 2, 3, 4])) if j < n - 1 else 1]
        if rng.random() < 0.3 and len(s) > 4:
            s = s[:-1] + [2] + s[2:3] + [1]          # the same equation written with a repetition
        pool.append(s)
    few = rng.choice([0.25, 0.5, 0.75, 0.9], size=2)
    few = [v for f in few for v in (np.float32(f), np.nextafter(np.float32(f), np.float32(1)), np.float32(f + 4e-6))]      # distinct, however close
    earn = {}
    for s in pool:
        t = text(C, s)
        if t not in earn:
            x = rng.random()
            earn[t] = float("nan") if x < 0.15 and k % 3 == 0 else 0.0 if x < 0.2 else float(rng.choice(few)) if x < 0.35 else -float(np.float32(rng.random() * 3)) if x < 0.45 else float(np.float32(rng.random()))
    aw = se = None
    rounds = []
    size = int(rng.choice([1, 2, 3, 8, 15, 40]))
    for e in range(int(rng.integers(2, 8))):
        batch = [list(pool[i]) for i in (rng.integers(0, len(pool), size=size) if rng.random() < 0.8 else [int(rng.integers(len(pool)))] * size)]
        rew = torch.tensor([earn[text(C, s)] for s in batch])
        old = None if aw is None else (list(aw), copy.deepcopy(se))
        cand = ([float(x) for x in rew.tolist()], copy.deepcopy(batch))
        try:
            aw, se = est._update_top10(e, rew, batch, aw, se, C.find_min_no_repeat, size)
        except Exception as ex:
            return trace(C, "merge-%d" % k, rounds, None, "%s: %s" % (type(ex).__name__, ex))
        rounds.append((old, cand, (list(aw), copy.deepcopy(se))))
        cx.count("merges")
    eqs, rs = est._format_results(copy.deepcopy(se), list(aw), C.id2word, C.delete_duplicate, C.word2id)
    rep = dict(equations=eqs, rewards=rs, best_equation=eqs[0] if eqs else "", best_reward=rs[0] if rs else 0.0)
    return trace(C, "merge-%d" % k, rounds, rep)


def run(cx):
    rng = np.random.default_rng(cx.seed)
    K, G, C = mods()
    for E, two, b, n in (("0-1, 0, 1, 1, 2, 3", 2, 2, 2), ("5, 4, 3, 2, 1, 0", 3, 1, 6 if cx.thorough else 5), ("0-1, 0-1, 0, 0, 1, 1", 2, 3, 2)):
        cx.model_check("TopListE", MC % (b, n), files={"TopListE.tla": MCMOD % (E, two)})
    T = 8 if cx.thorough else 1
    traces = [direct(cx, rng, C, K, k) for k in range(60 * T)]
    plans = [("fine", {1: 0.5}, 14, 3), ("zero", {1: 1.0, 24: 3.0, 47: 3.0}, 8, 3), ("flat", {1: 1.0}, 6, 2), ("fine", {1: 3.0, 9: 4.0, 20: 4.0}, 5, 4), ("fine", {1: 2.0}, 1, 4), ("zero", {1: 0.0}, 12, 2)]
    for k, (kind, bias, n, ep) in enumerate(plans * T):
        r = Run(cx.scratch, seed=int(rng.integers(1000)), epochs=ep, samples=n, nets=surrogates(rng, kind), bias=bias, weights=k)
        cx.count("searches")
        cx.count("rounds_in_searches", len(r.rounds))
        # what was handed to the merge is what was sampled and scored, in order
        flat = [(s, v) for s, _, v in r.seqs]
        got = [(s, v) for _, c, _ in r.rounds for v, s in zip(*c)]
        t = trace(C, "search-%d" % k, r.rounds, getattr(r, "result", None), r.error)
        t["events"].append(dict(ev="handed", same=len(flat) >= len(got) and all(concise(a) == concise(b) and (abs(x - y) <= 1e-6 * max(1, abs(x)) or (math.isnan(x) and math.isnan(y))) for (a, x), (b, y) in zip(flat, got)) and (bool(r.error) or len(flat) == len(got))))
        traces.append(t)
    key = lambda t, j: "%s:%s" % (t["name"].split("-")[0], t["events"][j]["ev"])
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(lambda i: cx.validate("TopListTrace", traces[i::4], key=key, what="best list"), range(4)))

"""C20: a plot request goes to the adapter of the nearest class and reports exactly the pictures it made."""
import json, logging, multiprocessing as mp, os, traceback
import numpy as np
import h_viz as V

LEVEL = "model_checking"
MC = """CONSTANTS MaxOps = %d Emit = %s
SPECIFICATION Spec
INVARIANT NearestWins
INVARIANT LookingIsFree
INVARIANT LatestWins
INVARIANT OthersKeep
VIEW View
CHECK_DEADLOCK FALSE
"""


class Adapter:
    """a plug-in: odd ones can draw k1 and k2, the others only k1"""

    def __init__(self, n):
        self.n, self.capabilities, self.last = n, (["k1", "k2"] if n % 2 else ["k1"]), None

    def render(self, request, ctx):
        from kd.viz.core import VizResult
        self.last = (request, ctx, VizResult(intent=request.kind, figure=self))
        return self.last[2]


def registry_trace(hist, rng):
    from kd import viz
    from kd.viz import registry as R
    from kd.viz.core import VizRequest, render
    Acls = type("A", (), {})
    B, C = type("B", (Acls,), {}), type("C", (Acls,), {})
    D = type("D", (B, C), {})
    E, F = type("E", (D,), {}), type("B", (), {})
    cls = [Acls, B, C, D, E, F]
    ads, ev = {}, [dict(ev="clear", c=0, a=0)]
    viz.clear_registry()

    def ask(c):
        o = cls[c - 1]()
        kind = ["k1", "k2", "k3"][int(rng.integers(3))]
        opts = {"title": "x"}
        can, res, raised = [], None, False
        try:
            can = sorted(viz.list_capabilities(o if rng.random() < 0.5 else cls[c - 1]))
            res = render(VizRequest(kind, o, opts))
        except Exception:
            raised = True
        got, same = 0, False
        for n, a in ads.items():
            if res is not None and res.figure is a:
                got, same = n, a.last[2] is res and a.last[0].target is o and a.last[0].kind == kind and a.last[1].options == opts
        ev.append(dict(ev="ask", c=c, kind=kind, can=can, got=got, same=same, raised=raised, warnings=len(res.warnings) if res is not None else 0,
                       intent=res.intent if res is not None else "", empty=res is not None and not res.figure and not res.paths))

    def lazy(c, a):
        x = ads.get(a)
        return lambda: (cls[c - 1], x) if a else (None, None)
    for h in hist:
        op, c, a = h["op"], h["c"], h["a"]
        if op in ("reg", "lazy") and a:
            ads[a] = Adapter(a)
        if op == "reg":
            viz.register_adapter(cls[c - 1], ads[a])
        elif op == "lazy":
            R.register_lazy_adapter(cls[c - 1].__name__, lazy(c, a))
        elif op == "unreg":
            viz.unregister_adapter(cls[c - 1])
        elif op == "clear":
            viz.clear_registry()
        if op == "ask":
            ask(c)
        else:
            ev.append(dict(ev=op, c=c, a=a))
    for c in rng.permutation(6):
        ask(int(c) + 1)
    return ev


def real_trace(which, seed, faults):
    rng = np.random.default_rng(seed)
    out = []
    for name, family, m, holds in V.worlds(which, seed):
        for kind in V.KINDS[family] + ["nonsense"]:
            root = os.path.join(os.getcwd(), "%s %s" % (name, kind))
            os.makedirs(root)
            ev = []
            for turn in range(2):
                o, data = V.options(kind, family, root, rng)
                h = tuple(holds) + (("data",) if len(o) > 3 or "actual" in o else ())
                e, _ = V.request(m, kind, o, root, family, h, data)
                ev.append(e[0])
            if family == "dlga" and kind in ("residual", "field_comparison", "time_slices"):
                e, _ = V.request(m, kind, {"output_dir": root, "dpi": 40}, root, family, holds)
                ev.append(e[0])
            for n in range(1, faults + 1):
                o, data = V.options(kind, family, root, rng)
                h = tuple(holds) + (("data",) if len(o) > 3 or "actual" in o else ())
                e, _ = V.request(m, kind, o, root, family, h, data, fault=V.Fault(n))
                ev.append(e[0])
            # a file where the directory should be
            bad = os.path.join(root, "taken")
            open(bad, "w").close()
            o, data = V.options(kind, family, bad, rng)
            h = tuple(holds) + (("data",) if len(o) > 3 or "actual" in o else ())

            class Blocked:
                n = hit = 1
                __enter__ = lambda s: s
                __exit__ = lambda s, *a: None
            e, _ = V.request(m, kind, o, root, family, h, data, fault=Blocked())
            ev.append(e[0])
            # without a directory of its own the configured one is used
            from kd import viz
            from kd.viz._style import get_config
            old = get_config().save_dir
            viz.configure(save_dir=os.path.join(root, "configured"))
            o, data = V.options(kind, family, root, rng)
            o.pop("output_dir")
            e, _ = V.request(m, kind, o, os.path.join(root, "configured"), family, h, data)
            get_config().save_dir = old
            ev.append(e[0])
            out.append(dict(name="%s/%s" % (name, kind), events=ev))
    return out


def play(job):
    kind, arg, seed, d = job
    os.makedirs(d)
    os.chdir(d)
    import matplotlib
    matplotlib.use("Agg")
    for n in ("matplotlib.font_manager", "kd", "root"):
        logging.getLogger(n).setLevel(logging.CRITICAL)
    try:
        if kind == "real":
            return real_trace(arg, seed, 2)
        rng = np.random.default_rng(seed)
        return [dict(name="history %s" % json.dumps(h), events=registry_trace(h, rng)) for h in arg]
    except Exception:
        return traceback.format_exc()


def run(cx):
    cx.model_check("VizRegMC", MC % (5 if cx.thorough else 4, "FALSE"), workers=8, timeout=800)
    cases = cx.generate("VizRegMC", MC % (3, "TRUE"))
    rng = np.random.default_rng(cx.seed)
    if cx.thorough:
        more = cx.generate("VizRegMC", MC % (4, "TRUE"), timeout=600)
        cases += [more[i] for i in rng.permutation(len(more))[:6000]]
    else:
        cases = [cases[i] for i in rng.permutation(len(cases))[:1500]]
    jobs = [("real", w, cx.seed + 10 * k, cx.path("r%s_%d" % (w.replace(" ", "_"), k))) for w in V.WHICH for k in range(3 if cx.thorough else 1)]
    n = 12 if cx.thorough else 4
    jobs += [("reg", cases[i::n], cx.seed + i, cx.path("g%d" % i)) for i in range(n)]
    traces = []
    with mp.get_context("fork").Pool(8, maxtasksperchild=1) as pool:
        for job, r in zip(jobs, pool.map(play, jobs, chunksize=1)):
            if isinstance(r, str):
                fr = [x for x in r.splitlines() if "/kd/" in x]
                cx.violation("exception:%s" % (fr[-1].strip() if fr else job[1]), "preparing %s: %s" % (job[1] if job[0] == "real" else "histories", r[-900:]), {"traceback": r})
            else:
                traces += r
    cx.note("real_requests", sum(len(t["events"]) for t in traces if not t["name"].startswith("history")))
    cx.validate("VizTrace", traces, key=lambda t, j: "%s:%s" % (t["name"], t["events"][j]["ev"]), what="plot requests", timeout=800)
    cx.assumptions += ["figures drawn from a network's scattered values are requested before another model is set up (the library keeps one current task)",
                       "registering a plug-in under a class name while one is pending for it replaces the pending one; taking back the registration of a class that is still pending is left open"]

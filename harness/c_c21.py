"""C21: a plot request leaves the drawing settings, open figures, model and data as it found them."""
import json, logging, multiprocessing as mp, os, traceback
import numpy as np
import h_viz as V

LEVEL = "model_checking"
MC = """CONSTANTS MaxOps = %d Emit = %s
SPECIFICATION Spec
INVARIANT Restored
INVARIANT Saved
CHECK_DEADLOCK FALSE
"""
KEYS = ["font.size", "axes.labelsize", "lines.linewidth"]
SMALL = ["xtick.labelsize", "savefig.dpi"]


def pairs(d):
    return [dict(k=k, v=d[k]) for k in sorted(d)]


def style_trace(hist, rng):
    import matplotlib, matplotlib.pyplot as plt
    from kd import viz
    from kd.viz.core import VizRequest, VizResult, render
    from kd.viz._style import DEFAULT_STYLE
    matplotlib.rcdefaults()
    for k in KEYS:
        matplotlib.rcParams[k] = 2 if k == "lines.linewidth" else 10
    viz.configure(style={})
    cfg = {k: DEFAULT_STYLE[k] for k in KEYS if k in DEFAULT_STYLE}
    plt.close("all")
    mine = plt.figure().number
    now = lambda: pairs({k: matplotlib.rcParams[k] for k in KEYS})
    ev = [dict(ev="start", rc=now(), cfg=pairs(cfg), s=[])]
    pos = [0]

    class Boom(Exception):
        pass

    class Ad:
        capabilities = ["k"]

        def render(self, request, ctx):
            h = request.options["h"]
            ev.append(dict(ev="begin", s=pairs(h["s"]), rc=now()))
            fig = plt.figure()
            how = steps()
            if how == "raises":
                raise Boom()
            plt.close(fig)
            return VizResult(intent="k", figure=fig)

    class M:
        pass
    viz.register_adapter(M, Ad())

    def steps():
        """plays until the end of the request in progress; how it ends"""
        while pos[0] < len(hist):
            h = hist[pos[0]]
            pos[0] += 1
            s = dict(h["s"]) if h["s"] else {}
            h = dict(h, s=s)
            if h["op"] == "configure":
                viz.configure(style=dict(s))
                ev.append(dict(ev="configure", s=pairs(s), dflt=pairs(cfg), rc=now()))
            elif h["op"] == "set":
                for k, v in s.items():
                    matplotlib.rcParams[k] = v
                ev.append(dict(ev="set", s=pairs(s), rc=now()))
            elif h["op"] == "begin":
                was, figs = V.rcnow(), set(plt.get_fignums())
                given = dict(s)
                raised = False
                try:
                    render(VizRequest("k", M(), {"style": s or None, "h": h}))
                except Boom:
                    raised = True
                end = hist[pos[0] - 1]
                ev.append(dict(ev="end", how=end["how"], whole=V.rcnow() == was and s == given, figures=len(set(plt.get_fignums()) ^ figs), raised=raised, rc=now(), s=[]))
            else:
                return h["how"]
    steps()
    viz.unregister_adapter(M)
    viz.configure(style={})
    plt.close("all")
    return ev


def legacy(name, family, m, holds, rng, root):
    """the drawing functions the facade is built on, called directly"""
    from kd.viz import discover_viz as D, dlga_viz as L
    f = V.fields(rng)
    x, t, u, p = f["x_coords"], f["t_coords"], f["true_field"], f["predicted_field"]
    calls = []
    if family == "dlga":
        X, y = rng.standard_normal((30, 2)), rng.standard_normal((30, 1))
        # fields of these two: one row per time
        calls = [("plot_training_loss", lambda m: L.plot_training_loss(m, output_dir=root), ()), ("plot_validation_loss", lambda m: L.plot_validation_loss(m, output_dir=root), ()),
                 ("plot_pde_comparison", lambda m: L.plot_pde_comparison(x, t, u, p, output_dir=root), (x, t, u, p)), ("plot_evolution", lambda m: L.plot_evolution(m, output_dir=root), ()),
                 ("plot_optimization_analysis", lambda m: L.plot_optimization_analysis(m, output_dir=root), ()), ("plot_time_slices", lambda m: L.plot_time_slices(x, t, u, p, [0.0, 0.4], output_dir=root), (x, t, u, p)),
                 ("plot_derivative_relationships", lambda m: L.plot_derivative_relationships(m, output_dir=root), ()), ("plot_pde_parity", lambda m: L.plot_pde_parity(m, output_dir=root), ())]
        calls.append(("plot_residual_analysis", lambda m: L.plot_residual_analysis(m, X, y, u, p, output_dir=root), (X, y, u, p)))
    if family == "discover" and "pde" in holds and "surrogate" not in holds:
        b = m.searcher.best_p
        b = b[0] if isinstance(b, list) else b
        calls = [("plot_expression_tree", lambda m: D.plot_expression_tree(m, output_dir=root), ()), ("plot_density", lambda m: D.plot_density(m, output_dir=root), ()), ("plot_evolution", lambda m: D.plot_evolution(m, output_dir=root), ()),
                 ("plot_actual_vs_predicted", lambda m: D.plot_actual_vs_predicted(m, b, output_dir=root), ())]
        if "2-D" not in name:
            calls += [("plot_pde_residual_analysis", lambda m: D.plot_pde_residual_analysis(m, b, output_dir=root), ()), ("plot_field_comparison", lambda m: D.plot_field_comparison(m, b, output_dir=root), ())]
    if "surrogate" in holds and "2-D" not in name:
        b = m.searcher.best_p
        calls = [("plot_spr_residual_analysis", lambda m: D.plot_spr_residual_analysis(m, b, output_dir=root), ()), ("plot_spr_actual_vs_predicted", lambda m: D.plot_spr_actual_vs_predicted(m, b, output_dir=root), ()),
                 ("plot_spr_field_comparison", lambda m: D.plot_spr_field_comparison(m, b, output_dir=root), ())]
    return calls


def real_trace(which, seed, faults):
    import matplotlib.pyplot as plt
    rng = np.random.default_rng(seed)
    out = []
    plt.figure()  # one of the caller's own
    for name, family, m, holds in V.worlds(which, seed):
        todo = [(k, None, ()) for k in V.KINDS[family]]
        root = os.path.join(os.getcwd(), "%s legacy" % name)
        os.makedirs(root)
        todo += legacy(name, family, m, holds, rng, root)
        for kind, call, given in todo:
            root = os.path.join(os.getcwd(), "%s %s" % (name, kind))
            os.makedirs(root, exist_ok=True)
            ev = []

            def go(fault=None, deep=False, dirname=root):
                o, data = V.options(kind, family, dirname, rng)
                e, _ = V.request(m, kind, o, root, family, holds, given if call else data, fault=fault, call=call, deep=deep)
                ev.append(e[-1])
            go()
            go(deep=True)
            for n in range(1, faults + 1):
                go(fault=V.Fault(n))
            if not call:
                bad = os.path.join(root, "taken")
                open(bad, "w").close()
                go(dirname=bad)
                go(deep=True)
            out.append(dict(name="%s/%s" % (name, kind), events=ev))
    return out


def play(job):
    kind, arg, seed, d = job
    os.makedirs(d)
    os.chdir(d)
    import matplotlib
    matplotlib.use("Agg")
    for n in ("matplotlib.font_manager", "kd", "root"):
        logging.getLogger(n).setLevel(logging.CRITICAL)
    try:
        if kind == "real":
            return real_trace(arg, seed, 2)
        rng = np.random.default_rng(seed)
        return [dict(name="history %s" % json.dumps(h), events=style_trace(h, rng)) for h in arg]
    except Exception:
        return traceback.format_exc()


def run(cx):
    cx.model_check("VizStyleMC", MC % (6 if cx.thorough else 5, "FALSE"), workers=8, timeout=800)
    cases = cx.generate("VizStyleMC", MC % (5 if cx.thorough else 4, "TRUE"))
    jobs = [("real", w, cx.seed + 10 * k, cx.path("r%s_%d" % (w.replace(" ", "_"), k))) for w in V.WHICH for k in range(3 if cx.thorough else 1)]
    n = 12 if cx.thorough else 4
    jobs += [("style", cases[i::n], cx.seed + i, cx.path("g%d" % i)) for i in range(n)]
    traces = []
    with mp.get_context("fork").Pool(8, maxtasksperchild=1) as pool:
        for job, r in zip(jobs, pool.map(play, jobs, chunksize=1)):
            if isinstance(r, str):
                fr = [x for x in r.splitlines() if "/kd/" in x]
                cx.violation("exception:%s" % (fr[-1].strip() if fr else job[1]), "preparing %s: %s" % (job[1] if job[0] == "real" else "histories", r[-900:]), {"traceback": r})
            else:
                traces += r
    cx.note("real_requests", sum(len(t["events"]) for t in traces if not t["name"].startswith("history")))
    cx.validate("VizTrace", traces, key=lambda t, j: "%s:%s" % (t["name"], t["events"][j]["ev"]), what="after a plot request", timeout=800)
    cx.assumptions += ["the drawing functions under the facade, called directly, may leave their figure open when writing it fails"]

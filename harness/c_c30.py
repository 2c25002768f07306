"""C30: every public name is there, and is the same thing, in whatever order the package is asked for it."""
import gc, json, os, sys, traceback

LEVEL = "model_checking"
MC = """CONSTANTS MaxOps = %d Emit = %s
SPECIFICATION Spec
INVARIANT Closed
INVARIANT Commute
INVARIANT Known
INVARIANT Ready
VIEW View
CHECK_DEADLOCK FALSE
"""
GEN = """CONSTANTS MaxOps = %d Emit = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
"""
PK = ["kd", "kd.model", "kd.viz", "kd.dataset"]
CLS = ["DLGA", "KD_DLGA", "KD_Discover", "KD_Discover_SPR", "KD_Discover_Regression", "KD_SGA", "KD_PySR", "KD_EqGPT"]
HOME = {"DLGA": "kd.model.dlga", "KD_DLGA": "kd.model.kd_dlga", "KD_Discover": "kd.model.kd_discover", "KD_Discover_SPR": "kd.model.kd_discover",
        "KD_Discover_Regression": "kd.model.kd_discover_regression", "KD_SGA": "kd.model.kd_sga", "KD_PySR": "kd.model.kd_pysr", "KD_EqGPT": "kd.model.kd_eqgpt"}
DS = ["PDEDataset", "load_pde", "load_pde_dataset", "list_available_datasets", "get_dataset_info", "get_dataset_sym_true", "load_burgers_equation", "load_kdv_equation", "load_mat_file"]


def child(job):
    """one process, one history (the package has not been touched in it before)"""
    import importlib, random, tempfile
    import numpy as np
    import torch
    n, hist, seed = job
    assert not [m for m in sys.modules if m == "kd" or m.startswith("kd.")], "the package is already loaded"
    d = tempfile.mkdtemp(dir=os.getcwd())
    os.chdir(d)
    rng = random.Random(seed)
    ev, objs = [dict(ev="start")], []
    st = (np.random.get_state()[1].tobytes(), np.random.get_state()[2], random.getstate(), torch.random.get_rng_state().numpy().tobytes())

    heavy = []

    class Watch:
        """PySR starts Julia, which dies when torch is loaded: it is only ever loaded for a fit"""

        def find_spec(self, name, path=None, target=None):
            if name.split(".")[0] in ("pysr", "juliacall"):
                heavy.append(name)
            return None

    sys.meta_path.insert(0, Watch())

    def got(p, nm, f):
        e = dict(ev="get", p=p, n=nm, ok=False, obj=0, id="", cls="", err="")
        try:
            o = f()
        except Exception as x:
            e["err"] = "%s: %s" % (type(x).__name__, str(x)[:200])
        except RecursionError as x:
            e["err"] = "RecursionError"
        else:
            if not any(o is q for q in objs):
                objs.append(o)
            e.update(ok=True, obj=1 + [i for i, q in enumerate(objs) if q is o][0], id=type(o).__name__, cls=getattr(o, "__name__", ""))
        ev.append(e)

    def ask(op, p, nm):
        if op == "attr":
            got(p, nm, lambda: getattr(importlib.import_module(p), nm))
        else:
            def f():
                ns = {}
                exec("from %s import %s as it" % (p, nm), ns)
                return ns["it"]
            got(p, nm, f)

    def imp(m):
        try:
            importlib.import_module(m)
            ok = True
        except Exception as x:
            ok = False
        ev.append(dict(ev="import", m=m, ok=ok))

    def star(p):
        ns, ok, al = {}, True, []
        try:
            exec("from %s import *" % p, ns)
            al = list(getattr(importlib.import_module(p), "__all__", []))
        except Exception:
            ok = False
        ev.append(dict(ev="star", p=p, ok=ok, missing=[x for x in al if x not in ns]))

    def unknown(p):
        e = dict(ev="unknown", p=p, ok=True, err="")
        try:
            if rng.random() < 0.5:
                getattr(importlib.import_module(p), "KD_Nothing")
            else:
                exec("from %s import KD_Nothing" % p, {})
        except Exception as x:
            e.update(ok=False, err=type(x).__name__)
        ev.append(e)

    def plots(c):
        e = dict(ev="plots", c=c, ok=True, can=[], sub=[])
        try:
            k = getattr(importlib.import_module("kd.model" if rng.random() < 0.5 else HOME[c]), c)
            sub = type("Mine", (k,), {})
            from kd.viz import list_capabilities
            for key, q in rng.sample([("can", k), ("sub", sub)], 2):
                o = q.__new__(q)
                e[key] = sorted(list_capabilities(o if rng.random() < 0.7 else q))
        except Exception as x:
            e.update(ok=False, err="%s: %s" % (type(x).__name__, str(x)[:200]))
        ev.append(e)

    def listed(p):
        ok, al, missing = True, [], []
        try:
            m = importlib.import_module(p)
            al = sorted(set(getattr(m, "__all__", [])))
            for x in rng.sample(al, len(al)):
                try:
                    getattr(m, x)
                except Exception:
                    missing.append(x)
        except Exception:
            ok = False
        ev.append(dict(ev="listed", p=p, ok=ok, all=al, missing=missing))

    for o in hist:
        dict(attr=lambda: ask("attr", o["a"], o["b"]), star=lambda: star(o["a"]), unknown=lambda: unknown(o["a"]), plots=lambda: plots(o["a"])).get(
            o["op"], lambda: imp(o["a"]) if o["op"] == "import" else ask("from", o["a"], o["b"]))()
    # then everything, in any order
    rest = [lambda p=p: listed(p) for p in PK] + [lambda c=c: plots(c) for c in CLS] + [lambda p=p: unknown(p) for p in PK]
    rest += [lambda c=c: ask(rng.choice(["attr", "from"]), "kd.model", c) for c in CLS] + [lambda c=c: ask(rng.choice(["attr", "from"]), HOME[c], c) for c in CLS]
    rest += [lambda c=c: ask(rng.choice(["attr", "from"]), "kd", c) for c in CLS[:5]] + [lambda c=c: ask("attr", "kd", c) for c in ("model", "viz", "dataset")]
    rest += [lambda c=c: ask(rng.choice(["attr", "from"]), "kd.dataset", c) for c in DS] + [lambda c=c: ask(rng.choice(["attr", "from"]), "kd", c) for c in DS[-3:]]
    rng.shuffle(rest)
    for f in rest:
        f()
    same = st == (np.random.get_state()[1].tobytes(), np.random.get_state()[2], random.getstate(), torch.random.get_rng_state().numpy().tobytes())
    ev.append(dict(ev="left", cwd=os.path.realpath(os.getcwd()) == os.path.realpath(d), files=len(os.listdir(d)), random=same, light=not heavy))
    return n, ev


def processes(jobs, width):
    """every job in a process forked from this one (in which the package is not loaded)"""
    gc.collect()
    gc.freeze()
    live, res, jobs = {}, [], list(jobs)
    while jobs or live:
        while jobs and len(live) < width:
            job = jobs.pop(0)
            out = os.path.abspath("names_%d.json" % job[0])
            pid = os.fork()
            if not pid:
                try:
                    gc.disable()
                    n, ev = child(job)
                    with open(out, "w") as f:
                        json.dump(ev, f)
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(0)
            live[pid] = (job[0], out)
        pid, _ = os.wait()
        n, out = live.pop(pid)
        # a process that died of what it was asked for ends its record there
        res.append((n, json.load(open(out)) if os.path.exists(out) else [dict(ev="start"), dict(ev="died")]))
    return sorted(res)


def run(cx):
    import random
    cx.model_check("NamesMC", MC % (4 if cx.thorough else 3, "FALSE"))
    rng = random.Random(cx.seed)
    cases = cx.generate("NamesMC", GEN % 1)
    for n, many in ((2, 10 ** 6 if cx.thorough else 120), (3, 3000 if cx.thorough else 120)):
        c = cx.generate("NamesMC", GEN % n)
        cases += rng.sample(c, min(len(c), many))
    # third-party packages only: loaded once, before the processes divide
    import numpy, torch, tensorflow, numba, scipy.io, scipy.stats, scipy.interpolate, matplotlib.pyplot, seaborn, pandas, sklearn.linear_model, sympy  # noqa
    jobs = [(i, h, cx.seed * 100003 + i) for i, h in enumerate(cases)]
    res = processes(jobs, 8)
    traces = [dict(name=" > ".join("%s %s %s" % (o["op"], o["a"], o["b"]) for o in cases[n]).replace("  ", " ").strip() or "nothing", events=ev) for n, ev in res]
    cx.note("processes", len(traces))
    cx.validate("NamesTrace", traces, what="public names", key=lambda t, j: "names:%s:%s" % (t["events"][j]["ev"], t["events"][j].get("n") or t["events"][j].get("c") or t["events"][j].get("p") or ""))

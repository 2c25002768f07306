"""C14: the command-line runner runs what the configuration names and reports the true outcome."""
import contextlib, inspect, io, json, os, shutil, subprocess, sys
import numpy as np
from concurrent.futures import ThreadPoolExecutor
from common import REPO

LEVEL = "model_checking"
MC = 'CONSTANTS Emit = %s Wide = %s\nSPECIFICATION Spec\nINVARIANTS Truthful RightData Told\n%sCHECK_DEADLOCK FALSE\n'
EQ = "u_t = -1.0000 u u_x + 0.1000 u_{xx}"


def datasets(d):
    """uploaded files of every kind: path, file_config, (x, t, u) they stand for"""
    from scipy.io import savemat
    x, t = np.linspace(-1, 1, 8), np.linspace(0, 2, 5)
    u = np.arange(40.0).reshape(8, 5)
    sq = np.arange(64.0).reshape(8, 8)
    t8 = np.linspace(0, 3, 8)
    p = lambda n: os.path.join(d, n)
    savemat(p("a.mat"), dict(x=x, t=t, usol=u))
    savemat(p("b.mat"), dict(X=x, T=t, U=u.T))
    savemat(p("c.mat"), dict(x=x, t=t8, usol=sq))
    np.save(p("d.npy"), u.reshape(-1))
    with open(p("e.txt"), "w") as f:
        f.write("1 2 3")
    return {"mat": (p("a.mat"), {}, (x, t, u)), "mat_t": (p("b.mat"), dict(x_key="X", t_key="T", u_key="U"), (x, t, u)), "mat_square": (p("c.mat"), {}, (x, t8, sq)),
            "npy": (p("d.npy"), dict(shape=[8, 5], domain=dict(x=[-1, 1], t=[0, 2])), (x, t, u)), "npy_x": (p("d.npy"), dict(shape=[8, 5], domain=dict(x=[-1, 1])), (x, np.linspace(0, 1, 5), u)),
            "npy_t": (p("d.npy"), dict(shape=[8, 5], domain=dict(t=[3, 7])), (np.linspace(0, 1, 8), np.linspace(3, 7, 5), u)), "npy_unit": (p("d.npy"), dict(shape=[8, 5]), (np.linspace(0, 1, 8), np.linspace(0, 1, 5), u)), "absent": (p("none.mat"), {}, None), "badtype": (p("e.txt"), {}, None),
            "noshape": (p("d.npy"), {}, None), "nokey": (p("b.mat"), {}, None)}


class Drive:
    """one in-process run with the fits of both models replaced by recorded outcomes"""
    def __init__(self, d):
        from kd.dataset import load_pde
        from kd.model.kd_dlga import KD_DLGA
        from kd.model.kd_discover import KD_Discover_SPR
        self.d, self.files = d, datasets(d)
        self.known = {n: load_pde(n) for n in ("burgers", "kdv")}
        self.classes = [("dlga", KD_DLGA), ("dscv_spr", KD_Discover_SPR)]

    def which(self, ds):
        def same(x, t, u):
            a = [np.asarray(ds.x, dtype=float).reshape(-1), np.asarray(ds.t, dtype=float).reshape(-1), np.asarray(ds.usol)]
            return all(p.shape == np.asarray(q).shape and np.allclose(p, q) for p, q in zip(a, (x, t, u)))
        for n, k in self.known.items():
            if same(np.asarray(k.x).reshape(-1), np.asarray(k.t).reshape(-1), k.usol):
                return n
        for n, (_, _, v) in self.files.items():
            if v is not None and same(*v):
                return "mat-or-npy" if n in ("mat", "mat_t", "npy") else n
        return "something else"

    def run(self, case, params, out, how, rerun=None):
        import kd.runner as R
        d = self.d
        cfgp = os.path.join(d, "config.json")
        outd = os.path.join(d, out)
        shutil.rmtree(os.path.join(d, "output"), ignore_errors=True)
        shutil.rmtree(outd, ignore_errors=True)
        if os.path.exists(cfgp):
            os.remove(cfgp)
        config = dict(params=params)
        if case["model"] != "none":
            config["model"] = case["model"]
        if case["ds"] != "none":
            config["dataset_name"] = case["ds"]
        if case["file"] != "none":
            path, fc, _ = self.files[case["file"]]
            config["dataset_file"], config["file_config"] = path, fc
        args = ["runner", "--config", cfgp]
        if how == "override":
            args += ["--output_dir", outd]
            config["output_dir"] = os.path.join(d, "elsewhere")
        elif how == "config":
            config["output_dir"] = outd
        else:
            outd = os.path.join(d, "output")
        if case["cfg"] != "ok" and how == "config":
            outd = os.path.join(d, "output")
        if case["cfg"] == "ok":
            json.dump(config, open(cfgp, "w"))
        elif case["cfg"] == "garbled":
            open(cfgp, "w").write('{"model": "dlga", "params": {')
        elif case["cfg"] == "list":
            open(cfgp, "w").write('["dlga"]')
        if case["old"]:
            os.makedirs(outd, exist_ok=True)
            json.dump(dict(status="success", equation=EQ, model=case["model"], dataset="old", params={}, elapsed_seconds=1.0), open(os.path.join(outd, "result.json"), "w"))
        fits, undo = [], []
        for key, cls in self.classes:
            ini, fit = cls.__dict__["__init__"], cls.fit_dataset

            def init(self_, *a, __ini=ini, **k):
                b = inspect.signature(__ini).bind(self_, *a, **k)
                self_._asked = {n: v for n, v in b.arguments.items() if n != "self"}
                return __ini(self_, *a, **k)

            def fit_dataset(self_, *a, __key=key, __fit=fit, **k):
                b = inspect.signature(__fit).bind(self_, *a, **k).arguments
                rec = {n: show(v) for n, v in list(getattr(self_, "_asked", {}).items()) + list(b.items()) if n not in ("self", "dataset")}
                fits.append(dict(model=__key, data=Drive.which(drive, b["dataset"]), args=rec))
                if case["fit"] == "raises":
                    raise RuntimeError("fit broke down")
                if case["fit"] == "exits":
                    raise SystemExit(3)
                if __key == "dlga":
                    if case["fit"] == "equation":
                        self_.eq_latex = EQ
                    return self_
                return dict(expression=EQ) if case["fit"] == "equation" else [None, {}, dict(expression=None), dict(expression="")][len(params) % 4]
            undo.append((cls, ini, "fit_dataset" in cls.__dict__, cls.__dict__.get("fit_dataset")))
            cls.__init__, cls.fit_dataset = init, fit_dataset
        drive = self
        import kd.viz.core as V
        keep = V.render
        argv, cwd = sys.argv, os.getcwd()
        code = 0
        try:
            if case["plot"] == "raises":
                def boom(*a, **k):
                    raise RuntimeError("no plot")
                V.render = boom
            sys.argv = args
            os.chdir(d)
            try:
                with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                    R.main()
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
            except Exception as e:
                code = 1
        finally:
            sys.argv = argv
            os.chdir(cwd)
            V.render = keep
            V.configure(save_dir=None)
            for cls, ini, own, f in undo:
                cls.__init__ = ini
                if own:
                    cls.fit_dataset = f
                else:
                    del cls.fit_dataset
        return self.event(case, params, outd, code, fits)

    def event(self, case, params, outd, code, fits):
        res = dict(status="none", equation="", has_error=False, model="", dataset="", params="")
        path = os.path.join(outd, "result.json")
        if os.path.exists(path):
            try:
                r = json.load(open(path))
                res = dict(status=str(r.get("status")), equation=str(r.get("equation")), has_error=bool(r.get("error")), model=str(r.get("model")), dataset=str(r.get("dataset")), params=json.dumps(r.get("params"), sort_keys=True))
            except ValueError:
                res["status"] = "unreadable"
        data = case["file"] if case["file"] != "none" else case["ds"]
        name = self.files[case["file"]][0] if case["file"] != "none" else case["ds"]
        for f in fits:
            f["data"] = data if f["data"] == data or f["data"] == "mat-or-npy" and data in ("mat", "mat_t", "npy") else f["data"]
        return dict(ev="run", case=case, exit=code, result=res, fits=fits, params=[[k, show(v, k)] for k, v in params.items() if v is not None], asked=json.dumps(params, sort_keys=True), found=EQ, name=name)


NUMS = {"epi": float, "max_iter": int, "input_dim": int, "sample": int, "n_samples_per_batch": int, "seed": int, "n_epochs": int, "sample_ratio": float}


def show(v, key=None):
    if key in NUMS:
        v = NUMS[key](v)
    elif key is not None and isinstance(v, str):
        v = [s.strip() for s in v.split(",") if s.strip()]
    if isinstance(v, (list, tuple)):
        return ",".join(str(x) for x in v)
    return repr(float(v)) if isinstance(v, (int, float)) and not isinstance(v, bool) else str(v)


def draw(rng, model):
    """some of the model's parameters, values as a user would write them"""
    ops = {"operators": ["u,u_x", "u_xx , u", ["u", "u_tt"], " u_t,u_x,u "], "binary_operators": ["add_t,mul_t", ["add_t", "diff_t"], "add_t , diff2_t"], "unary_operators": ["n2_t", ["n2_t", "n3_t"], "n3_t"]}
    pool = {"dlga": ["operators", "epi", "max_iter", "input_dim", "sample"], "dscv_spr": ["binary_operators", "unary_operators", "n_samples_per_batch", "seed", "n_epochs", "sample_ratio"]}.get(model, ["operators"])
    out = {}
    for k in pool:
        if rng.random() < 0.55:
            if k in ops:
                out[k] = ops[k][int(rng.integers(len(ops[k])))]
            elif k == "input_dim":
                out[k] = [2, 3][int(rng.integers(2))]
            elif NUMS[k] is float:
                out[k] = float(round(float(rng.uniform(0.01, 0.9)), 3))
            elif k == "sample":
                out[k] = [None, 7, 500][int(rng.integers(3))]
            else:
                out[k] = int(rng.integers(1, 400))
            if rng.random() < 0.15 and k in NUMS and out[k] is not None:
                out[k] = str(out[k])
    return out


def process(cx, d, i, case, config):
    """a run in its own process, nothing replaced"""
    w = os.path.join(d, "p%d" % i)
    os.makedirs(w, exist_ok=True)
    if config is not None:
        json.dump(config, open(os.path.join(w, "c.json"), "w"))
    env = dict(os.environ, PYTHONPATH=str(REPO), TQDM_DISABLE="1", MPLBACKEND="Agg")
    r = subprocess.run([sys.executable, "-m", "kd.runner", "--config", "c.json", "--output_dir", "out"], cwd=w, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300)
    return w, r.returncode


def run(cx):
    rng = np.random.default_rng(cx.seed)
    wide = "TRUE" if cx.thorough else "FALSE"
    cx.model_check("RunnerMC", MC % ("FALSE", wide, "PROPERTY Ends\n"))
    cases = cx.generate("RunnerMC", MC % ("TRUE", wide, ""))
    d = os.path.join(str(cx.scratch), "runs")
    os.makedirs(d, exist_ok=True)
    drive = Drive(d)
    events = []
    for rep in range(3 if cx.thorough else 1):
        for i, case in enumerate(cases):
            events.append(drive.run(case, draw(rng, case["model"]), "res%d" % (i % 3), ["override", "config", "default"][int(rng.integers(3))]))
    cx.count("runs_in_process", len(events))
    # whole processes that must fail, left to themselves
    base = dict(cfg="ok", model="dlga", ds="nosuch", file="none", fit="equation", plot="fine", old=False)
    plans = [(base, dict(model="dlga", dataset_name="nosuch", params={})), (dict(base, cfg="absent", ds="burgers"), None), (dict(base, model="sga", ds="burgers"), dict(model="sga", dataset_name="burgers"))]
    with ThreadPoolExecutor(3) as ex:
        for (case, config), (w, code) in zip(plans, ex.map(lambda p: process(cx, d, p[0], p[1][0], p[1][1]), list(enumerate(plans)))):
            events.append(drive.event(case, {}, os.path.join(w, "out"), code, []))
    cx.count("runs_in_own_process", len(plans))
    traces = [dict(name="runs-%d" % k, events=events[k::8]) for k in range(8)]
    key = lambda t, j: ":".join(str(t["events"][j]["case"][k]) for k in ("cfg", "model", "ds", "file", "fit", "plot"))
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(lambda i: cx.validate("RunnerTrace", traces[i::4], key=key, what="run"), range(4)))

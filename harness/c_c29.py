"""C29: the web interface runs what was asked and shows what came of it."""
import contextlib, copy, inspect, io, json, os, shutil, sys, types
import numpy as np
from concurrent.futures import ThreadPoolExecutor
from common import REPO
from h_app import load_app, Page
from c_c13 import Cloud, service
from c_c14 import show as plain

LEVEL = "model_checking"
MC = 'CONSTANTS Depth = %d Emit = %s\nSPECIFICATION Spec\nINVARIANTS Honest Own Followed Told\nPROPERTY Kept\nCHECK_DEADLOCK FALSE\n'
FORMS = ["$u_t = %d.25 u_{xx}$", "u_t = %d.25 u u_x", "%d.25 * diff_t(u1,x1)", "%d.25 * n2(u1", "$%d.25 u_{x^{2}$", "u_t = %d.25 \\frac{u}{", "%d.25 u ^ ^ x", "100%% $ %d.25 u"]
def PNG(keep=[]):
    if not keep:
        import matplotlib.pyplot as plt
        b = io.BytesIO()
        plt.imsave(b, np.zeros((3, 4)))
        keep.append(b.getvalue())
    return keep[0]


OPS = ("operators", "binary_operators", "unary_operators")


def show(key, v):
    if v is None or v == "":
        return "None"
    if key in OPS:
        return ",".join(s.strip() for s in v.split(",") if s.strip()) if isinstance(v, str) else ",".join(str(x) for x in v)
    if key == "case_filter":
        return {"N only (12 cases)": "N", "All (23 cases)": "all"}.get(v, str(v))
    return plain(float(v)) if isinstance(v, (int, float)) else str(v)


class Desk:
    """the application with fits, figures and the cloud replaced by scripted outcomes that are recorded"""
    def __init__(self, cx, rng):
        from kd.dataset import load_pde
        from kd.model import kd_sga, kd_dlga, kd_discover, kd_eqgpt
        self.rng, self.cloud = rng, Cloud()
        self.load = load_pde
        self.known = {}
        self.classes = {"KD_SGA": (kd_sga.KD_SGA, "fit_dataset"), "KD_DLGA": (kd_dlga.KD_DLGA, "fit_dataset"), "KD_Discover": (kd_discover.KD_Discover, "fit_dataset"),
                        "KD_Discover_SPR": (kd_discover.KD_Discover_SPR, "fit_dataset"), "KD_EqGPT": (kd_eqgpt.KD_EqGPT, "fit_pretrained")}
        self.fits, self.asked = [], []
        self.k, self.o = 0, "equation"
        self.eq, self.models, self.active = {}, [], 0
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            m = kd_sga.KD_SGA(sga_run=1, num=3, depth=2, seed=1)
            m.fit_dataset(load_pde("kdv"))
        self.fitted = {a: v for a, v in m.__dict__.items() if a.endswith("_") or a.startswith("_") or a not in inspect.signature(kd_sga.KD_SGA.__init__).parameters}

    def which(self, ds):
        for n in self.names:
            if n not in self.known:
                with contextlib.redirect_stdout(io.StringIO()):
                    self.known[n] = self.load(n)
            k = self.known[n]
            if type(k) is type(ds) and np.shape(k.usol) == np.shape(ds.usol) and np.array_equal(np.asarray(k.usol), np.asarray(ds.usol)) and np.array_equal(np.asarray(k.x).reshape(-1), np.asarray(ds.x).reshape(-1)):
                return n
        return "something else"

    def number(self, model):
        """which run the object came from"""
        return next((i for m, i in self.models if m is model), -1)

    @contextlib.contextmanager
    def replaced(self):
        undo = []
        desk = self
        for key, (cls, method) in self.classes.items():
            ini, fit = cls.__init__, getattr(cls, method)

            def init(self_, *a, __ini=ini, **kw):
                b = inspect.signature(__ini).bind(self_, *a, **kw)
                b.apply_defaults()
                first = not hasattr(self_, "_asked")
                if first:
                    object.__setattr__(self_, "_asked", {n: v for n, v in b.arguments.items() if n != "self"})
                return __ini(self_, *a, **kw)

            def run(self_, *a, __key=key, __cls=cls, __fit=fit, **kw):
                b = inspect.signature(__fit).bind(self_, *a, **kw).arguments
                extra = dict(b.get("kwargs", {}))
                args = {n: show(n, v) for n, v in list(self_._asked.items()) + list(b.items()) + list(extra.items()) if n not in ("self", "dataset", "kwargs", "args") and isinstance(v, (str, int, float, list, tuple, type(None)))}
                desk.fits.append(dict(model=type(self_).__name__, data=desk.which(b["dataset"]) if "dataset" in b else "", args=args))
                return desk.outcome(self_)
            for attr, new in (("__init__", init), (method, run)):
                undo.append((cls, attr, attr in cls.__dict__, cls.__dict__.get(attr)))
                setattr(cls, attr, new)
        try:
            yield
        finally:
            for cls, attr, own, old in undo:
                if own:
                    setattr(cls, attr, old)
                else:
                    delattr(cls, attr)

    def outcome(self, m):
        k, o = self.k, self.o
        self.models.append((m, k))
        if o == "raises":
            raise RuntimeError("the fit broke down")
        name = type(m).__name__
        if name == "KD_SGA":
            if o == "equation":
                m.__dict__.update({a: v for a, v in self.fitted.items()})
                m.best_equation_details_ = copy.deepcopy(m.best_equation_details_)
                m.best_equation_details_.terms[0].coefficient = k + 0.25
                self.eq[k] = m.equation_latex()
            return m
        text = FORMS[int(self.rng.integers(len(FORMS)))] % k if o == "equation" else [None, ""][k % 2]
        if o == "equation":
            self.eq[k] = text
        if name == "KD_DLGA":
            m.eq_latex = text
            return m
        if name == "KD_EqGPT":
            return dict(best_equation=text, equations=[text], rewards=[0.5], best_reward=0.5) if o == "equation" else dict(equations=[], rewards=[], best_equation="", best_reward=0.0)
        return dict(expression=text) if o == "equation" else [None, {}, dict(expression=None)][k % 3]


def request(login):
    return types.SimpleNamespace(headers={"cookie": "a=b; appAccessKey=AK; clientName=cl"} if login else {}) if login else [None, types.SimpleNamespace(headers={}), types.SimpleNamespace(headers={"cookie": "other=1"})][login is None]


class Session:
    def __init__(self, desk, app, tmp):
        self.d, self.app, self.tmp = desk, app, tmp
        desk.k, desk.eq, desk.models = 0, {}, []
        desk.fits.clear()
        del desk.cloud.sent[:], desk.cloud.asked[:]
        self.jobs, self.events = {}, []
        self.page = Page(app)
        self.note("choose", **self.flags())

    def flags(self):
        from kd.dataset._registry import PDE_REGISTRY
        return dict(flags=sorted(k for k, v in PDE_REGISTRY[self.page.field("Dataset").value].get("models", {}).items() if v), active=self.d.names, datasets=list(self.page.field("Dataset").choices))

    def text(self, v):
        v = "" if v is None else str(v)
        hits = [k for k, e in self.d.eq.items() if v.strip().strip("$") == e.strip().strip("$")]
        if len(hits) == 1:
            return hits[0]
        return -1 if any(e.strip("$ ") in v for e in self.d.eq.values()) else 0

    def view(self):
        p = self.page
        model, job = p.state(0).value, p.state(1).value
        status = p.field("GPU Job Status")
        shown = str(status.value or "").lower() if status.visible else ""
        return dict(eq=self.text(p.field("Discovered Equation").value), said=True, plot=p.field("Equation Visualization").value is not None, kept=0 if model is None else self.d.number(model),
                    job=0 if job is None else self.jobs.get(job, -1), follow=bool(p.button("Check GPU Job").visible), figs=list(p.field("Plot type (train a model first)").choices),
                    status="finished" if "finish" in shown else "failed" if "fail" in shown or "error" in shown else "" if not shown else "other",
                    offered=list(p.field("Model").choices), model=p.field("Model").value or "none", groups=p.groups())

    def note(self, what, **k):
        v = self.view()
        msg = self.page.field("Discovered Equation").value
        # an ended run without an equation may leave the field empty; anything else says something
        v["said"] = what != "train" or k.get("o") == "nothing" or bool(str(msg or "").strip())
        self.events.append(dict(ev=what, view=v, fits=copy.deepcopy(self.d.fits), sent=self.sent(), **k))
        self.d.fits.clear()
        del self.d.cloud.sent[:], self.d.cloud.asked[:]

    def sent(self):
        out = []
        for s in self.d.cloud.sent:
            for u in s["uploads"]:
                if u["field"] == "config":
                    c = json.loads(u["content"])
                    out.append(dict(model=str(c.get("model")), data=str(c.get("dataset_name")), args={n: show(n, v) for n, v in c.get("params", {}).items()}))
        return out

    # ---- actions
    def choose(self, ds):
        self.page.set(self.page.field("Dataset"), ds)
        self.note("choose", **self.flags())

    def pick(self, m):
        new = self.page.field("Model").value != m
        self.page.set(self.page.field("Model"), m)
        ops = [s.strip() for f in ("Binary operators", "Unary operators") for s in str(self.page.fields()["DSCV Parameters/" + f].value).split(",")]
        self.note("pick", model=m, presets="kept" if not new else "torch" if all(o.endswith("_t") for o in ops) else "plain" if not any(o.endswith("_t") for o in ops) else "mixed")

    def enter(self, rng):
        """other values in some of the fields, the way the page would hand them over"""
        for key, c in self.page.fields().items():
            if rng.random() < 0.5:
                continue
            label = c.label
            if c.kind == "Dropdown":
                c.value = str(rng.choice(c.choices))
            elif c.kind == "Textbox":
                c.value = {"Operators (comma-separated)": ["u,u_x", " u , u_xx,u_tt"], "Binary operators": ["add_t , mul_t", "add,diff2"], "Unary operators": ["n3", "n2_t,n3_t ,"]}.get(label, ["x"])[int(rng.integers(2))]
            elif label.startswith("Observation"):
                c.value = float(np.round(rng.uniform(0.02, 1), 2))
            elif label.startswith("Sparsity"):
                c.value = float(np.round(rng.uniform(0.01, 2), 3))
            elif label == "Sample points":
                c.value = [None, 0, 37, 800][int(rng.integers(4))]
            else:
                c.value = int(rng.integers(1, 900))

    def train(self, m, o, login, rng):
        d, p = self.d, self.page
        self.page.request = request(login)
        d.k, d.o = d.k + 1, o
        if m != p.field("Model").value:
            p.field("Model").value = m if m != "none" else None
            p.fire([p.field("Model")], "change")
        self.enter(rng)
        d.cloud.projects, d.cloud.fault = ([7], "none") if o != "refused" else [([], "none"), ([7], "list"), ([], "list"), ([7], "broken")][d.k % 4]
        if d.cloud.fault == "list" and d.cloud.projects:
            d.cloud.fault = "submit"
        d.cloud.next += 1
        before = d.cloud.next
        entered = {}
        for key, c in p.fields().items():
            v = c.value
            arg = "operators" if "perators" in c.label else "case_filter" if c.label == "Case filter" else "n"
            entered[key] = show(arg, None if c.label == "Sample points" and not v else v)
        if o == "refused" and d.cloud.fault == "broken":
            p.request = types.SimpleNamespace(headers={"cookie": "appAccessKey=AK"})      # half a login
        err = ""
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                p.click("Start Training")
        except Exception as e:
            err = "%s: %s" % (type(e).__name__, e)
        if o == "sent" and d.cloud.next > before:
            self.jobs[d.cloud.next] = d.k
        caps, spr = [], []
        model = p.state(0).value
        if model is not None:
            from kd.viz.core import list_capabilities
            caps = sorted(list_capabilities(model))
            spr = [c for c in caps if c.startswith("spr_")]
        self.note("train", model=m, o=o, login=bool(login), ds=p.field("Dataset").value, k=d.k, entered=entered, caps=caps, spr=spr, raised=err)

    def check(self, o, rng):
        d, p = self.d, self.page
        job = p.state(1).value
        k = self.jobs.get(job, 0)
        p.request = request(True) if o != "unreachable" else types.SimpleNamespace(headers={"cookie": "appAccessKey=AK"})
        picture = False
        if job is not None:
            d.cloud.codes[job] = {"running": int(rng.choice([0, 1, 3, 4, 9])), "failed": int(rng.choice([12, 13])), "unreachable": 1}.get(o, int(rng.choice([10, 11])))
            eq = FORMS[int(rng.integers(len(FORMS)))] % k
            if o == "success":
                d.eq[k] = eq
            picture = bool(rng.random() < 0.5)
            content = dict(status="success" if o == "success" else "error", equation=eq if o == "success" else None if rng.random() < 0.5 else "", elapsed_seconds=2.5, **({} if o == "success" else dict(error="the run broke down")))
            d.cloud.remote[job] = ({"missing": "absent"}.get(o, o if o in ("success", "error", "broken") else "broken"), content)
            d.cloud.picture = PNG() if picture else False
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                p.click("Check GPU Job")
        except Exception as e:
            pass
        asked = sorted(set(d.cloud.asked))
        self.note("check", o=o, asked=k if o == "unreachable" or (asked == [job]) else -1, picture=picture)

    def cancel(self):
        self.page.click("Cancel")
        self.note("cancel")

    def figure(self, o, rng):
        import matplotlib.pyplot as plt
        from kd.viz import core as V
        from kd.viz.core import VizResult
        d, p = self.d, self.page
        model = p.state(0).value
        dd = p.field("Plot type (train a model first)")
        kind = str(rng.choice(dd.choices)) if dd.choices else "equation"
        dd.value = kind
        asked, made = [], {}
        adapter = V.registry.get_adapter(model) if model is not None else None
        cls = type(adapter) if adapter is not None else None
        keep = cls.__dict__.get("render") if cls else None
        img = np.asarray(rng.integers(0, 256, size=(5, 7, 3)), dtype=np.uint8)

        def scripted(self_, request, ctx):
            asked.append(dict(kind=str(request.kind), of=d.number(request.target)))
            if o == "raises":
                raise ValueError("cannot draw")
            if o == "file":
                path = str(ctx.save_path("some/figure.png") if hasattr(ctx, "save_path") else ctx.config.save_dir)
                os.makedirs(os.path.dirname(path), exist_ok=True)
                plt.imsave(path, img)
                return VizResult(intent=request.kind, paths=[path])
            fig = plt.figure() if o in ("figure", "warned") else None
            made["fig"] = fig
            return VizResult(intent=request.kind, figure=fig, warnings=["take care"] if o in ("warned", "message") else [])
        before = V.configure().save_dir
        try:
            if cls:
                cls.render = scripted
            p.click("Generate")
        except Exception as e:
            p.field("Result").value, p.field("Status").value = None, ""
        finally:
            if cls:
                cls.render = keep
        fig, msg = p.field("Result").value, str(p.field("Status").value or "")
        shown = "none"
        if fig is not None:
            shown = "figure" if fig is made.get("fig") else "other"
            ims = [a for ax in fig.axes for a in ax.images]
            if o == "file" and ims and np.shape(ims[0].get_array())[:2] == img.shape[:2] and np.allclose(np.asarray(ims[0].get_array())[..., :3], img / 255.0, atol=0.01):
                shown = "file"
        restored = V.configure().save_dir == before
        V.configure().save_dir = before
        plt.close("all")
        self.note("figure", o=o, adapter=cls is not None, kind=kind, asked=asked, shown=shown, said=bool(msg.strip()), warned="take care" in msg, restored=restored)


def play(desk, app, rng, acts, k, tmp):
    import matplotlib.pyplot as plt
    s = Session(desk, app, tmp)
    for a in acts:
        offered = s.page.field("Model").choices
        if a.get("model", "none") not in ["none"] + offered:      # a list offers no more than it holds
            a = dict(a, model="KD_EqGPT", **(dict(o="equation") if a["act"] == "train" and a["o"] in ("sent", "refused") else {}))
        if a["act"] == "choose" and s.page.field("Model").value is None:
            continue
        if a["act"] == "train":
            s.train(a["model"], a["o"], a["login"], rng)
        elif a["act"] == "check":
            if not s.page.button("Check GPU Job").visible:      # nothing to press; a job lost is seen where it was lost
                continue
            s.check(a["o"], rng)
        elif a["act"] == "cancel":
            s.cancel()
        elif a["act"] == "figure":
            s.figure(a["o"], rng)
        elif a["act"] == "choose":
            s.choose(a["ds"])
        elif a["act"] == "pick":
            s.pick(a["model"])
    plt.close("all")
    return dict(name="session-%s" % k, events=s.events)


def longer(rng, names, n):
    """sessions past the model's bound, over every model and dataset"""
    models = ["KD_SGA", "KD_DLGA", "KD_DSCV", "KD_DSCV_SPR", "KD_EqGPT"]
    job, out = False, []
    for _ in range(n):
        x = rng.random()
        if job and x < 0.4:
            o = str(rng.choice(["running", "running", "unreachable", "broken", "failed", "success", "error", "missing"]))
            out.append(dict(act="check", o=o))
            job = o in ("running", "unreachable", "broken")
        elif x < 0.55:
            m = str(rng.choice(models + ["KD_DLGA", "KD_DSCV_SPR", "none"]))
            login = bool(rng.random() < 0.5) or [False, None][int(rng.integers(2))]
            off = login is True and m in ("KD_DLGA", "KD_DSCV_SPR")
            o = str(rng.choice(["sent", "sent", "refused"])) if off else str(rng.choice(["equation", "equation", "equation", "raises", "nothing"]))
            out.append(dict(act="train", model=m, o=o, login=login))
            job = off and o == "sent"
        elif x < 0.7:
            out.append(dict(act="figure", o=str(rng.choice(["figure", "warned", "file", "message", "nothing", "raises"]))))
        elif x < 0.82:
            out.append(dict(act="choose", ds=str(rng.choice(names))))
        elif x < 0.95:
            out.append(dict(act="pick", model=str(rng.choice(models))))
        else:
            out.append(dict(act="cancel"))
            job = False
    return out


def run(cx):
    import matplotlib
    matplotlib.use("Agg")
    rng = np.random.default_rng(cx.seed)
    cx.model_check("AppMC", MC % (4 if cx.thorough else 3, "FALSE"))
    cases = cx.generate("AppMC", MC % (3, "TRUE"))
    os.chdir(str(cx.scratch))
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        app = load_app()
    desk = Desk(cx, rng)
    from kd.dataset._registry import PDE_REGISTRY
    desk.names = sorted(n for n, i in PDE_REGISTRY.items() if i.get("status") != "pending")
    tmp = os.path.join(str(cx.scratch), "tmp")
    traces = []
    with service(desk.cloud, tmp, KD_JOB_OUTPUT_DIR=os.path.join(str(cx.scratch), "jobs")) as J, desk.replaced():
        pick = rng.permutation(len(cases))[:(1500 if cx.thorough else 170)]
        for k in pick:
            traces.append(play(desk, app, rng, cases[k], k, tmp))
        cx.count("sessions_from_the_model", len(pick))
        for k in range(200 if cx.thorough else 25):
            traces.append(play(desk, app, rng, longer(rng, desk.names, 14), "long%d" % k, tmp))
    cx.count("actions", sum(len(t["events"]) for t in traces))
    key = lambda t, j: "%s:%s:%s" % (t["events"][j]["ev"], t["events"][j].get("model", ""), t["events"][j].get("o", ""))
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(lambda i: cx.validate("AppTrace", traces[i::4], key=key, what="session"), range(4)))

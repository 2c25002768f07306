"""A stand-in for the page library, and a page driven through the web interface's own wiring."""
import importlib.util, inspect, os, sys, types
from common import REPO


def update(**k):
    return dict(k, __type__="update")


class Request:
    pass


class Component:
    stack = []
    made = []

    def __init__(self, *args, **kw):
        self.kind, self.kw = type(self).__name__, kw
        self.value = kw.get("value", args[0] if args and self.kind in ("State", "Button", "Markdown") else None)
        self.label = str(kw.get("label", args[0] if args and self.kind in ("Button", "TabItem") else ""))
        self.choices, self.visible = list(kw.get("choices") or []), kw.get("visible", True)
        self.events, self.parents = [], list(Component.stack)
        if self.kind == "Slider":
            self.value = kw.get("value")
        Component.made.append(self)

    def __enter__(self):
        Component.stack.append(self)
        return self

    def __exit__(self, *a):
        Component.stack.pop()

    def _on(self, what):
        def listen(fn=None, inputs=None, outputs=None, **k):
            one = lambda x: [] if x is None else list(x) if isinstance(x, (list, tuple)) else [x]
            self.events.append((what, fn, one(inputs), one(outputs)))
            return self.events[-1]
        return listen

    def __getattr__(self, name):
        if name in ("click", "change", "load", "submit", "select", "input", "then", "blur", "release"):
            return self._on(name)
        raise AttributeError(name)


def library():
    m = types.ModuleType("gradio")
    kinds = {}

    def find(name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name == "themes":
            return types.SimpleNamespace(Soft=lambda *a, **k: None, Default=lambda *a, **k: None, Base=lambda *a, **k: None)
        return kinds.setdefault(name, type(name, (Component,), {}))
    m.__getattr__ = find
    m.update, m.Request = update, Request
    return m


def load_app():
    old = sys.modules.get("gradio")
    sys.modules["gradio"] = library()
    try:
        spec = importlib.util.spec_from_file_location("kd_app_under_test", os.path.join(str(REPO), "app.py"))
        app = importlib.util.module_from_spec(spec)
        sys.modules["kd_app_under_test"] = app
        spec.loader.exec_module(app)
        return app
    finally:
        if old is not None:
            sys.modules["gradio"] = old


class Page:
    def __init__(self, app, request=None):
        Component.stack, Component.made = [], []
        self.app, self.request = app, request
        self.root = app.build_app()
        self.all = list(Component.made)
        self.fire([self.root], "load")

    # ---- finding things the way a user does
    def group(self, c):
        for p in reversed(c.parents):
            if p.kind == "Group":
                return self.title(p)
        return ""

    def title(self, g):
        for c in self.all:
            if c.kind == "Markdown" and c.parents and c.parents[-1] is g:
                return str(c.value).strip("* \n")
        return ""

    def field(self, label, group=None):
        got = [c for c in self.all if c.label == label and c.kind not in ("Button", "TabItem") and (group is None or self.group(c) == group)]
        return got[0] if len(got) == 1 else None

    def fields(self):
        return {self.group(c) + "/" + c.label: c for c in self.all if self.group(c) and c.label}

    def button(self, text):
        return [c for c in self.all if c.kind == "Button" and (c.value == text or c.label == text)][0]

    def groups(self):
        return [self.title(c) for c in self.all if c.kind == "Group" and c.visible]

    def state(self, n):
        return [c for c in self.all if c.kind == "State"][n]

    # ---- what happens
    def fire(self, comps, what):
        todo = [(c, what) for c in comps]
        for _ in range(40):
            if not todo:
                return
            c, w = todo.pop(0)
            for kind, fn, ins, outs in c.events:
                if kind != w or fn is None:
                    continue
                args = [i.value for i in ins]
                for name, p in inspect.signature(fn).parameters.items():
                    if p.annotation is Request or p.annotation in ("gr.Request", "Request"):
                        res = fn(*args, **{name: self.request})
                        break
                else:
                    res = fn(*args)
                vals = [res] if len(outs) == 1 else list(res if res is not None else [])
                if len(vals) != len(outs):
                    raise RuntimeError("%d values for %d outputs" % (len(vals), len(outs)))
                for o, v in zip(outs, vals):
                    before = o.value
                    if isinstance(v, dict) and v.get("__type__") == "update":
                        if "value" in v:
                            o.value = v["value"]
                        if "choices" in v:
                            o.choices = list(v["choices"] or [])
                        if "visible" in v:
                            o.visible = v["visible"]
                    else:
                        o.value = v
                    if o.value is not before and type(o.value) in (str, int, float) and o.value != before:
                        todo.append((o, "change"))

    def set(self, c, value):
        if c.value != value:
            c.value = value
            self.fire([c], "change")

    def click(self, text):
        self.fire([self.button(text)], "click")

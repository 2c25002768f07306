"""C09: datasets are accepted only if consistent and read back what was given."""
from concurrent.futures import ThreadPoolExecutor
import numpy as np
from h_dataset import Request, attempt, field, ints

LEVEL = "model_checking"
DEFECTS = ["none", "transposed", "long", "longlast", "short", "flat", "extra_dim", "param_shape", "param_flat", "param_nan", "param_inf", "no_x", "no_t", "no_u", "no_fields", "no_coords",
           "no_order", "empty_order", "empty_fields", "dup_axis", "extra_axis", "extra_coord", "renamed_axis", "no_target", "no_lhs", "other_field", "other_transposed", "reordered", "scalar_field"]
ORDERS = '{<<"x", "t">>, <<"t", "x">>, <<"x", "y">>, <<"t">>, <<"y", "t">>, <<"x", "t", "y">>, <<"t", "x", "y">>, <<"y", "x", "t">>}'
ORDERS4 = '{<<"x", "y", "z", "t">>, <<"t", "z", "x", "y">>, <<"r", "t", "x", "y">>, <<"z", "t">>}'
MC = """CONSTANTS Emit = %s Orders <- O Sizes = %s MaxDraw = %d Defects = {%s}
SPECIFICATION Spec
INVARIANTS Paired Apart Layouts Complete Swap
CHECK_DEADLOCK FALSE
"""


def cases(cx, orders, sizes, defects):
    files = {"DG.tla": "---- MODULE DG ----\nEXTENDS DatasetMC\nO == %s\n====\n" % orders}
    return cx.generate("DG", MC % ("TRUE", sizes, 1, ", ".join('"%s"' % d for d in defects)), files=files)


def design(cx):
    files = {"DG.tla": "---- MODULE DG ----\nEXTENDS DatasetMC\nO == {<<\"x\", \"t\">>, <<\"t\", \"x\">>, <<\"t\", \"x\", \"y\">>, <<\"y\", \"t\", \"x\">>}\n====\n"}
    cx.model_check("DG", MC % ("FALSE", "{1, 2, 3}" if cx.thorough else "{1, 2}", 4, '"none"'), files=files)


def accessors(rng, rq, ds):
    ev = []
    c = rq.rec
    ev.append(dict(ev="size", v=list(ds.get_size())))
    ev.append(dict(ev="bounds", b=[dict(n=n, lo=ints(lo)[0], hi=ints(hi)[0]) for n, (lo, hi) in ds.get_boundaries().items()]))
    d = ds.get_data()
    r = dict(ev="read", usol=field(d["usol"]), u=field(ds.u), item=field(ds["usol"]), params=[field(a, n) for n, a in ds.param_fields.items()])
    for n in ("x", "t"):
        if n in c["order"]:
            r[n] = ints(d[n]) if ints(d[n]) == ints(getattr(ds, n)) else ["differ"]
    if rq.mode == "nd":
        r.update(order=list(ds.axis_order), target=ds.target_field, lhs=ds.lhs_axis, coords=[dict(n=n, v=ints(v)) for n, v in ds.coords_1d.items()],
                 fields=[field(a, n) for n, a in ds.fields_data.items()])
    ev.append(r)
    lens = {n: len(rq.coords[n]) for n in c["order"]}
    nx, nt = lens.get("x", 2), lens.get("t", 2)
    picks = {(0, 0), (nx - 1, nt - 1), (0, nt - 1), (nx - 1, 0), (nx, 0), (0, nt), (-1, 0), (0, -1)} | {(int(rng.integers(nx)), int(rng.integers(nt))) for _ in range(2)}
    for i, j in sorted(picks):
        ok, v = attempt(ds.get_datapoint, i, j)
        ev.append(dict(ev="datapoint", i=i, j=j, ok=ok, v=ints(v) if ok else []))
    for kw in ({}, dict(indexing="xy")):
        ok, v = attempt(ds.mesh, **kw)
        ev.append(dict(ev="mesh", xy=bool(kw), ok=ok, pts=[ints(p) for p in v] if ok else []))
        ok, v = attempt(ds.mesh_bounds, **kw)
        ev.append(dict(ev="meshbounds", ok=ok, lo=ints(v[0]) if ok else [], hi=ints(v[1]) if ok else []))
    xs, ts = rq.coords.get("x", np.array([0.0])), rq.coords.get("t", np.array([0.0]))
    for _ in range(3):
        xl, xh = sorted(int(rng.integers(xs[0] - 2, xs[-1] + 3)) for _ in range(2))
        tl, th = sorted(int(rng.integers(ts[0] - 2, ts[-1] + 3)) for _ in range(2))
        ok, v = attempt(ds.get_range, (xl, xh), (tl, th))
        ev.append(dict(ev="range", xlo=xl, xhi=xh, tlo=tl, thi=th, ok=ok, x=ints(v["x"]) if ok else [], t=ints(v["t"]) if ok else [], usol=field(v["usol"]) if ok else dict(shape=[], v=[])))
    return ev


def derivatives(rng, rq, ds):
    ev = []
    for ax in ("x", "t", "y"):
        ok, v = attempt(ds.get_derivative, ax)
        if ok:
            v = np.asarray(v)
            w = np.where(np.abs(v - np.round(v)) < 1e-9, np.round(v), v)
        if ok or not (rq.mode == "legacy" or set(rq.order) == {"x", "t"}) or ax == "y":
            ev.append(dict(ev="deriv", axis=ax, ok=ok, poly=list(rq.poly), shape=list(v.shape) if ok else [], v=ints(w) if ok else []))
    return ev


def run(cx):
    rng = np.random.default_rng(cx.seed)
    design(cx)
    todo = cases(cx, ORDERS, "{1, 2, 3}", DEFECTS) + cases(cx, ORDERS4, "{2, 3}", DEFECTS)
    cx.count("construction_requests", len(todo))
    traces = []
    for k, cs in enumerate(todo):
        full = cx.thorough or cs["defect"] == "none" or len(cs["order"]) < 3 or rng.random() < 0.2
        if not full:
            continue
        rq = Request(rng, cs, fields=1 + int(rng.random() < 0.3), params=int(rng.integers(0, 3)) if cs["defect"][:5] == "param" or rng.random() < 0.3 else 0)
        if not rq.applies:
            continue
        ds, e = rq.build()
        ev = [e]
        cx.count("accepted" if e["ok"] else "refused")
        if e["ok"] and ds is not None and cs["defect"] in ("none", "reordered", "transposed"):
            ev += accessors(rng, rq, ds) + [dict(ev="end", kept=rq.kept())]
        traces.append(dict(name="%s-%s-%s-%s" % (cs["mode"], "".join(cs["order"]), "x".join(map(str, cs["sizes"])), cs["defect"]), events=ev))
    # larger and lopsided grids, and polynomial fields whose derivatives are known
    for k in range(60 if cx.thorough else 16):
        order = [["x", "t"], ["t", "x"]][k % 2]
        sizes = [int(rng.integers(2, 9)) for _ in order]
        cs = dict(mode="legacy" if k % 3 == 0 and order == ["x", "t"] else "nd", order=order, sizes=sizes, lhs="t", defect="none")
        poly = [int(v) for v in rng.integers(-4, 5, size=4)]
        rq = Request(rng, cs, poly=poly)
        ds, e = rq.build()
        traces.append(dict(name="poly%d" % k, events=[e] + accessors(rng, rq, ds) + derivatives(rng, rq, ds) + [dict(ev="end", kept=rq.kept())]))
    for order in (["y", "t"], ["x", "y", "t"]):
        rq = Request(rng, dict(mode="nd", order=order, sizes=[3] * len(order), lhs="t", defect="none"))
        ds, e = rq.build()
        rq.poly = [0, 0, 0, 0]
        traces.append(dict(name="noxt-" + "".join(order), events=[e] + derivatives(rng, rq, ds)))

    def val(tr):
        cx.validate("DatasetTrace", tr, key=lambda t, j: "%s:%s" % (t["name"].split("-")[-1], t["events"][j]["ev"]), what="dataset construction and accessors")
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(val, [traces[i::4] for i in range(4)]))
    cx.assumptions.append("coordinates are distinct and ascending; numbers are exactly representable integers so that equality is exact")

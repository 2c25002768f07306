"""C26: operators match the current data set's dimension and the derivative engine."""
import numpy as np
from h_discover import quiet
import h_reuse as H
from c_c06 import MC, PLAIN, SPR, histories

LEVEL = "model_checking"
DIM = {1: 1, 2: 1, 3: 2, 4: 3, 5: 2, 6: 1}
PARAMS = {5: ["visc", "kap"]}


def base_of(kind):
    """the operators the configuration names: read from the package's own configuration file, or the caller's"""
    import commentjson, os, kd.model.discover.config as C
    cls, kw = H.KINDS[kind]
    c = (kw.get("config_out") or {}).get("task", {}).get("function_set")
    if c:
        return list(c)
    f = "config_pde_pinn.json" if cls.endswith("SPR") else "config_pde.json"
    return list(commentjson.load(open(os.path.join(os.path.dirname(C.__file__), f), encoding="utf-8"))["task"]["function_set"])


def run(cx):
    import torch
    import kd.model.kd_discover as K
    from kd.model.discover.program import Program
    torch.set_num_threads(1)
    cx.model_check("ReuseMC", MC % (8, "FALSE", '"import", "setup"', "VIEW View"))
    rng = np.random.default_rng(cx.seed)
    h3 = histories(cx, 3, ["import", "setup"])
    cx.note("histories_available", len(h3))
    kinds_all = dict(H.KINDS)
    # user operator lists and configured sets drawn over the whole operator table
    ALG, DIF = ["add", "sub", "mul", "div", "n2", "n3", "n4", "sin", "cos", "exp", "log", "sqrt"], ["diff", "diff2", "diff3", "diff4", "Diff", "Diff2", "lap", "Diff_3", "Diff2_3", "lap_3"]
    for k in range(40 if cx.thorough else 12):
        b = ["add", "mul"] + [str(x) for x in rng.permutation(["sub", "div"])[:rng.integers(0, 3)]]
        u = [str(x) for x in rng.permutation(ALG[4:])[:rng.integers(1, 5)]]
        kinds_all["u%d" % k] = ("KD_Discover", dict(binary_operators=b, unary_operators=u))
        s = [str(x) for x in rng.permutation(b + u + [str(y) for y in rng.permutation(DIF)[:rng.integers(1, 5)]])]
        kinds_all["c%d" % k] = ("KD_Discover", dict(config_out={"task": {"function_set": s}, "prior": H.OFF}))
        t = [x + "_t" for x in ["add", "mul", "div", "sub", "n2", "n3"] if rng.random() < 0.7] + ["diff_t"] + (["diff4_t"] if rng.random() < 0.4 else [])
        kinds_all["s%d" % k] = ("KD_Discover_SPR", dict(config_out={"task": {"function_set": [str(x) for x in rng.permutation(["add_t"] + [y for y in t if y != "add_t"])]}}))
    H.KINDS.update(kinds_all)
    names = sorted(kinds_all)
    traces = []
    for n in range(len(h3) if cx.thorough else 200):
        h = h3[n % len(h3)] if cx.thorough else h3[int(rng.integers(0, len(h3)))]
        kinds = {1: str(rng.choice(names)), 2: str(rng.choice(names))}
        mapd = {1: 1, 2: 2, 3: [3, 5][int(rng.integers(0, 2))], 4: 4}
        ev = [dict(ev="begin")]
        objs = {}
        for m, k in kinds.items():
            cls, kw = H.KINDS[k]
            objs[m] = H.make(k)[0]
            ev.append(dict(ev="new", m=m, kind=k, ops=list(kw.get("binary_operators", [])) + list(kw.get("unary_operators", [])), base=base_of(k)))
        for a, m, d in h:
            d = mapd[d]
            spr = H.KINDS[kinds[m]][0].endswith("SPR")
            mod = objs[m]
            e = dict(ev=a, m=m, dim=DIM[d], params=PARAMS.get(d, []), torch=spr)
            try:
                with quiet():
                    if a == "import":
                        mod.import_dataset(H.data(d), **(dict(sample=15, colloc_num=20) if spr else {}))
                    else:
                        mod.setup()
                lib = Program.library
                e.update(functions=list(mod.config_task["function_set"]), vocabulary=[t.name for t in lib.tokens], slots=int(lib.L),
                         pinn=dict(inputs=int(mod.denoise_pinn.nn.input_layer.in_features), gen=mod.config_pinn["generation_type"]) if spr else dict(inputs=0, gen=""))
            except Exception as ex:
                e.update(functions=["raised %s: %s" % (type(ex).__name__, ex)], vocabulary=[], slots=0, pinn=dict(inputs=0, gen=""))
            ev.append(e)
        traces.append(dict(name="%d:%s:%s" % (n, kinds, h), events=ev))
    cx.validate("OperatorTrace", traces, key=lambda t, j: "%s:dim%s:%s" % (t["events"][j]["ev"], t["events"][j].get("dim"), "torch" if t["events"][j].get("torch") else "numpy"),
                what="operators after an import")

"""C03: candidate identity and caching."""
import numpy as np
from h_discover import quiet
from h_sampler import make_lib
from c_c05 import StubTask

LEVEL = "model_checking"
MC = """CONSTANTS MaxSteps = %d MaxLen = %d Emit = %s
SPECIFICATION Spec
INVARIANTS Complete_ CacheRight NoSharing
CHECK_DEADLOCK FALSE
%s
"""


class Rewards(StubTask):
    """every evaluation yields a new number, so a lost evaluation shows"""
    def reward_function(self, p):
        self.calls.append(1)
        p.invalid, p.cached_terms, p.error_node, p.error_type = False, None, None, None
        return float(len(self.calls)), [float(len(self.calls))] * len(p.STRidge.terms), None, None


class Drive:
    def __init__(self, lib, stoch=False):
        from kd.model.discover.program import Program
        self.P = Program
        self.lib, self.objs, self.done = lib, [], set()
        t = Rewards(lib)
        t.stochastic = stoch
        Program.clear_cache()
        Program.set_task(t)
        Program.n_objects, Program.have_cython, Program.default_terms = 1, False, []
        names = [x.name for x in lib.tokens]
        self.const = names.index("const") + 1 if "const" in names else 0
        self.ev = [dict(ev="new", ar=[int(x.arity) for x in lib.tokens], fill=[i + 1 for i, x in enumerate(lib.tokens) if x.input_var is not None],
                        const=self.const, names=names, stoch=stoch)]

    def num(self, p):
        for k, o in enumerate(self.objs):
            if o is p:
                return k + 1
        self.objs.append(p)
        return len(self.objs)

    def view(self):
        out = []
        for k, p in enumerate(self.objs):
            toks = [int(t) + 1 for t in p.tokens]
            cs = [("NONE" if p.traversal[i].value is None else self.real(p.traversal[i].value)) for i in p.const_pos]
            out.append(dict(toks=toks, names=[t.name for t in p.traversal], consts=cs, on=int(p.on_policy_count), off=int(p.off_policy_count),
                            r=self.r(p) if k in self.done else "none", str=[int(t) + 1 for t in np.frombuffer(p.str, dtype=np.asarray(p.tokens).dtype)],
                            terms=[[t.name for t in term] for term in p.STRidge.terms_token]))
        return out

    @staticmethod
    def real(v): return "%g" % float(np.asarray(v).reshape(-1)[0])

    def r(self, p): return "%g/%s" % (float(p.r_ridge), ",".join("%g" % x for x in p.w))

    def build(self, seq, skip=False, on=True, via="tokens", vals=(), dtype=np.int32):
        from kd.model.discover.program import from_tokens, from_str_tokens
        names = [x.name for x in self.lib.tokens]
        if via == "str":
            it = iter(vals)
            s = [("%r" % next(it) if i == self.const and vals else names[i - 1]) for i in seq]
            p = from_str_tokens(",".join(s) if len(self.ev) % 2 else s, skip_cache=skip)
            on = True
        else:
            p = from_tokens(np.array([i - 1 for i in seq], dtype=dtype), skip_cache=skip, on_policy=on)
        n = self.num(p)
        self.ev.append(dict(ev="build", seq=list(seq), skip=skip, on=on, vals=["%g" % v for v in vals], obj=n,
                            toks=[int(t) + 1 for t in p.tokens], view=self.view()))
        return n

    def eval(self, n):
        p = self.objs[n - 1]
        with quiet():
            r = self.r(p)
        self.done.add(n - 1)
        self.ev.append(dict(ev="eval", obj=n, r=r, view=self.view()))

    def setc(self, n, vals):
        self.objs[n - 1].set_constants(list(vals))
        self.ev.append(dict(ev="setc", obj=n, vals=["%g" % v for v in vals], view=self.view()))

    def clear(self):
        self.P.clear_cache()
        self.ev.append(dict(ev="clear", view=self.view()))


def run(cx):
    cx.model_check("ProgramCacheMC", MC % (3, 3, "FALSE", "VIEW ViewV"))
    if cx.thorough:
        cx.model_check("ProgramCacheMC", MC % (4, 2, "FALSE", "VIEW ViewV"))
    rng = np.random.default_rng(cx.seed)
    np.random.seed(cx.seed)
    traces = []
    hist = cx.generate("ProgramCacheMC", MC % (3, 2, "TRUE", ""))
    lib0 = make_lib(["n2", "add"])       # x1 u1 n2 add
    mp = {1: 2, 2: 1, 3: 3, 4: 4}         # the design's u x n2 add
    pick = hist if cx.thorough else [hist[i] for i in rng.permutation(len(hist))[:1500]]
    for k, h in enumerate(pick):
        d = Drive(lib0)
        for o in h:
            if o["op"] == "build":
                d.build([mp[i] for i in o["seq"]], skip=o["skip"])
            elif o["op"] == "eval":
                d.eval(o["obj"])
            else:
                d.clear()
        traces.append(dict(name="spec-%d" % k, events=d.ev))
    cx.count("replayed_spec_histories", len(traces))
    libs = [("plain", make_lib(["add", "mul", "n2", "n3", "sub"])), ("two-inputs", make_lib(["add", "div", "n2", "Diff"], n_input=2, n_state=2)),
            ("const", make_lib(["add", "mul", "n2"], const=True)), ("params", make_lib(["add", "mul", "diff", "diff2"], n_param=2))]
    for k in range(160 if cx.thorough else 48):
        nm, lib = libs[k % len(libs)]
        d = Drive(lib, stoch=(k % 12 == 11))
        ar = [t.arity for t in lib.tokens]
        pool = [[int(x) + 1 for x in rng.integers(0, len(ar), int(rng.integers(1, 9)))] for _ in range(5)]
        term = [i + 1 for i, a in enumerate(ar) if a == 0]
        for _ in range(int(rng.integers(8, 22))):
            op = rng.random()
            if op < 0.6 or not d.objs:
                s = list(pool[int(rng.integers(0, len(pool)))])
                u = rng.random()
                if u < 0.4:  # surplus
                    s = s + [int(x) + 1 for x in rng.integers(0, len(ar), int(rng.integers(1, 5)))]
                elif u < 0.7:  # complete
                    need = 1
                    for i in s: need += ar[i - 1] - 1
                    s = s + [int(rng.choice(term)) for _ in range(max(0, need))]
                elif u < 0.8 and d.objs:  # what the search does with a remembered candidate
                    s = [int(t) + 1 for t in d.objs[int(rng.integers(0, len(d.objs)))].tokens]
                via = "str" if rng.random() < 0.3 else "tokens"
                vals = ()
                need, seen = 1, []
                for i in s:
                    seen.append(i); need += ar[i - 1] - 1
                    if need == 0: break
                if via == "str" and d.const and need == 0 and d.const in seen:
                    if rng.random() < 0.7:
                        s = seen
                        vals = [float(rng.integers(1, 9)) + 0.5 for i in s if i == d.const]
                if d.const and need > 0:
                    continue
                d.build(s, skip=bool(rng.random() < 0.15), on=bool(rng.random() < 0.8), via=via, vals=vals)
            elif op < 0.85:
                n = int(rng.integers(1, len(d.objs) + 1))
                if not d.objs[n - 1].const_pos:
                    d.eval(n)
            elif op < 0.95:
                n = int(rng.integers(1, len(d.objs) + 1))
                if d.objs[n - 1].const_pos:
                    d.setc(n, [float(rng.integers(1, 99)) for _ in d.objs[n - 1].const_pos])
            else:
                d.clear()
        traces.append(dict(name="random-%s-%d" % (nm, k), events=d.ev))
    cx.validate("ProgramCacheTrace", traces, key=lambda t, j: "%s:%s" % (t["events"][j]["ev"], t["name"].rsplit("-", 1)[0]), what="candidate identity")

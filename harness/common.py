"""Shared machinery: scratch dirs, running TLC, batch trace validation, evidence, verdicts.

A check is  harness/c_XX.py  exposing  run(cx).  It drives the real code of /repo, hands what it
observed to TLC together with a module of /verif/specs, and every verdict comes from TLC's answer.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time, traceback, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KD_REPO", "/repo")
SPECS = os.path.join(VERIF, "specs")
JAR = "/opt/veriftools/tla/tla2tools.jar"


def _find_cp():
    cps = [JAR]
    d = os.path.dirname(JAR)
    for r, _, fs in os.walk(d):
        for f in fs:
            if f.endswith(".jar") and os.path.join(r, f) != JAR:
                cps.append(os.path.join(r, f))
    return ":".join(cps)


class CheckError(Exception):
    """The check itself could not decide (exit 2)."""


class Cx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="kdv_%s_" % prop)
        self.violations = []      # (key, message, replay payload)
        self.known = load_known(prop)
        self.known_hit = {}
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.extra = {}
        self.assumptions = []
        self.log = []

    # ---- bookkeeping
    def path(self, *a):
        return os.path.join(self.scratch, *a)

    def sample(self, x):
        if len(self.cov["samples"]) < 6:
            self.cov["samples"].append(x)

    def note(self, k, v):
        self.extra[k] = v

    def count(self, k, n=1):
        self.extra[k] = self.extra.get(k, 0) + n

    def violation(self, key, msg, payload):
        """key identifies the failing input/site/history (matched against the known findings)."""
        for k in self.known:
            if re.fullmatch(k["match"], key):
                self.known_hit.setdefault(k["match"], (k, 0))
                kk, n = self.known_hit[k["match"]]
                self.known_hit[k["match"]] = (kk, n + 1)
                return
        self.violations.append((key, msg, payload))

    # ---- TLC
    def tlc(self, module, cfg, files=None, env=None, workers=4, extra=None, timeout=600, heap="3g", keep=None):
        """Run TLC on specs/<module>.tla with the given cfg text; returns a dict."""
        d = tempfile.mkdtemp(prefix="tlc_", dir=self.scratch)
        for f in os.listdir(SPECS):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPECS, f), d)
        for n, t in (files or {}).items():
            with open(os.path.join(d, n), "w") as fh:
                fh.write(t)
        with open(os.path.join(d, "MC.cfg"), "w") as fh:
            fh.write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        e.pop("JAVA_TOOL_OPTIONS", None)
        cmd = ["java", "-Xmx" + heap, "-Xss48m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-Dtlc2.tool.queue.IStateQueue=StateDeque" if False else "-Dx=y",
               "-Djava.io.tmpdir=" + d, "-cp", _find_cp(), "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "meta"),
               "-noGenerateSpecTE", "-config", "MC.cfg"] + (extra or []) + [module + ".tla"]
        try:
            r = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
            out, rc = r.stdout, r.returncode
        except subprocess.TimeoutExpired as ex:
            raise CheckError("TLC timed out on %s" % module)
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states", out)
        gen, dist = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
        ok = "Model checking completed. No error has been found." in out
        res = {"out": out, "rc": rc, "generated": gen, "distinct": dist, "ok": ok, "dir": d}
        if not keep:
            shutil.rmtree(d, ignore_errors=True)
        return res

    def model_check(self, module, cfg, **kw):
        """Design-level model checking: the spec's own invariants/properties. Independent of /repo,
        so a failure is an error of the machinery, never a VIOLATION."""
        r = self.tlc(module, cfg, **kw)
        if not r["ok"]:
            raise CheckError("design check of %s failed:\n%s" % (module, r["out"][-3000:]))
        self.cov["states"] += r["distinct"]
        self.cov["transitions"] += r["generated"]
        self.count("design_states", r["distinct"])
        return r

    def generate(self, module, cfg, **kw):
        """Run TLC and collect every record the spec prints with PrintT(<<"CASE", ToJson(..)>>)."""
        kw.setdefault("workers", 1)
        r = self.model_check(module, cfg, **kw)
        cases = []
        for line in r["out"].splitlines():
            if line.startswith('"@@CASE '):
                cases.append(parse_tla_string(line))
        if not cases:
            raise CheckError("spec %s generated no cases\n%s" % (module, r["out"][-2000:]))
        self.count("spec_generated_cases", len(cases))
        return cases

    def validate(self, module, traces, cfg_extra="", key=None, what="", workers=1, init_next=True, env=None, timeout=800, heap="4g"):
        """Batch-validate recorded traces against <module>, which must extend TraceBase.
        traces: list of dict(name=..., events=[{...}, ...]).  Every event is one line; 'nxt' is the line on
        which the next trace begins.  Rejections are printed by the spec and collected here."""
        lines, starts = [], []
        n = 1
        for t in traces:
            starts.append(n)
            n += len(t["events"])
        starts.append(n)
        for k, t in enumerate(traces):
            for j, ev in enumerate(t["events"]):
                e = dict(ev)
                e["first"] = (j == 0)
                e["nxt"] = starts[k + 1]
                lines.append(json.dumps(clean(e)))
        if not lines:
            raise CheckError("no events to validate for " + module)
        cfg = "SPECIFICATION TraceSpec\nPOSTCONDITION TraceDone\nCHECK_DEADLOCK FALSE\n" + cfg_extra
        r = self.tlc(module, cfg, files={"trace.ndjson": "\n".join(lines) + "\n"}, env=env, workers=workers, timeout=timeout, heap=heap)
        if not r["ok"]:
            raise CheckError("trace validation run of %s did not finish:\n%s" % (module, (r["out"][r["out"].find("Error:"):][:2500] if "Error:" in r["out"] else r["out"][-2500:])))
        dets = dict((int(a), b) for a, b in re.findall(r'@@REJECT (\d+) (.*)', r["out"]))
        rej = list(dets)
        for _, k_, n_ in set(re.findall(r'@@INFO (\d+) (\w+) (\d+)', r["out"])):
            self.count(k_, int(n_))
        self.cov["states"] += r["distinct"]
        self.cov["transitions"] += r["generated"]
        self.cov["traces_validated_against_impl"] += len(traces)
        self.count("trace_events", len(lines))
        bad = []
        for i in sorted(set(rej)):
            k = max(x for x in range(len(traces)) if starts[x] <= i)
            t = traces[k]
            j = i - starts[k]
            kk = (key(t, j) if key else t["name"])
            bad.append((k, j))
            self.violation(kk, "%s: event %d of trace '%s' is not a step of %s: %s %s" % (what, j + 1, t["name"], module, json.dumps(clean(t["events"][j]))[:1500], dets.get(i, "")),
                           {"module": module, "cfg_extra": cfg_extra, "trace": {"name": t["name"], "events": t["events"][:j + 1]}})
        if traces:
            t = traces[0]
            self.sample({"trace": t["name"], "events": clean(t["events"][:4])})
        return bad


def clean(x):
    """JSON-able, and only what TLC's Json module reads back: no None, no floats, ints in 32 bits."""
    import numpy as np
    if isinstance(x, dict):
        return {str(k): clean(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [clean(v) for v in x]
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        v = int(x)
        if not -2**31 < v < 2**31:
            return "BIG:%d" % v
        return v
    if isinstance(x, (float, np.floating)):
        v = float(x)
        if v == int(v) if v == v and abs(v) < 2**30 else False:
            return int(v)
        return "F:%r" % v
    if x is None:
        return "NONE"
    return str(x)


def parse_tla_string(line):
    s = line.strip()[1:-1][len("@@CASE "):]
    try:
        return json.loads(s)
    except ValueError:
        return json.loads(s.replace('\\"', '"').replace("\\\\", "\\"))


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.txt")
    res = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                if d.get("property") == prop and d.get("status") == "known":
                    res.append(d)
    return res


def ranks(values):
    """order-preserving integer ranks of floats (nan -> -1)"""
    import math
    u = sorted({v for v in values if not math.isnan(v)})
    ix = {v: i for i, v in enumerate(u)}
    return [(-1 if math.isnan(v) else ix[v]) for v in values]


def main():
    import importlib
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.path.insert(0, REPO)
    cx = Cx(prop, tier, seed)
    here = os.getcwd()
    os.chdir(cx.scratch)
    try:
        import triton._C.libtriton  # noqa: must be loaded before tensorflow in this environment
    except Exception:
        pass
    code = 2
    try:
        import random
        import numpy as np
        random.seed(seed)
        np.random.seed(seed)
        try:
            import torch
            torch.manual_seed(seed)
        except Exception:
            pass
        mod = importlib.import_module("c_%s" % prop.lower())
        level = getattr(mod, "LEVEL", "model_checking")
        err = None
        try:
            mod.run(cx)
        except CheckError as ex:
            err = str(ex)
        except Exception as ex:
            err = traceback.format_exc()
            fr = traceback.extract_tb(ex.__traceback__)
            last = max([i for i, f in enumerate(fr) if f.filename.startswith(VERIF)] or [-1])
            inner = [f for f in fr[last + 1:] if f.filename.startswith(os.path.join(REPO, "kd"))]
            if inner:
                # the driven code raised where no behaviour of the specification allows an exception
                f = inner[-1]
                cx.violation("exception:%s:%s" % (os.path.relpath(f.filename, REPO), type(ex).__name__),
                             "the driven code raised, no step of the specification: %s: %s (in %s)" % (type(ex).__name__, str(ex)[:500], f.name),
                             {"traceback": err[-4000:]})
        os.chdir(here)
        cov = dict(cx.cov)
        cov.update(cx.extra)
        if level in ("exploration", "fault_enumeration"):
            cov.setdefault("evaluations", cov["traces_validated_against_impl"])
        ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
              "assumptions": cx.assumptions, "wall_s": round(time.time() - cx.t0, 1), "violations": len(cx.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(clean_ev(ev), f, indent=1)
        for k in cx.known:
            if k["match"] in cx.known_hit:
                print("KNOWN-FINDING: property=%s %s (%d cases)" % (prop, k["what"], cx.known_hit[k["match"]][1]))
        if cx.violations:
            d = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            for n, (key, msg, payload) in enumerate(cx.violations[:10]):
                rp = os.path.join(d, "%s_%d.json" % (prop, n))
                with open(rp, "w") as f:
                    json.dump({"property": prop, "key": key, "message": msg, "payload": clean(payload)}, f, indent=1)
                print("  %s" % msg[:1200])
                print("  key: %s" % key)
                print("VIOLATION property=%s replay=%s" % (prop, rp))
            if err:
                print("(the check also ended early: %s)" % err.strip().splitlines()[-1])
            code = 1
        elif err:
            print("CHECK ERROR (%s): %s" % (prop, err))
            code = 2
        else:
            print("OK property=%s tier=%s states=%d transitions=%d traces=%d wall=%.1fs" % (
                prop, tier, cov["states"], cov["transitions"], cov["traces_validated_against_impl"], ev["wall_s"]))
            code = 0
    finally:
        os.chdir(here)
        shutil.rmtree(cx.scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)


def clean_ev(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): clean_ev(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [clean_ev(v) for v in x]
    if isinstance(x, np.generic):
        return x.item()
    return x


if __name__ == "__main__":
    main()

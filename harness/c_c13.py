"""C13: cloud jobs are submitted once, as described, and their true outcome is reported."""
import contextlib, importlib, json, os, shutil, sys, tempfile, types
import numpy as np
from concurrent.futures import ThreadPoolExecutor

LEVEL = "model_checking"
MC = 'CONSTANTS Jobs = {1, 2} Dirs = {"own", "shared"} Depth = %d Emit = %s\nSPECIFICATION Spec\nINVARIANTS Honest Apart Told\nPROPERTY Forward\nCHECK_DEADLOCK FALSE\n'
SUB = "SPECIFICATION Spec\nINVARIANTS Once Told\nCHECK_DEADLOCK FALSE\n"


class Cloud:
    """a stand-in for the service's client library"""
    def __init__(self):
        self.sent, self.asked, self.next = [], [], 100
        self.projects, self.fault, self.codes, self.remote = [], "none", {}, {}
        self.picture = None

    def module(cloud):
        m = types.ModuleType("bohrium_open_sdk")

        class UploadInputItem:
            def __init__(self, input_field=None, src=None, **k):
                self.input_field, self.src = input_field, src

        class OpenSDK:
            def __init__(self, access_key=None, app_key=None, **k):
                self.key = (access_key, app_key)
                self.user = types.SimpleNamespace(list_project=self.list_project)
                self.app = types.SimpleNamespace(job=types.SimpleNamespace(submit=self.submit, detail=self.detail))
                self.web = types.SimpleNamespace(sub_model=types.SimpleNamespace(download=self.download))

            def list_project(self, *a, **k):
                if cloud.fault == "list":
                    raise ConnectionError("no answer")
                return {"data": {"items": [{"project_id": p, "name": "p%d" % p} for p in cloud.projects]}} if cloud.projects else [{"data": {"items": []}}, {"data": {}}, {}][cloud.next % 3]

            def submit(self, app_key=None, sub_model_name=None, project_id=None, inputs=None, upload_files=None, **k):
                ups = []
                for u in upload_files or []:
                    try:
                        with open(u.src, "rb") as f:
                            raw = f.read()
                    except OSError:
                        raw = b"not there"
                    try:
                        c = json.dumps(json.loads(raw.decode()), sort_keys=True)
                    except (ValueError, UnicodeDecodeError):
                        c = raw.decode("latin1")
                    ups.append(dict(field=str(u.input_field), content=c))
                cloud.next += 1
                cloud.sent.append(dict(app=str(app_key), sub_model=str(sub_model_name), project=int(project_id or 0), inputs=sorted(inputs or {}), uploads=ups, job=cloud.next, key=str(self.key[0]), client=str(self.key[1])))
                if cloud.fault == "submit":
                    raise ConnectionError("lost")
                return {"data": {"jobId": cloud.next}}

            def detail(self, job_id, *a, **k):
                cloud.asked.append(int(job_id))
                return {"data": {"status": cloud.codes[job_id], "spendTime": "5s"}}

            def download(self, job_id, remote_target=None, save_path=None, **k):
                cloud.asked.append(int(job_id))
                kind, content = cloud.remote[job_id]
                os.makedirs(save_path, exist_ok=True)
                if kind == "broken":
                    raise ConnectionError("interrupted")
                if cloud.picture is not False:
                    with open(os.path.join(save_path, "equation.png"), "wb") as f:
                        f.write(b"png%d" % job_id if cloud.picture is None else cloud.picture)
                if kind != "absent":
                    with open(os.path.join(save_path, "result.json"), "w") as f:
                        f.write('{"status": "succ' if kind == "garbled" else json.dumps(content))
        m.OpenSDK, m.UploadInputItem = OpenSDK, UploadInputItem
        return m


@contextlib.contextmanager
def service(cloud, tmp, **env):
    old_env = {k: os.environ.get(k) for k in ("KD_GPU_APP_KEY", "KD_GPU_SUB_MODEL", "KD_GPU_PROJECT_ID", "KD_JOB_OUTPUT_DIR", "TMPDIR")}
    old, old_tmp = sys.modules.get("bohrium_open_sdk"), tempfile.tempdir
    sys.modules["bohrium_open_sdk"] = cloud.module()
    os.makedirs(tmp, exist_ok=True)
    for k in old_env:
        os.environ.pop(k, None)
    os.environ.update(env, TMPDIR=tmp)
    tempfile.tempdir = tmp
    try:
        import kd.job as J
        yield importlib.reload(J)
    finally:
        tempfile.tempdir = old_tmp
        sys.modules.pop("bohrium_open_sdk", None)
        if old is not None:
            sys.modules["bohrium_open_sdk"] = old
        for k, v in old_env.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v


def request(login, key="AK", client="cl"):
    c = "a=b; appAccessKey=%s; clientName=%s" % (key, client) if login else ["", "other=1", "appAccessKey=zz"][len(key) % 3]
    return types.SimpleNamespace(headers={"cookie": c})


def submissions(cx, rng, cases, d):
    ev = []
    data = os.path.join(d, "mine.npy")
    with open(data, "w") as f:
        f.write("the data")
    for i, s in enumerate(cases):
        cloud = Cloud()
        cloud.next = 100 + int(rng.integers(1000))
        cloud.projects, cloud.fault = list(s["projects"]), s["fault"]
        tmp = os.path.join(d, "tmp")
        app, sub, key, client = "app%d" % i, "sm%d" % i, "AK" + "x" * (i % 3), "client%d" % (i % 4)
        env = dict(KD_GPU_APP_KEY=app, KD_GPU_SUB_MODEL=sub)
        if s["env"]:
            env["KD_GPU_PROJECT_ID"] = str(s["env"])
        model = ["dlga", "dscv_spr"][i % 2]
        params = {"epi": float(rng.random()), "operators": "u,u_x", "sample": None, "名": "ü"} if i % 3 else {}
        if s["fault"] == "serialise":
            params = {"bad": object()}
        name = ["burgers", "kdv"][i % 2] if s["ds"] else [None, ""][i % 2]
        with service(cloud, tmp, **env) as J:
            kw = dict(dataset_file=data if s["file"] == "there" else os.path.join(d, "nowhere.npy")) if s["file"] != "none" else {}
            if s["explicit"]:
                kw["project_id"] = s["explicit"]
            try:
                job = J.submit_gpu_job(model, name, params, request(s["login"], key, client), **kw)
                out = "submitted"
            except Exception as e:
                job, out = 0, "raised"
        left = len(os.listdir(tmp))
        shutil.rmtree(tmp, ignore_errors=True)
        config = dict(model=model, output_dir="output", params={} if s["fault"] == "serialise" else params)
        if name:
            config["dataset_name"] = name
        if s["file"] == "there":
            config["dataset_file"] = "mine.npy"
        ev.append(dict(ev="submit", sub=s, outcome=out, job=int(job), sent=cloud.sent, leftovers=left, app=app, sub_model=sub, key=key, client=client, config=json.dumps(config, sort_keys=True), data="the data"))
    cx.count("submissions", len(ev))
    return ev


def checks(cx, rng, d):
    ev = []
    for i, code in enumerate(list(range(14)) + [-1, 14, 20, 99, 110]):
        cloud = Cloud()
        job = 500 + i
        cloud.codes = {job: code}
        with service(cloud, os.path.join(d, "tmp")) as J:
            r = J.check_job(job, request(True))
        ev.append(dict(ev="check", job=job, asked=cloud.asked[-1] if cloud.asked else 0, given=code, code=r["status_code"], finished=r["finished"], failed=r["failed"]))
    return ev


def fetch(cx, rng, hist, d, k):
    """downloads one after another, some into the same folder"""
    shutil.rmtree(os.path.join(d, "dl"), ignore_errors=True)
    cloud = Cloud()
    ev = []
    with service(cloud, os.path.join(d, "tmp"), KD_JOB_OUTPUT_DIR=os.path.join(d, "dl")) as J:
        for n, (j, kind, where) in enumerate(hist):
            content = dict(status="success" if kind == "success" else "error", equation="eq of job %d, %s" % (j, kind), elapsed_seconds=3.5, n=n)
            cloud.remote[j] = (kind, content)
            kw = dict(save_dir=os.path.join(d, "dl", "shared")) if where == "shared" else {}
            cloud.asked.clear()
            left, res, saved, copied = json.dumps(content, sort_keys=True), "", "", False
            try:
                r, saved = J.download_result(j, request(True), **kw)
                res = json.dumps(r, sort_keys=True)
                out = str(r.get("status"))
                copied = os.path.exists(os.path.join(saved, "equation.png")) and open(os.path.join(saved, "equation.png"), "rb").read() == b"png%d" % j
            except Exception:
                out = "raised"
            want = kw.get("save_dir") or saved
            ev.append(dict(ev="fetch", where=where, job=j, asked=cloud.asked[-1] if cloud.asked else 0, remote=kind, outcome=out, result=res, left=left, dir=want, saved=saved, copied=copied))
    cx.count("downloads", len(ev))
    return dict(name="fetch-%d" % k, events=ev)


def run(cx):
    rng = np.random.default_rng(cx.seed)
    d = os.path.join(str(cx.scratch), "job")
    os.makedirs(d, exist_ok=True)
    cx.model_check("JobMC", MC % (3 if cx.thorough else 2, "FALSE"))
    subs = cx.generate("JobSubmitMC", SUB)
    hists = cx.generate("JobMC", MC % (2, "TRUE"))
    seen = sorted({json.dumps(h) for h in hists})
    traces = [dict(name="submit-%d" % i, events=e) for i, e in enumerate(np.array_split(submissions(cx, rng, subs, d), 6))]
    traces = [dict(name=t["name"], events=list(t["events"])) for t in traces]
    traces.append(dict(name="check", events=checks(cx, rng, d)))
    kinds = ["success", "error", "absent", "garbled", "broken"]
    more = [[(int(rng.integers(1, 4)), kinds[int(rng.integers(5))], ["own", "shared"][int(rng.integers(2))]) for _ in range(6)] for _ in range(300 if cx.thorough else 60)]
    for k, h in enumerate([json.loads(s) for s in seen] + more):
        traces.append(fetch(cx, rng, h, d, k))
    key = lambda t, j: "%s:%s" % (t["name"].split("-")[0], t["events"][j].get("remote") or json.dumps(t["events"][j].get("sub", t["events"][j].get("given")), sort_keys=True))
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(lambda i: cx.validate("JobTrace", traces[i::4], key=key, what="job"), range(4)))

"""campaign.py OUT.jsonl SEED COUNT [FILE...]: mutants of /repo in scratch copies; which are killed by
the repository's tests, and which of the others by the checks (one shard, VERIF_SCALE=0.5)."""
import json, os, random, re, shutil, subprocess, sys, threading, queue, time
OUT, SEED, COUNT = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
FILES = sys.argv[4:]
ROOT = "/tmp/mut"
GOBIN = "/opt/veriftools/go1.27.3/bin"
os.makedirs(ROOT, exist_ok=True)
subprocess.run([GOBIN + "/go", "build", "-o", ROOT + "/mutbin", "main.go"], cwd="/verif/tools/mut", check=True,
               env=dict(os.environ, GOFLAGS="-mod=mod", GOTOOLCHAIN="local"))
BASE = ROOT + "/base"
subprocess.run(["rm", "-rf", BASE, ROOT + "/harness"]); subprocess.run(["cp", "-a", "/repo", BASE], check=True); subprocess.run(["cp", "-a", "/verif/harness", ROOT + "/harness"], check=True)
def pk(f):
    if f.startswith(("labels/", "tables/")): return ["psyn", "pfmt", "pbz"]
    if f in ("build/walk.go", "build/rule.go", "build/utils.go", "build/syntax.go"): return ["psyn", "pfmt", "pbz", "plint"]
    if f.startswith("build/"): return ["pfmt", "psyn", "pbz"]
    if f.startswith(("edit/", "buildozer/", "wspace/", "file/")): return ["pbz", "psyn"]
    if f.startswith(("warn/", "bzlenv/")): return ["plint", "pbf"]
    if f.startswith(("buildifier/", "differ/")): return ["pbf"]
    if f.startswith("convertast"): return ["pfmt"]
    if f.startswith("unused_deps"): return ["pud"]
    return ["pbz"]
stable = set(x if isinstance(x, str) else x.get("id") for x in json.load(open("/opt/vp/BASELINE.json"))["stable"])
env0 = dict(os.environ, HOME="/root", PATH=GOBIN + ":/opt/vp/bin:/usr/bin:/bin", GOTOOLCHAIN="local", GOPROXY="off",
            GOFLAGS="-mod=readonly", GOWORK="off", GOSUMDB="off", LANG="C.UTF-8", TZ="UTC", GOCACHE=ROOT + "/cache")
def listing(f):
    r = subprocess.run([ROOT + "/mutbin", BASE + "/" + f], capture_output=True, text=True)
    return [l.split("\t", 3) for l in r.stdout.splitlines()]
done = set()
if os.path.exists(OUT):
    for l in open(OUT):
        r = json.loads(l); done.add((r["file"], r["n"]))
pool = []
for f in FILES:
    for m in listing(f):
        if (f, int(m[0])) not in done:
            pool.append((f, int(m[0]), m[1], m[2], m[3]))
random.Random(SEED).shuffle(pool)
pool = pool[:COUNT]
q = queue.Queue()
for p in pool: q.put(p)
lock = threading.Lock()
def sh(cmd, cwd, e, t):
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try:
        o, _ = p.communicate(timeout=t)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate()
        return -9, "timeout"
def worker(k):
    W = "%s/w%d" % (ROOT, k)
    subprocess.run(["rm", "-rf", W]); os.makedirs(W)
    subprocess.run(["cp", "-a", BASE, W + "/repo"], check=True)
    subprocess.run(["cp", "-a", ROOT + "/harness", W + "/harness"], check=True)
    gm = W + "/harness/go.mod"; s = open(gm).read().replace("/repo", W + "/repo"); open(gm, "w").write(s)
    ts = open("/opt/vp/test.sh").read() + "\n"
    en = open("/opt/vp/env.sh").read().replace("/repo", W + "/repo")
    open(W + "/env.sh", "w").write(en)
    ts = ts.replace("/opt/vp/env.sh", W + "/env.sh").replace("/opt/vp/work", W + "/work").replace("cd /repo", "cd %s/repo" % W).replace('-P "$(nproc)"', "-P 2").replace("-timeout 10m", "-p 2 -timeout 1m")
    open(W + "/test.sh", "w").write(ts)
    while True:
        try: f, n, line, kind, txt = q.get_nowait()
        except queue.Empty: return
        res = {"file": f, "n": n, "line": int(line), "kind": kind, "text": txt}
        t0 = time.time()
        path = W + "/repo/" + f
        src = subprocess.run([ROOT + "/mutbin", BASE + "/" + f, str(n)], capture_output=True).stdout
        open(path, "wb").write(src)
        try:
            res["result"] = one(W, f, res)
        except Exception as ex:
            res["result"] = "error " + repr(ex)
        shutil.copy(BASE + "/" + f, path)
        res["t"] = round(time.time() - t0, 1)
        with lock:
            open(OUT, "a").write(json.dumps(res) + "\n")
def one(W, f, res):
    e = dict(env0)
    rc, o = sh(["go", "build", "./..."], W + "/repo", e, 120)
    if rc: return "nocompile"
    subprocess.run(["rm", "-f", W + "/o.json"])
    rc, o = sh(["bash", W + "/test.sh", W + "/o.json"], W, e, 150)
    try: passed = set(json.load(open(W + "/o.json"))["passed"])
    except Exception: return "tests"
    if stable - passed: return "tests"
    for pkg in pk(f):
        b = W + "/bin"; os.makedirs(b, exist_ok=True)
        tools = {"pfmt": ["buildifier", "buildozer"], "psyn": ["buildifier"], "pbz": ["buildozer", "buildifier"], "pbf": ["buildifier"], "plint": ["buildifier"], "pud": ["unused_deps"]}[pkg]
        for t in tools:
            rc, o = sh(["go", "build", "-o", b + "/" + t, "./" + t], W + "/repo", e, 120)
        exe = W + "/t.test"
        rc, o = sh(["go", "test", "-c", "-vet=off", "-o", exe, "./" + pkg], W + "/harness", e, 180)
        if rc: return "harness-build " + o[-300:]
        d = W + "/run"; subprocess.run(["chmod", "-R", "u+rwX", d], capture_output=True); subprocess.run(["rm", "-rf", d])
        for sub in ("cwd", "out", "scratch"): os.makedirs(d + "/" + sub)
        os.chmod(d, 0o755)
        e2 = dict(e, VERIF_OUT=d + "/out", VERIF_SCRATCH=d + "/scratch", VERIF_BIN=b, VERIF_TIER="quick", VERIF_SHARDS="8",
                  VERIF_SHARD="0", TMPDIR=d + "/scratch", VERIF_SEED="1", VERIF_SEED_EFF="1010", GOMAXPROCS="2", VERIF_SCALE="0.5")
        rc, o = sh([exe, "-test.failfast", "-test.v", "-rapid.seed=1010", "-rapid.shrinktime=1s", "-test.timeout", "0"], d + "/cwd", e2, 900)
        if rc:
            if rc == -9: return "check-timeout " + pkg
            m = re.findall(r"^\s*--- FAIL: (\S+)", o, re.M)
            if not m:
                m = re.findall(r"^=== RUN\s+(\S+)", o, re.M)[-1:]
            res["detail"] = o[-300:] if not m else ""
            return "killed " + (m[0] if m else "?")
    return "SURVIVED"
ths = [threading.Thread(target=worker, args=(k,)) for k in range(int(os.environ.get("WORKERS", "8")))]
for t in ths: t.start()
for t in ths: t.join()

#!/usr/bin/env python3
"""run.py ID            run the check of one property (VERIF_SEED, VERIF_TIER)
   run.py setup         compile everything once (offline)
   run.py replay FILE   re-run the shrunk failing case of a replay file

Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken.
Exit 2: the check itself could not run."""
import json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
REPO = "/repo"
NCPU = os.cpu_count() or 4

from checks_table import CHECKS  # noqa: E402


def env():
    e = dict(os.environ)
    e["HOME"] = "/root"
    e["PATH"] = "/opt/veriftools/go1.27.3/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly", GOWORK="off",
             GOSUMDB="off", LANG="C.UTF-8", TZ="UTC")
    for k in ("BUILDIFIER_CONFIG",):
        e.pop(k, None)
    return e


def die(msg):
    print("ERROR", msg)
    sys.exit(2)


def build(out, pkg, tools):
    e = env()
    os.makedirs(os.path.join(out, "bin"), exist_ok=True)
    for t in tools:
        r = subprocess.run(["go", "build", "-o", os.path.join(out, "bin", t), "./" + t],
                           cwd=REPO, env=e, capture_output=True, text=True)
        if r.returncode:
            die("building %s failed:\n%s" % (t, r.stdout + r.stderr))
    exe = os.path.join(out, "t.test")
    cmd = ["go", "test", "-c", "-vet=off", "-o", exe]
    if CHECK_RACE:
        cmd.append("-race")
    r = subprocess.run(cmd + ["./" + pkg], cwd=HARNESS, env=e, capture_output=True, text=True)
    if r.returncode:
        die("building harness %s failed:\n%s" % (pkg, r.stdout + r.stderr))
    return exe


CHECK_RACE = False


def known_file():
    known = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", line)
            if m:
                known[m.group(2)] = (m.group(1), m.group(3))
    return known


def run_check(pid):
    c = CHECKS.get(pid) or die("unknown property " + pid)
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
        tier = sys.argv[2]
    try:
        seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    except ValueError:
        seed = 1
    t0 = time.time()
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) and c.get("shm", True) else "/tmp"
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid, dir=base)
    os.chmod(tmp, 0o755)
    try:
        return run_in(pid, c, tier, seed, t0, tmp)
    finally:
        subprocess.run(["chmod", "-R", "u+rwX", tmp], capture_output=True)
        shutil.rmtree(tmp, ignore_errors=True)


def run_in(pid, c, tier, seed, t0, tmp):
    exe = build(tmp, c["pkg"], c.get("tools", []))
    shards = c.get("shards", NCPU)
    limit = 780 if tier == "quick" else 6 * 3600
    procs = []
    for s in range(shards):
        d = os.path.join(tmp, "s%d" % s)
        for sub in ("cwd", "out", "scratch"):
            os.makedirs(os.path.join(d, sub))
        e = env()
        e.update(VERIF_OUT=os.path.join(d, "out"), VERIF_SCRATCH=os.path.join(d, "scratch"),
                 VERIF_BIN=os.path.join(tmp, "bin"), VERIF_TIER=tier, VERIF_SHARDS=str(shards),
                 VERIF_SHARD=str(s), TMPDIR=os.path.join(d, "scratch"), VERIF_SEED=str(seed),
                 VERIF_SEED_EFF=str(seed * 1009 + s + 1),
                 GOMAXPROCS=str(c.get("gomaxprocs", 2)))
        log = open(os.path.join(d, "log"), "w")
        rs = (seed * 1009 + s + 1) & ((1 << 62) - 1) or 77
        cmd = [exe, "-test.run", "^Test%s_" % pid, "-test.timeout", "0", "-test.v",
               "-rapid.seed=%d" % rs, "-rapid.shrinktime=%s" % c.get("shrink", "25s")]
        procs.append((s, d, subprocess.Popen(cmd, cwd=os.path.join(d, "cwd"), env=e, stdout=log,
                                             stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                                             start_new_session=True)))
    timed_out = False
    first_fail = None
    while True:
        alive = [p for _, _, p in procs if p.poll() is None]
        if not alive:
            break
        failed = [x for x in procs if x[2].poll() not in (None, 0)]
        if failed and first_fail is None:
            first_fail = time.time()
        # a failing shard is enough; give the others a little time and stop
        if first_fail and time.time() - first_fail > 3:
            for p in alive:
                os.killpg(p.pid, signal.SIGKILL)
            break
        if time.time() - t0 > limit:
            timed_out = True
            for p in alive:
                os.killpg(p.pid, signal.SIGKILL)
            break
        time.sleep(0.05)
    for _, _, p in procs:
        p.wait()
    killed_late = first_fail is not None

    evals = 0
    hashes = set()
    labels, samples, rules, tests = {}, [], {}, {}
    failures, knowns, errors = [], {}, []
    for s, d, p in procs:
        log = open(os.path.join(d, "log"), errors="replace").read()
        reported = False
        for f in sorted(os.listdir(os.path.join(d, "out"))):
            path = os.path.join(d, "out", f)
            if f.endswith(".hashes"):
                b = open(path, "rb").read()
                hashes.update(struct.unpack("<%dQ" % (len(b) // 8), b))
                continue
            st = json.load(open(path))
            evals += st["evaluations"]
            t = tests.setdefault(st["test"], {"evaluations": 0})
            t["evaluations"] += st["evaluations"]
            for k, v in st["labels"].items():
                key = st["test"] + ":" + k
                labels[key] = labels.get(key, 0) + v
            for x in st.get("samples") or []:
                if s == 0 or len(samples) < 2:
                    samples.append({"test": st["test"], "case": x})
            if st.get("rule"):
                rules[st["test"]] = st["rule"]
            for k in st.get("known") or []:
                knowns[k["id"]] = k["detail"]
            if st["failed"]:
                reported = True
                ff = None
                td = os.path.join(d, "cwd", "testdata", "rapid")
                for root, _, files in os.walk(td):
                    for x in files:
                        if x.endswith(".fail") and st["test"].split("/")[0] in root + x:
                            ff = os.path.join(root, x)
                if "VERIF-ERROR" in log:
                    errors.append(log[-3000:])
                    continue
                failures.append((st, ff, s, log))
        rc = p.returncode
        if rc != 0 and not reported and not (killed_late and rc == -9) and not (timed_out and rc == -9):
            m = re.search(r"(fatal error: (?:stack overflow|all goroutines are asleep|concurrent map[^\n]*)|WARNING: DATA RACE|^panic: )", log, re.M)
            if m and "VERIF-ERROR" not in log:
                lp = os.path.join(d, "last")
                inp = open(lp, errors="replace").read() if os.path.exists(lp) else "(process died; see log)"
                failures.append(({"test": pid, "fail_input": inp, "fail_detail": log[log.index(m.group(1)):][:6000]}, None, s, log))
            else:
                errors.append("shard %d exit %s\n%s" % (s, rc, log[-3000:]))
        if rc == 0 and "PASS" in log and "no tests to run" in log:
            errors.append("no tests matched")
    known = known_file()
    out_violations = 0
    evdir = os.path.join(HERE, "evidence")
    rdir = os.path.join(evdir, "replay")
    os.makedirs(rdir, exist_ok=True)
    status = 0
    # prefer the smallest failing input per test
    best = {}
    for f in failures:
        k = f[0]["test"]
        if k not in best or len(f[0].get("fail_input") or "") < len(best[k][0].get("fail_input") or ""):
            best[k] = f
    for k, (st, ff, s, log) in sorted(best.items()):
        name = "%s-%s.json" % (pid, re.sub(r"\W+", "_", k))
        rp = os.path.join(rdir, name)
        rec = {"property": pid, "test": st["test"], "seed": seed, "shard": s, "tier": tier,
               "input": st.get("fail_input"), "detail": st.get("fail_detail")}
        if ff:
            rec["rapid_failfile"] = open(ff, errors="replace").read()
        json.dump(rec, open(rp, "w"), indent=1)
        print("FAILED %s: %s" % (st["test"], (st.get("fail_detail") or "")[:3000]))
        print("--- input ---\n%s\n---" % (st.get("fail_input") or "")[:3000])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        out_violations += 1
        status = 1
    for kid, detail in sorted(knowns.items()):
        if kid in known and known[kid][0] == pid:
            print("KNOWN-FINDING: property=%s %s: %s" % (pid, kid, known[kid][1]))
        else:
            rp = os.path.join(rdir, "%s-%s.json" % (pid, kid))
            json.dump({"property": pid, "test": kid, "detail": detail}, open(rp, "w"), indent=1)
            print("unlisted finding %s: %s" % (kid, detail))
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            out_violations += 1
            status = 1
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(hashes),
                       "rule": " | ".join("%s: %s" % kv for kv in sorted(rules.items())) or c.get("rule", ""),
                       "samples": samples[:8], "per_test": tests, "classes": labels,
                       "known_findings_reproduced": sorted(knowns)},
          "assumptions": c.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": out_violations}
    tmpf = os.path.join(evdir, pid + ".json.tmp")
    json.dump(ev, open(tmpf, "w"), indent=1)
    os.rename(tmpf, os.path.join(evdir, pid + ".json"))
    print("%s tier=%s seed=%d cases=%d distinct_nontrivial=%d wall=%.1fs violations=%d"
          % (pid, tier, seed, evals, len(hashes), time.time() - t0, out_violations))
    if status == 0 and timed_out:
        die("time limit reached (inconclusive)")
    if status == 0 and errors:
        die("\n".join(errors))
    if status == 0 and evals == 0:
        die("nothing was evaluated")
    return status


def replay(path):
    rec = json.load(open(path))
    pid = rec["property"]
    c = CHECKS[pid]
    tmp = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        exe = build(tmp, c["pkg"], c.get("tools", []))
        if "rapid_failfile" not in rec:
            print("input:\n%s\n\ndetail:\n%s" % (rec.get("input"), rec.get("detail")))
            return 0
        ff = os.path.join(tmp, "x.fail")
        open(ff, "w").write(rec["rapid_failfile"])
        e = env()
        os.makedirs(os.path.join(tmp, "scratch"))
        e.update(VERIF_BIN=os.path.join(tmp, "bin"), VERIF_SCRATCH=os.path.join(tmp, "scratch"), VERIF_TIER=rec["tier"], VERIF_REPLAY="1")
        return subprocess.run([exe, "-test.run", "^%s$" % rec["test"], "-rapid.failfile=" + ff, "-rapid.checks=0", "-test.v"],
                              cwd=tmp, env=e).returncode
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def setup():
    tmp = tempfile.mkdtemp(prefix="verif-setup-")
    try:
        for pkg in sorted({c["pkg"] for c in CHECKS.values()}):
            build(tmp, pkg, [])
        print("setup ok")
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    if len(sys.argv) < 2:
        die(__doc__)
    if sys.argv[1] == "setup":
        sys.exit(setup())
    if sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    sys.exit(run_check(sys.argv[1]))

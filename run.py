#!/usr/bin/env python3
"""Runs the check of one property.

usage: run.py <property> [--tier quick|thorough] [--replay FILE]

Builds the harness package of the property against /repo's working tree
(go test -overlay, nothing is written to /repo), runs the tests of that
property, writes evidence/<property>.json.

exit 0: held on everything explored
exit 1: violated, prints "VIOLATION property=<id> replay=<path>"
exit 2: the check itself failed (build error, timeout, vacuous run ...)
"""
import array, concurrent.futures, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
MODULE = "github.com/effective-security/xdb"
RAPID = "pgregory.net/rapid v1.3.0"
GRACE = 60  # seconds for the other processes of a check after one has found a violation

# property -> (harness package, race detector)
SUITES = json.load(open(os.path.join(VERIF, "harness", "suites.json")))


def env():
    e = dict(os.environ)
    e.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod",
             CGO_ENABLED="1", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
             GOCACHE=os.environ.get("GOCACHE", "/root/.cache/go-build"),
             GOSUMDB="off", GOWORK="off")
    e["PATH"] = "/usr/local/bin:/usr/local/go/bin:/usr/bin:/bin:/usr/sbin:/sbin:" + e.get("PATH", "")
    for k in list(e):
        if k.startswith("RAPID_"):
            del e[k]
    e.pop("XDB_DATASOURCE", None)
    return e


def fail_harness(msg):
    print("CHECK-ERROR: " + msg)
    sys.exit(2)


def overlay(scratch):
    """Maps every harness file into /repo/internal/verif/<pkg>/, and a go.mod with rapid."""
    repl = {}
    hdir = os.path.join(VERIF, "harness")
    for root, _, files in os.walk(hdir):
        rel = os.path.relpath(root, hdir)
        if rel == ".":
            continue
        for f in files:
            if f.endswith(".go"):
                repl[os.path.join(REPO, "internal", "verif", rel, f)] = os.path.join(root, f)
    of = os.path.join(scratch, "overlay.json")
    json.dump({"Replace": repl}, open(of, "w"))
    mod = open(os.path.join(REPO, "go.mod")).read()
    mod += "\nrequire %s\n" % RAPID
    open(os.path.join(scratch, "go.mod"), "w").write(mod)
    shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(scratch, "go.sum"))
    with open(os.path.join(scratch, "go.sum"), "a") as f:
        f.write(open(os.path.join(VERIF, "harness", "extra.sum")).read())
    return of, os.path.join(scratch, "go.mod")


def run(cmd, cwd, timeout, log, e, stop=None):
    """Runs cmd in its own process group, returns (exit code or None on timeout).
    When stop is set, the process has GRACE seconds left."""
    with open(log, "wb") as out:
        p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=out, stderr=subprocess.STDOUT,
                             stdin=subprocess.DEVNULL, start_new_session=True)
        try:
            end = time.time() + timeout
            while True:
                if stop is not None and stop.is_set():
                    end, stop = min(end, time.time() + GRACE), None
                left = end - time.time()
                try:
                    return p.wait(timeout=max(0.01, min(left, 1) if stop is not None else left))
                except subprocess.TimeoutExpired:
                    if time.time() >= end:
                        return None
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()


def known_findings():
    res = {}
    path = os.path.join(VERIF, "known_findings.txt")
    for line in open(path):
        m = re.match(r"known: id=(\S+) property=(\S+) (.*)", line.strip())
        if m:
            res[m.group(1)] = (m.group(2), m.group(3))
    return res


def main():
    args = sys.argv[1:]
    if not args:
        fail_harness(__doc__)
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    i = 1
    while i < len(args):
        if args[i] == "--tier":
            tier = args[i + 1]
        elif args[i] == "--replay":
            replay = json.load(open(args[i + 1]))
        i += 2
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    suite = SUITES[pid]
    t0 = time.time()

    scratch = tempfile.mkdtemp(prefix="xdbverif-%s-" % pid)
    try:
        code = check(pid, suite, tier, seed, replay, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)


def check(pid, suite, tier, seed, replay, scratch, t0):
    e = env()
    of, modfile = overlay(scratch)
    # the packages with tests of the property
    pkgs = [suite["pkg"]] + suite.get("also", [])
    if replay:
        pkgs = [replay.get("pkg", suite["pkg"])]
    for pkg in pkgs:
        binary = os.path.join(scratch, pkg + ".test")
        cmd = ["go", "test", "-c", "-vet=off", "-overlay", of, "-modfile", modfile, "-o", binary]
        if suite.get("race"):
            cmd.append("-race")
        cmd.append("./internal/verif/" + pkg)
        log = os.path.join(scratch, "build.log")
        rc = run(cmd, REPO, 600, log, e)
        if rc != 0 or not os.path.exists(binary):
            fail_harness("build of the harness failed (%s)\n%s" % (rc, open(log, errors="replace").read()[-6000:]))

    # independent processes, each with its own seed and directory
    shards = 1 if replay else suite.get("shards_" + tier, 4 if tier == "quick" else 8)
    scale = suite.get("scale_" + tier, 1)
    limit = suite.get("timeout_" + tier, 600 if tier == "quick" else 5400)
    testrun = "^Test%s(_.*)?$" % pid
    jobs = []
    # slow tests have processes of their own
    own = [] if replay else suite.get("own_process", []) * (1 if tier == "quick" else 3)
    for n, pkg, only in [(n, pkg, None) for pkg in pkgs for n in range(shards)] + [(90 + n, pkgs[0], o) for n, o in enumerate(own)]:
        # rapid takes 0 as "random", and consecutive seeds overlap: spread them
        rseed = int.from_bytes(hashlib.sha256(b"xdb-%d-%d" % (seed, n)).digest()[:8], "big") >> 1 | 1
        name = "%s%d" % (pkg, n)
        work = os.path.join(scratch, "work-" + name)
        os.mkdir(work)
        stats = os.path.join(scratch, "stats-%s.json" % name)
        en = dict(e, VH_OUT=stats, VH_TIER=tier, VH_SEED=str(seed * 100 + n), VH_PROPERTY=pid, VH_SCALE=str(1 if only else scale),
                  VH_OVERLAY=of, VH_MODFILE=modfile, VH_REPO=REPO,
                  GORACE="halt_on_error=0 exitcode=66 suppress_equal_stacks=0 suppress_equal_addresses=0",
                  GOTRACEBACK="all", TMPDIR=work)
        cmd = [os.path.join(scratch, pkg + ".test"), "-test.v", "-test.run", testrun, "-test.timeout", "0", "-test.count", "1",
               "-rapid.seed", str(rseed), "-rapid.shrinktime", suite.get("shrink", "5s")]
        if only:
            cmd[cmd.index(testrun)] = "^%s$" % only
        elif own:
            cmd += ["-test.skip", "^(%s)$" % "|".join(sorted(set(own)))]
        if replay:
            cmd[cmd.index(testrun)] = "^" + replay["test"].replace("/", "$/^") + "$"
            if replay.get("failfile"):
                ff = os.path.join(scratch, "replay.fail")
                open(ff, "w").write(replay["failfile"])
                cmd += ["-rapid.failfile", ff]
        jobs.append((cmd, work, limit, os.path.join(scratch, "run-%s.log" % name), en, stats, pkg))
    with concurrent.futures.ThreadPoolExecutor(len(jobs)) as ex:
        violated = threading.Event()

        def job(j):
            rc = run(*j[:5], violated)
            if rc:
                st = json.load(open(j[5])) if os.path.exists(j[5]) else {}
                if classify(rc, open(j[3], errors="replace").read(), st, [], replay)[0] == 1:
                    # the verdict is known, the others need not finish
                    violated.set()
            return rc

        rcs = list(ex.map(job, jobs))

    kf = known_findings()
    results, printed = [], set()
    ps, allkeys = {}, {}
    for (cmd, work, _, log, _, stats, pkg), rc in zip(jobs, rcs):
        out = open(log, errors="replace").read()
        st = {"props": {}}
        if os.path.exists(stats):
            st = json.load(open(stats))
        unlisted = []
        for k in st.get("known") or []:
            if k["id"] in kf and kf[k["id"]][0] == pid:
                line = "KNOWN-FINDING: property=%s %s" % (pid, k["what"])
                if line not in printed:
                    print(line)
                printed.add(line)
            else:
                unlisted.append(k)
        results.append(classify(rc, out, st, unlisted, replay) + (out, work, unlisted, pkg))
        merge(ps, allkeys, st.get("props") or {}, stats + ".keys")
    for name, p in ps.items():
        p["distinct"] = len(allkeys.get(name, ()))
    # a violation decides, then a run which could not decide
    order = {1: 0, 2: 1, 0: 2}
    verdict, why, out, work, unlisted, pkg = min(results, key=lambda r: order[r[0]])
    if any(r[0] == 2 for r in results) and verdict == 1:
        why += " (another process could not decide)"
    evaluations = sum(p["evaluations"] for p in ps.values())
    distinct = sum(p["distinct"] for p in ps.values())
    if verdict == 0 and not replay and (evaluations == 0 or distinct < 1):
        verdict, why = 2, "vacuous run: %d evaluations, %d distinct non-trivial" % (evaluations, distinct)

    if not replay:
        write_evidence(pid, suite, tier, seed, ps, shards, verdict, time.time() - t0, evaluations, distinct)

    if verdict == 0:
        print("ok property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs" %
              (pid, tier, seed, evaluations, distinct, time.time() - t0))
        return 0
    tail = out if len(out) < 12000 else out[:6000] + "\n[...]\n" + out[-6000:]
    print(tail)
    if verdict == 1:
        path = save_replay(pid, tier, seed, out, work, why, unlisted, pkg)
        print(why)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("CHECK-ERROR: property=%s %s" % (pid, why))
    return 2


def classify(rc, out, st, unlisted, replay):
    """0 held, 1 violated, 2 the check could not decide."""
    if rc is None:
        return 2, "time limit hit (inconclusive)"
    if "HARNESS-ERROR" in out:
        return 2, "harness error"
    if re.search(r"\[rapid\] only generated \d+ valid tests", out):
        return 2, "generator rejected too many cases"
    if "CASE-HANG: " in out:
        tail = out[out.index("CASE-HANG: "):]
        if re.search(r"^github\.com/effective-security/xdb(?!/internal/verif/)\S*\(", tail, re.M):
            return 1, "the code under test does not return"
        return 2, "the harness hangs"
    if "WARNING: DATA RACE" in out:
        return 1, "data race detected"
    if re.search(r"^\s*--- FAIL: ", out, re.M) and st.get("finished"):
        return 1, "a generated check failed"
    if unlisted:
        return 1, "; ".join(k["what"] for k in unlisted)
    if rc == 0 and st.get("finished"):
        return 0, ""
    # the test process died
    if "fatal error: concurrent map" in out:
        return 1, "concurrent map access in the code under test"
    m = re.search(r"^(panic: |fatal error: |\[signal )", out, re.M)
    if m:
        if "out of memory" in out or "cannot allocate memory" in out:
            return 2, "out of memory"
        # which code panicked: the first frame of the crashing goroutine that is in the module
        tail = out[m.start():]
        frames = re.findall(r"^(github\.com/effective-security/xdb\S*?)\(", tail, re.M)
        if frames and "/internal/verif/" not in frames[0]:
            return 1, "the code under test crashed the process in " + frames[0]
        if "deadlock: " in tail[:300]:
            return 1, "deadlock: every goroutine of the bubble is blocked"
        return 2, "the harness crashed"
    if re.search(r"^\s*--- FAIL: ", out, re.M):
        return 1, "a generated check failed"
    return 2, "test process ended with %s and no verdict" % rc


def save_replay(pid, tier, seed, out, work, why, unlisted, pkg):
    rd = os.path.join(VERIF, "replays")
    os.makedirs(rd, exist_ok=True)
    fails = re.findall(r"^\s*--- FAIL: (\S+)", out, re.M)
    test = max(fails, key=len) if fails else "Test%s" % pid
    failfile = None
    for root, _, files in os.walk(os.path.join(work, "testdata")):
        for f in sorted(files):
            if f.endswith(".fail"):
                name = os.path.basename(root)
                failfile = open(os.path.join(root, f), errors="replace").read()
                for t in fails:
                    if t.replace("/", "_") == name or t == name:
                        test = t
                break
    path = os.path.join(rd, "%s-%s-%d.json" % (pid, tier, seed))
    json.dump({"property": pid, "test": test, "pkg": pkg, "tier": tier, "seed": seed, "why": why,
               "failfile": failfile, "known": unlisted, "output": out[-20000:],
               "rerun": "python3 run.py %s --replay %s" % (pid, path)},
              open(path, "w"), indent=1)
    return path


def merge(ps, allkeys, props, keyfile):
    """Adds the counts of one process."""
    for name, p in props.items():
        q = ps.setdefault(name, {"rule": p["rule"], "evaluations": 0, "nontrivial": 0, "classes": {}, "samples": []})
        q["evaluations"] += p["evaluations"]
        q["nontrivial"] += p["nontrivial"]
        for c, n in (p["classes"] or {}).items():
            q["classes"][c] = q["classes"].get(c, 0) + n
        if len(q["samples"]) < 4:
            q["samples"] = (q["samples"] + (p["samples"] or []))[:4]
    if not os.path.exists(keyfile):
        return
    data, i = open(keyfile, "rb").read(), 0
    while i < len(data):
        n = int.from_bytes(data[i:i + 8], "little")
        name = data[i + 8:i + 8 + n].decode()
        i += 8 + n
        n = int.from_bytes(data[i:i + 8], "little")
        keys = array.array("Q")
        keys.frombytes(data[i + 8:i + 8 + 8 * n])
        i += 8 + 8 * n
        allkeys.setdefault(name, set()).update(keys)


def write_evidence(pid, suite, tier, seed, ps, shards, verdict, wall, evaluations, distinct):
    rules, samples, classes, per = [], [], {}, {}
    for name in sorted(ps):
        p = ps[name]
        rules.append("%s: %s" % (name, p["rule"]))
        for s in (p["samples"] or [])[:4]:
            samples.append({"check": name, "case": s})
        classes[name] = p["classes"]
        per[name] = {"evaluations": p["evaluations"], "nontrivial": p["nontrivial"], "distinct_nontrivial": p["distinct"]}
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": suite.get("level", "exploration"),
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": distinct,
            "rule": " | ".join(rules) or "none ran",
            "samples": samples[:24] or ["none"],
            "classes": classes, "checks": per, "processes": shards,
        },
        "assumptions": suite.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": 1 if verdict == 1 else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", pid + ".json")
    tmp = path + ".tmp%d" % os.getpid()
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, path)


if __name__ == "__main__":
    main()

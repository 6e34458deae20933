#!/usr/bin/env python3
"""Runs the check of one property.

  check.py <ID> [quick|thorough]     exit 0: held, 1: VIOLATION (a line on stdout), 3: no answer (an error of the check)
  check.py replay <replay file>      runs the saved case again
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from table import CHECKS  # noqa

HARNESS = os.path.join(HERE, "harness")
REPLAYS = os.path.join(HERE, "replays")
EVID = os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "known_findings.txt")


def env():
    e = dict(os.environ)
    e.update(
        HOME="/root", PATH="/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly", GOWORK="off", CGO_ENABLED="1", GOSUMDB="off",
        GOCACHE="/root/.cache/go-build", GOMODCACHE="/root/go/pkg/mod", GOTRACEBACK="all", VERIF_HARNESS=HARNESS)
    for k in ("RAPID_CHECKS", "RAPID_SEED", "RAPID_FAILFILE"):
        e.pop(k, None)
    return e


def build(pkg, out, race=False):
    cmd = ["go", "test", "-c", "-vet=off", "-o", out] + (["-race"] if race else []) + ["./" + pkg]
    return subprocess.run(cmd, cwd=HARNESS, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def run_test(binary, tst, seed, checks, tmp, tier, timeout, failfile=None, steps=None):
    wd = tempfile.mkdtemp(dir=tmp)
    evout = os.path.join(wd, "ev.json")
    scratch = os.path.join(wd, "scratch")
    os.mkdir(scratch)
    e = env()
    e.update(VERIF_EV_OUT=evout, VERIF_TIER=tier, TMPDIR=scratch, VERIF_CASES=str(checks), VERIF_SEED=str(seed), GOMAXPROCS="4")
    cmd = [binary, "-test.run", "^%s$" % tst, "-test.v", "-test.timeout=%ds" % timeout, "-rapid.checks=%d" % checks,
           "-rapid.seed=%d" % seed, "-rapid.shrinktime=20s"]
    if steps:
        cmd.append("-rapid.steps=%d" % steps)
    if failfile:
        cmd.append("-rapid.failfile=" + failfile)
    logf = os.path.join(wd, "log")
    t0 = time.time()
    with open(logf, "wb") as lf:
        p = subprocess.Popen(cmd, cwd=wd, env=e, stdout=lf, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            rc = p.wait(timeout + 60)
        except subprocess.TimeoutExpired:
            rc = None
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        p.wait()
    with open(logf, "rb") as f:
        out = f.read().decode("utf-8", "replace")
    try:
        ev = json.load(open(evout))
    except Exception:
        ev = {}
    ff = None
    for r, _, fs in os.walk(os.path.join(wd, "testdata")):
        for fn in fs:
            if fn.endswith(".fail"):
                ff = os.path.join(r, fn)
    return dict(test=tst, rc=rc, out=out, ev=ev, failfile=ff, wall=time.time() - t0)


def judge(r):
    """ok | violation | error"""
    out, rc = r["out"], r["rc"]
    if rc == 0:
        if "--- PASS" not in out:
            return "error", "the test did not run"
        return "ok", ""
    if rc is None or "panic: test timed out" in out:
        return "error", "time budget is over"
    if "EV-ENV" in out or "no space left on device" in out or "cannot allocate memory" in out:
        return "error", "the environment failed"
    if "EV-RUNAWAY-MEMORY" in out:
        return "violation", "runaway memory"
    if rc < 0:
        return "error", "killed by the signal %d" % -rc
    if re.search(r"\[rapid\] only generated", out):
        return "error", "the generator is too weak"
    if re.search(r"^\s*--- FAIL", out, re.M) and ("[rapid]" in out or "EV-FAIL" in out or "EV-HANG" in out):
        return "violation", "the property does not hold"
    if re.search(r"^(panic|fatal error|SIG\w+):?", out, re.M) and "github.com/solarisdb/solaris" in out:
        return "violation", "the code under test crashed"
    if "WARNING: DATA RACE" in out:
        return "violation", "data race"
    return "error", "unexpected end of the test, rc=%s" % rc


def excerpt(out, n=20000):
    """the end of the output, and what is around the (first) crash"""
    m = re.search(r"^(panic|fatal error|SIG\w+):?|WARNING: DATA RACE", out, re.M)
    if len(out) <= n or not m or m.start() >= len(out) - n:
        return out[-n:]
    return out[max(0, m.start() - 500):m.start() + n // 2] + "\n...\n" + out[-n // 2:]


def save_replay(pid, spec, r, seed, checks, why):
    os.makedirs(REPLAYS, exist_ok=True)
    ff = None
    if r["failfile"]:
        ff = open(r["failfile"], encoding="utf-8", errors="replace").read()
    d = dict(property=pid, pkg=spec["pkg"], test=r["test"], race=spec.get("race", False), seed=seed, checks=checks, steps=spec.get("steps"), why=why,
             failfile=ff, log=excerpt(r["out"]))
    h = hashlib.sha1((str(ff) + r["test"] + str(seed)).encode()).hexdigest()[:10]
    p = os.path.join(REPLAYS, "%s-%s-%s.json" % (pid, r["test"], h))
    json.dump(d, open(p, "w"), indent=1)
    return p


def known(pid):
    res = []
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            m = re.match(r"finding:\s+property=(\S+)\s+(.*)", ln)
            if m and m.group(1) == pid:
                res.append(m.group(2).strip())
    return res


def main():
    if sys.argv[1] == "replay":
        return replay(sys.argv[2])
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    spec = CHECKS[pid]
    try:
        seed0 = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed0 = 1
    seed = (seed0 * 2654435761 + 12345) % (2 ** 63) or 1
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        bins = {}
        for t in spec["tests"]:
            key = (t["pkg"], t.get("race", False))
            if key in bins:
                continue
            b = os.path.join(tmp, "bin%d" % len(bins))
            br = build(key[0], b, key[1])
            if br.returncode != 0 or not os.path.exists(b):
                print(br.stdout)
                print("ERROR: could not build the check %s" % pid)
                return 3
            bins[key] = b
        jobs = []
        results = []
        with cf.ThreadPoolExecutor(max_workers=spec.get("par", 4)) as ex:
            for t in spec["tests"]:
                n = t["quick"] if tier == "quick" else t["thorough"]
                to = 780 if tier == "quick" else 3600
                jobs.append((t, n, ex.submit(run_test, bins[(t["pkg"], t.get("race", False))], t["test"], seed, n, tmp, tier, to, None, t.get("steps"))))
            for t, n, f in jobs:
                results.append((t, n, f.result()))
        viol, errs = [], []
        cov = dict(evaluations=0, distinct_nontrivial=0, samples=[], tests={})
        rules = []
        for t, n, r in results:
            v, why = judge(r)
            st = r["ev"].get(r["test"], {})
            cov["evaluations"] += st.get("evaluations", 0)
            cov["distinct_nontrivial"] += st.get("distinct_nontrivial", 0)
            cov["samples"] += ["%s: %s" % (r["test"], s) for s in (st.get("samples") or [])[:3]]
            cov["tests"][r["test"] + (" (race)" if t.get("race") else "")] = dict(requested=n, evaluations=st.get("evaluations", 0), distinct_nontrivial=st.get("distinct_nontrivial", 0),
                                           labels=st.get("labels", {}), wall_s=round(r["wall"], 2), outcome=v)
            if st.get("rule"):
                rules.append("%s: %s" % (r["test"], st["rule"]))
            if v == "ok" and st.get("distinct_nontrivial", 0) == 0:
                v, why = "error", "vacuous: no non-trivial case"
            if v == "violation":
                p = save_replay(pid, t, r, seed, n, why)
                viol.append((p, r, why))
            elif v == "error":
                errs.append((r, why))
        cov["rule"] = " | ".join(rules)
        os.makedirs(EVID, exist_ok=True)
        ev = dict(property=pid, tier="thorough" if tier == "thorough" else "quick", seed=seed0, level=spec.get("level", "exploration"), coverage=cov,
                  assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(viol), replays=[v[0] for v in viol],
                  errors=["%s: %s" % (r["test"], w) for r, w in errs])
        json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1)
        for k in known(pid):
            print("KNOWN-FINDING: property=%s %s" % (pid, k))
        print("%s %s: %d cases, %d distinct non-trivial, %.1fs" % (pid, tier, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0))
        if viol:
            for p, r, why in viol:
                print("---- %s: %s" % (r["test"], why))
                print(r["out"][-6000:])
                print("VIOLATION property=%s replay=%s" % (pid, p))
            return 1
        if errs:
            for r, why in errs:
                print("---- %s: ERROR %s" % (r["test"], why))
                print(r["out"][-6000:])
            return 3
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def replay(path):
    d = json.load(open(path))
    tmp = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        b = os.path.join(tmp, "bin")
        br = build(d["pkg"], b, d.get("race", False))
        if br.returncode != 0:
            print(br.stdout)
            return 3
        ff = None
        checks = d["checks"]
        if d.get("failfile"):
            ff = os.path.join(tmp, "case.fail")
            open(ff, "w").write(d["failfile"])
            checks = 1
        r = run_test(b, d["test"], d["seed"], checks, tmp, "quick", 780, ff, d.get("steps"))
        v, why = judge(r)
        print(excerpt(r["out"]))
        print("replay:", v, why)
        if v == "violation":
            print("VIOLATION property=%s replay=%s" % (d["property"], path))
            return 1
        return 0 if v == "ok" else 3
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())

#!/usr/bin/env python3
"""Works with the planted bugs of /verif/seeded.
   seed.py new <id> <property> <pkg dir>  < JSON on stdin {"edits": [[file, old, new]...], "needs":.., "breaks":..}   (demo_test.go is expected beside)
   seed.py verify <id>..    builds, tests, the demo without and with the patch (in a scratch copy)
   seed.py catch <id>..     applies to /repo, runs the quick check of the property, reverts
"""
import json, os, subprocess, sys, shutil, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = ROOT + "/seeded"
ENV = dict(os.environ, HOME="/root", PATH="/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
           GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", CGO_ENABLED="1")
DEMO = '''#!/bin/bash
# the demonstration: demo_test.go is put into %(pkg)s by an overlay
export HOME=/root PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=1
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
export TMPDIR=$T
echo "{\\"Replace\\": {\\"$PWD/%(pkg)s/zz_demo_test.go\\": \\"$D/demo_test.go\\"}}" > "$T/overlay.json"
go test -vet=off -count=1 -timeout 200s -overlay "$T/overlay.json" -run '^TestDemo$' ./%(pkg)s
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def scratch():
    d = "/tmp/seedwt"
    shutil.rmtree(d, ignore_errors=True)
    sh("git clone -q /repo %s" % d, "/")
    return d


def new(id, prop, pkg):
    spec = json.load(sys.stdin)
    d = scratch()
    for f, old, nw in spec["edits"]:
        s = open(d + "/" + f).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(d + "/" + f, "w").write(s.replace(old, nw))
    sd = SEED + "/" + id
    os.makedirs(sd, exist_ok=True)
    p = sh("git diff", d).stdout
    open(sd + "/patch.diff", "w").write(p)
    open(sd + "/demo.sh", "w").write(DEMO % dict(pkg=pkg))
    os.chmod(sd + "/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=spec["needs"], what_it_breaks=spec["breaks"]), open(sd + "/meta.json", "w"), indent=1)


def verify(ids):
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for id in ids:
        d = scratch()
        sd = SEED + "/" + id
        clean = sh("bash %s/demo.sh" % sd, d)
        ap = sh("git apply %s/patch.diff" % sd, d)
        b = sh("go build ./... && go vet ./... 2>&1 | head -3", d)
        t = sh("go test -json -vet=off -count=1 $(go list ./... | grep -vE 'golibs/timeout$|storage/postgres$')", d)
        failed = set()
        for l in t.stdout.splitlines():
            try:
                e = json.loads(l)
            except ValueError:
                continue
            if e.get("Action") == "fail" and e.get("Test"):
                n = e["Package"] + "/" + e["Test"]
                if n in base:
                    failed.add(n)
        bad = sh("bash %s/demo.sh" % sd, d)
        ok = clean.returncode == 0 and ap.returncode == 0 and b.returncode == 0 and not failed and bad.returncode != 0
        print(id, "OK" if ok else "BAD", "clean=%d apply=%d build=%d failed=%s patched=%d" % (clean.returncode, ap.returncode, b.returncode, sorted(failed), bad.returncode), flush=True)
        if not ok or "-v" in sys.argv:
            print(clean.stdout[-1500:], ap.stdout, b.stdout[-500:], bad.stdout[-1500:])
        if "build failed" in bad.stdout or "setup failed" in bad.stdout:
            print("DEMO DOES NOT BUILD", bad.stdout[-800:])
    shutil.rmtree("/tmp/seedwt", ignore_errors=True)


def catch(ids):
    for id in ids:
        sd = SEED + "/" + id
        prop = json.load(open(sd + "/meta.json"))["property"]
        assert not sh("git status --porcelain", "/repo").stdout
        r = sh("git apply %s/patch.diff" % sd, "/repo")
        t0 = time.time()
        try:
            c = sh("python3 %s/check.py %s quick" % (ROOT, prop), ROOT)
        finally:
            sh("git checkout -- .", "/repo")
        print(id, prop, "CAUGHT" if c.returncode == 1 and "VIOLATION property=" + prop in c.stdout else "MISSED rc=%d" % c.returncode, "%.0fs" % (time.time() - t0), flush=True)
        if "-v" in sys.argv or c.returncode not in (0, 1):
            print(c.stdout[-1500:])


a = [x for x in sys.argv[2:] if x != "-v"]
if sys.argv[1] == "new":
    new(*a)
else:
    {"verify": verify, "catch": catch}[sys.argv[1]](a or sorted(os.listdir(SEED)))

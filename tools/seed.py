#!/usr/bin/env python3
"""seed.py SPEC.py: plants one bug in a scratch copy of /repo, confirms that it
builds, passes the stable tests, fails its demonstration and that the
demonstration passes without it, and stores it under seeded/<id>/.
A spec defines ID, PROP, NEEDS, BREAKS, EDITS=[(file,old,new)...], TEST (a Go
test file of package notify with TestDemo*), optionally RACE=True, N (repeats)."""
import sys, os, json, subprocess, tempfile, shutil
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ns = {"RACE": False, "TIMEOUT": 60}
exec(open(sys.argv[1]).read(), ns)
env = dict(os.environ, HOME="/root", PATH="/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
           GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOSUMDB="off")
d = os.path.abspath(os.path.join(root, "seeded", ns["ID"]))
shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
demo = '''#!/bin/bash
# Exits 0 when the behaviour is right, nonzero when it is broken.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
mkdir "$work/tmp"; export TMPDIR="$work/tmp"
printf '{"Replace":{"%%s/demo_verif_test.go":"%%s/demo_verif_test.go.txt"}}' "$PWD" "$here" > "$work/overlay.json"
go test -vet=off -count=1 %s-timeout %ds -overlay "$work/overlay.json" -run '^TestDemo' .
''' % ("-race " if ns["RACE"] else "", ns["TIMEOUT"])
open(d + "/demo.sh", "w").write(demo)
if ns.get("TESTFILE"): ns["TEST"] = open(os.path.join(os.path.dirname(os.path.abspath(sys.argv[1])), ns["TESTFILE"])).read()
open(d + "/demo_verif_test.go.txt", "w").write(ns["TEST"].lstrip())
json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
w = tempfile.mkdtemp(prefix="/tmp/seedwt")
try:
    subprocess.run(["git", "clone", "-q", "/repo", w + "/r"], check=True)
    r = w + "/r"
    def demo_rc():
        p = subprocess.run(["bash", d + "/demo.sh"], cwd=r, env=env, capture_output=True, text=True)
        return p.returncode, p.stdout[-1500:] + p.stderr[-1500:]
    rc, out = demo_rc()
    if rc != 0: print("DEMO FAILS ON CLEAN TREE\n" + out); sys.exit(1)
    for f, o, n in ns["EDITS"]:
        s = open(r + "/" + f).read()
        if s.count(o) != 1: print("pattern occurs %d times in %s: %s" % (s.count(o), f, o)); sys.exit(1)
        open(r + "/" + f, "w").write(s.replace(o, n))
    b = subprocess.run(["go", "build", "./..."], cwd=r, env=env, capture_output=True, text=True)
    if b.returncode: print("DOES NOT BUILD\n" + b.stderr); sys.exit(1)
    patch = subprocess.run(["git", "diff"], cwd=r, capture_output=True, text=True).stdout
    open(d + "/patch.diff", "w").write(patch)
    rc, out = demo_rc()
    if rc == 0: print("DEMO DOES NOT FAIL WITH THE BUG\n" + out); sys.exit(1)
    print("demo with bug:", out.strip()[:400])
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    for _ in range(2):
        os.makedirs(w + "/tmp", exist_ok=True)
        t = subprocess.run(["go", "test", "-json", "-vet=off", "-count=1", "-timeout", "5m", "./..."], cwd=r, env=dict(env, TMPDIR=w + "/tmp", NOTIFY_TMP=w + "/tmp/"), capture_output=True, text=True)
        ok = set()
        for l in t.stdout.splitlines():
            try: e = json.loads(l)
            except ValueError: continue
            if e.get("Action") == "pass" and e.get("Test"): ok.add(e["Package"] + "/" + e["Test"])
        miss = [x for x in stable if x not in ok]
        if miss: print("STABLE TESTS FAIL:", miss); sys.exit(1)
    print("kept", ns["ID"])
finally:
    shutil.rmtree(w)

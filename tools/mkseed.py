#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from tools/seeds/*.py and confirms each planted bug in a
scratch copy: applies, builds, passes the stable tests, and its demonstration fails with
the change and passes without. usage: mkseed.py [-keep] ID..."""
import glob, json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = {}
def seed(id, prop, edits, pkg, test, needs, breaks):
    S[id] = dict(prop=prop, edits=edits, pkg=pkg, test=test, needs=needs, breaks=breaks)
for f in sorted(glob.glob(V + "/tools/seeds/*.py")):
    exec(open(f).read())
def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
DEMO = '''#!/bin/bash
# Runs the test beside this script inside the package, without adding a file to it.
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
echo "{\\"Replace\\": {\\"$PWD/%(pkg)s/zz_demo_test.go\\": \\"$D/demo_test.go\\"}}" > "$T/overlay.json"
go test -overlay "$T/overlay.json" -run '^TestZZDemo$' -vet=off -count=1 ./%(pkg)s
'''
stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
def main():
    ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(S)
    for id in ids:
        s = S[id]
        W = "/tmp/seedwork"
        shutil.rmtree(W, ignore_errors=True)
        run("cp -a /repo " + W, "/")
        run("git checkout -q -- .", W)
        bad = None
        for file, old, new in s["edits"]:
            p = os.path.join(W, file); t = open(p).read()
            if t.count(old) != 1: bad = "edit matches %d times in %s" % (t.count(old), file); break
            open(p, "w").write(t.replace(old, new))
        if bad: print(id, "BAD", bad); continue
        d = os.path.join(V, "seeded", id); os.makedirs(d, exist_ok=True)
        diff = run("git diff", W).stdout
        open(d + "/demo.sh", "w").write(DEMO % s); os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo_test.go", "w").write(s["test"])
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        msgs = []
        r = run("go build ./...", W)
        if r.returncode: msgs.append("does not build: " + r.stdout[-300:])
        r = run("bash %s/demo.sh" % d, W)
        if r.returncode == 0: msgs.append("demo passes with the change")
        elif "FAIL: TestZZDemo" not in r.stdout and "panic:" not in r.stdout and "test timed out" not in r.stdout: msgs.append("demo broken: " + r.stdout[-400:])
        r = run("go test -json -vet=off -count=1 -timeout 10m ./...", W)
        passed = set()
        for l in r.stdout.splitlines():
            try: e = json.loads(l)
            except ValueError: continue
            if e.get("Action") == "pass" and "Test" in e: passed.add(e["Package"] + "/" + e["Test"])
        fl = [x for x in stable if x not in passed]
        if fl: msgs.append("tests fail: %s" % fl[:3])
        run("git checkout -q -- .", W)
        r = run("bash %s/demo.sh" % d, W)
        if r.returncode: msgs.append("demo fails without the change: " + r.stdout[-400:])
        print(id, "ok" if not msgs else "BAD " + "; ".join(msgs), flush=True)
        if msgs and "-keep" not in sys.argv: shutil.rmtree(d)
    shutil.rmtree("/tmp/seedwork", ignore_errors=True)
main()

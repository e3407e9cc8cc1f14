#!/usr/bin/env python3
"""Runs checks against changed copies of /repo (kept out of seeded/: quick, without demonstration).
usage: mut.py FILE [ID...]; FILE defines mut(id, property, file, old, new)."""
import os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = []
def mut(id, prop, file, old, new): M.append((id, prop, file, old, new))
exec(open(sys.argv[1]).read())
VC, W = "/tmp/mutv", "/tmp/mutw"
shutil.rmtree(VC, ignore_errors=True); os.makedirs(VC)
for d in ("bin", "contracts", "known_findings.jsonl"):
    subprocess.run(["cp", "-a", V + "/" + d, VC]); 
os.makedirs(VC + "/evidence", exist_ok=True)
for id, prop, file, old, new in M:
    if len(sys.argv) > 2 and id not in sys.argv[2:]: continue
    shutil.rmtree(W, ignore_errors=True); shutil.copytree("/repo", W)
    p = W + "/" + file; t = open(p).read()
    if t.count(old) != 1: print(id, "edit matches %d times" % t.count(old)); continue
    open(p, "w").write(t.replace(old, new))
    b = subprocess.run("go build ./...", cwd=W, shell=True, capture_output=True, text=True)
    if b.returncode: print(id, "does not build", b.stderr[-300:]); continue
    r = subprocess.run(["timeout", "600", VC + "/bin/govc", "-prop", prop, "-tier", "quick", "-verif", VC, "-repo", W], capture_output=True, text=True, errors="replace")
    o = (r.stdout + r.stderr).splitlines()
    v = [l for l in o if l.startswith("VIOLATION")]
    f = [l[19:] for l in o if l.startswith("failed obligation")]
    print(id, prop, "rc=%d" % r.returncode, "REPLAYED" if v and "no-failing" not in v[0] else "no-input" if v else "MISSED", " ; ".join(x[:70] for x in f[:3]), "" if v else " ".join(x[:160] for x in o[-2:]), flush=True)
shutil.rmtree(W, ignore_errors=True); shutil.rmtree(VC, ignore_errors=True)

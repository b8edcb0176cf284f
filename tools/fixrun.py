#!/usr/bin/env python3
"""Are the defects that were repaired found again when their repair is undone?
fixrun.py [commit ...]   for each "fixed:" entry of known_findings.json: scratch clone of /repo, git revert, the check of its property"""
import sys, os, subprocess, json, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = json.load(open(V + "/known_findings.json"))
ents = [e["record"] for e in F["findings"] if e["status"] == "fixed"]
rows = []
for e in ents:
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", e) if isinstance(e, str) else None
    pid, com, what = m.groups() if m else (e["property"], e["commit"], e.get("what", ""))
    if sys.argv[1:] and not any(com.startswith(a) for a in sys.argv[1:]): continue
    T = "/tmp/fixrun"
    subprocess.run(["rm", "-rf", T]); subprocess.run(["git", "clone", "-q", "/repo", T], check=True)
    r = subprocess.run(["git", "-C", T, "revert", "-n", com], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        # undo only this one against its successors: reverse-apply with fuzz
        subprocess.run(["git", "-C", T, "revert", "--abort"], stderr=subprocess.DEVNULL); subprocess.run(["git", "-C", T, "reset", "-q", "--hard"])
        print(com[:8], pid, "revert conflicts with later commits:", what[:80], flush=True); continue
    env = dict(os.environ, MC_REPO=T)
    p = subprocess.run(["python3", V + "/mc/check.py", pid, "quick"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    ok = p.returncode == 1 and "VIOLATION property=%s" % pid in p.stdout
    print(com[:8], pid, "FOUND" if ok else "MISSED rc=%d" % p.returncode, what[:100], flush=True)
subprocess.run(["rm", "-rf", "/tmp/fixrun"])

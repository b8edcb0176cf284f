#!/usr/bin/env python3
"""Runs checks against planted bugs in scratch copies: seedrun.py [-t tier] [-p C01,C02 | -a] [ID...]   (default: the bug's own property)
Prints one line per bug and check: caught (exit 1 with a VIOLATION line of that property), missed, or broken."""
import sys, os, json, subprocess, time, argparse
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser(); ap.add_argument("-t", default="quick"); ap.add_argument("-p"); ap.add_argument("-a", action="store_true"); ap.add_argument("ids", nargs="*"); ap.add_argument("-v", action="store_true")
a = ap.parse_args()
man = json.load(open(V + "/MANIFEST.json"))
checks = {c["property"] if "property" in c else c["id"]: c for c in man.get("checks", man.get("properties", []))}
for i in a.ids or sorted(os.listdir(V + "/seeded")):
    d = V + ("/seeded/" if os.path.exists(V + "/seeded/" + i) else "/tools/loud/") + i; m = json.load(open(d + "/meta.json"))
    T = "/tmp/seedrun.%d" % os.getpid()
    subprocess.run("rm -rf %s; git clone -q /repo %s && git -C %s apply %s/patch.diff" % (T, T, T, d), shell=True, check=True)
    for p in ([m["property"]] if not a.p and not a.a else a.p.split(",") if a.p else sorted(checks)):
        t0 = time.time()
        e = dict(os.environ, MC_REPO=T, VERIF_TIER=a.t, VERIF_SEED="1", MC_EVIDENCE="/tmp/seedrun.ev")
        r = subprocess.run(["python3", V + "/mc/check.py", p, a.t], cwd=V, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=" + p)]
        st = "caught" if r.returncode == 1 and v else "missed" if r.returncode == 0 else "BROKEN rc=%d" % r.returncode
        R = V + "/tools/seedresults.json"; res = json.load(open(R)) if os.path.exists(R) else {}
        res.setdefault(i, {})[p + ("" if a.t == "quick" else " thorough")] = st; json.dump(res, open(R, "w"), indent=0, sort_keys=True)
        print("%-24s %s %-7s %5.0fs %s" % (i, p, st, time.time() - t0, (v[0][:150] if v else "")), flush=True)
        if a.v or st.startswith("BROKEN"): print(r.stdout[-3000:])
    subprocess.run(["rm", "-rf", T])

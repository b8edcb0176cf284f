#!/usr/bin/env python3
"""Makes planted bugs from specifications: mkseed.py SPEC.py [ID...]
SPEC.py defines SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=C text or None, sh=demo.sh text or None, flags)].
Each is written to /verif/seeded/<id>/ after the demonstration was run in a scratch copy with and without the change."""
import sys, os, subprocess, json, shutil, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = "/tmp/seedtree"
def sh(c, cwd=None, timeout=320):
    try:
        p = subprocess.run(c, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"
def tree():
    if not os.path.isdir(SC):
        sh("git clone -q /repo " + SC)
    sh("git fetch -q origin && git reset -q --hard origin/HEAD && git clean -fdxq", SC)
def main():
    spec = runpy.run_path(sys.argv[1])["SEEDS"]
    want = sys.argv[2:]
    tree()
    for s in spec:
        if want and s["id"] not in want: continue
        if not want and os.path.exists(V + "/seeded/%s/meta.json" % s["id"]): continue
        sh("git checkout -q -- .", SC)
        ok = True
        for f, old, new in s["edits"]:
            p = SC + "/libconcurrent/" + f
            t = open(p, newline="").read()
            if "\r\n" in t: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if t.count(old) < 1: print(s["id"], "EDIT NOT FOUND", f, repr(old[:60])); ok = False; break
            if t.count(old) > 1 and not s.get("all"): print(s["id"], "EDIT AMBIGUOUS", f, repr(old[:60])); ok = False; break
            open(p, "w", newline="").write(t.replace(old, new))
        if not ok: continue
        diff = subprocess.run(["git", "diff"], cwd=SC, stdout=subprocess.PIPE).stdout
        d = V + "/seeded/" + s["id"]
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        if s.get("demo"):
            for f in ("demosched.c", "demosched.h", "build.sh", "lin.h", "qs.h", "op.h"):
                if f in ("demosched.c", "demosched.h", "build.sh") or '"%s"' % f in s["demo"] or (f == "lin.h" and ('"qs.h"' in s["demo"] or '"op.h"' in s["demo"])):
                    shutil.copy(V + "/tools/demo/" + f, d)
            open(d + "/demo.c", "w").write(s["demo"])
            open(d + "/demo.sh", "w").write("#!/bin/bash\nDEMO_FLAGS=\"%s\"\nDEMO_LD=\"%s\"\n. \"$(dirname \"$0\")/build.sh\"\ntimeout 280 \"$T/demo\"\n" % (s.get("flags", ""), s.get("ld", "")))
        else:
            open(d + "/demo.sh", "w").write(s["sh"])
            for n, t in s.get("files", {}).items(): open(d + "/" + n, "w").write(t)
        open(d + "/patch.diff", "wb").write(diff)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        rc1, o1 = sh("bash %s/demo.sh" % d, SC)
        sh("git checkout -q -- .", SC)
        rc0, o0 = sh("bash %s/demo.sh" % d, SC)
        print("%s: with the change rc=%d (%s); without rc=%d (%s)" % (s["id"], rc1, o1.strip().splitlines()[-1:] , rc0, o0.strip().splitlines()[-1:]))
        if rc0 != 0 or rc1 == 0:
            print("   NOT KEPT"); print(o1[-1500:]); print(o0[-1500:]); shutil.move(d, "/tmp/sp/rejected." + s["id"]) if not os.path.exists("/tmp/sp/rejected." + s["id"]) else shutil.rmtree(d)
        sys.stdout.flush()
main()

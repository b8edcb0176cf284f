#!/usr/bin/env python3
"""replay.py <witness file>: rebuilds the job of a counterexample from /repo's working tree and replays its schedule with a trace."""
import os, re, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import jobs as J
from build import Builder, VERIF

def main(path):
    t = open(path).read()
    prop = re.search(r"^# property (\S+)", t, re.M).group(1)
    name = re.search(r"^# job (.*)", t, re.M).group(1)
    for tier in ("quick", "thorough"):
        for j in J.jobs(prop, tier):
            if j.name() == name: break
        else: continue
        break
    else:
        sys.exit("no such job: " + name)
    wd = "%s/.build/work/replay-%d" % (VERIF, os.getpid())
    b = Builder(wd)
    try:
        v = J.VARIANTS[j.v]
        b.lib(v)
        exe = b.harness(j.h, v, defines=j.defines, tag=j.tag, wraps=j.wraps, stateless=j.stateless)
        body = "".join(l for l in t.splitlines(True) if not l.startswith("#"))
        if "schedule" not in body:   # a sequential failure of the set-up, or a bound over several runs: run the job again
            p = subprocess.run([exe] + j.args, text=True, errors="replace", stdout=subprocess.PIPE)
            print(p.stdout); return 0
        w = wd + "/w.txt"; open(w, "w").write(body)
        p = subprocess.run([exe] + j.args + ["--replay=" + w, "--trace=1"], text=True, errors="replace", stdout=subprocess.PIPE)
        print(p.stdout)
        return 0 if '"replay":"reproduced"' in p.stdout else 1
    finally:
        subprocess.run(["rm", "-rf", wd])
sys.exit(main(sys.argv[1]))

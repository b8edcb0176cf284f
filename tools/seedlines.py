#!/usr/bin/env python3
"""Do the planted bugs change lines of the original repository (not ones a fix commit added)? Prints those that do not."""
import os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], stdout=subprocess.PIPE, text=True).stdout.split()[0]
def orig(f): return subprocess.run(["git", "-C", "/repo", "show", base + ":" + f], stdout=subprocess.PIPE).stdout.decode(errors="replace").replace("\r", "").split("\n")
for i in sorted(os.listdir(V + "/seeded")):
    d = open(V + "/seeded/%s/patch.diff" % i, errors="replace", newline="").read().replace("\r", "")
    f, o, n, bad = None, [], 0, []
    for l in d.split("\n"):
        if l.startswith("--- a/"): f = l[6:]; o = set(orig(f))
        elif l.startswith("-") and not l.startswith("---"):
            n += 1
            if l[1:] not in o: bad.append(l)
    print("%-28s removed %d, of which added by fix commits: %d %s" % (i, n, len(bad), bad[:2] if bad else ""))

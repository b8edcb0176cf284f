#!/usr/bin/env python3
"""Systematic small mutations of the library, to find places the checks do not see (survivors are read by hand: most are equivalent).
mutate.py OUT [-j N] [-e EVERY] [-o OFFSET] [files ...]"""
import sys, os, re, subprocess, argparse, json, threading, time, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = "libconcurrent/"
MAP = {"concurrent/ccsynch.c": "C01 C13", "concurrent/dsmsynch.c": "C01 C13", "concurrent/hsynch.c": "C01 C13", "concurrent/oyama.c": "C02 C13", "concurrent/fc.c": "C02 C13", "concurrent/osci.c": "C02 C13",
 "concurrent/sim.c": "C03 C14 C24", "concurrent/lfuobject.c": "C04 C15", "concurrent/msqueue.c": "C06 C15 C20", "concurrent/lcrq.c": "C07 C15 C20", "concurrent/simqueue.c": "C08 C14 C20", "concurrent/lfstack.c": "C10 C15", "concurrent/simstack.c": "C10 C14 C20",
 "concurrent/clhhash.c": "C11 C20", "concurrent/dsmhash.c": "C11 C20", "concurrent/clh.c": "C12 C20", "concurrent/mcs.c": "C12 C20", "primitives/barrier.c": "C16", "primitives/threadtools.c": "C17 C21 C20", "primitives/uthreads.c": "C18 C17 C20",
 "primitives/pool.c": "C19 C20", "includes/tvec.h": "C23", "primitives/primitives.c": "C22 C20", "includes/primitives.h": "C22", "primitives/bench_args.c": "C26", "primitives/fastrand.c": "C27", "primitives/backoff.c": "C27"}
for q in ("cc", "dsm", "h", "fc", "osci"):
    MAP["concurrent/%squeue.c" % q] = "C05 C20"; MAP["concurrent/%sstack.c" % q] = "C09 C20"
def mutants(path):
    src = open(path, newline="").read(); nl = "\r\n" if "\r\n" in src else "\n"
    lines = src.split(nl); out = []
    skip = 0; depth = []
    simple = lambda s: s.endswith(";") and not re.match(r"(return|break|continue|typedef|#|\}|do\b|goto|for\b|while\b|extern|static|else)", s) and not re.match(r"(const |volatile |unsigned |struct |register )*\w+\s+[\w\*, \[\]\=\(\)]*;$", s.split("=")[0].strip() + ";" if False else s)
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith("#if"): depth.append(bool(re.search(r"DEBUG|PAPI|TRACK|sparc|__SPARC|__ia64|solaris", s)) and "!" not in s and "ifndef" not in s); continue
        if s.startswith("#else") and depth: depth[-1] = False; continue
        if s.startswith("#endif") and depth: depth.pop(); continue
        if any(depth) or s.startswith(("#", "//", "/*", "*")) or not s: continue
        if re.search(r"Prefetch|fprintf|printf\(|NonTSOFence|Pause\(", s): continue
        code = s.split("//")[0].strip()
        def add(kind, new): out.append((i, kind, nl.join(lines[:i] + new + lines[i + 1:])))
        if simple(code):
            add("DEL", [])
            if i + 1 < len(lines):
                n = lines[i + 1]; nc = n.strip().split("//")[0].strip()
                if simple(nc) and (len(n) - len(n.lstrip())) == (len(l) - len(l.lstrip())) and not re.search(r"Prefetch|Fence", nc): out.append((i, "SWAP", nl.join(lines[:i] + [n, l] + lines[i + 2:])))
        if not code.startswith(("inline", "static inline", "typedef", "extern")) :
            for a, b in ((" == ", " != "), (" != ", " == "), (" < ", " <= "), (" > ", " >= "), (" <= ", " < "), (" >= ", " > "), (" && ", " || "), (" || ", " && "), ("true", "false"), ("false", "true"), (" + 1", ""), (" - 1", ""), ("++", "--"), (" += ", " -= "), ("(!", "("), (" % ", " / "), (" / ", " % "), (" & ", " | "), (" | ", " & "), (" << ", " >> "), (" >> ", " << "), ("32", "64"), ("64", "32")):
                for m in re.finditer(re.escape(a), l.split("//")[0]):
                    add("%s->%s" % (a.strip(), b.strip()), [l[:m.start()] + b + l[m.end():]])
    return out, lines
def main():
    ap = argparse.ArgumentParser(); ap.add_argument("out"); ap.add_argument("-j", type=int, default=2); ap.add_argument("-e", type=int, default=1); ap.add_argument("-o", type=int, default=0); ap.add_argument("files", nargs="*"); a = ap.parse_args()
    todo = queue.Queue(); n = 0
    for f in a.files or MAP:
        ms, lines = mutants("/repo/" + L + f)
        for k, (i, kind, txt) in enumerate(ms):
            if k % a.e == a.o: todo.put((f, i, kind, txt, lines[i].strip())); n += 1
    print(n, "mutants"); sys.stdout.flush()
    lock = threading.Lock(); cnt = {}
    def work(w):
        T = "/tmp/mu%d" % w
        subprocess.run(["rm", "-rf", T]); subprocess.run(["git", "clone", "-q", "/repo", T], check=True)
        env = dict(os.environ, MC_REPO=T, MC_WORKERS=str(max(1, 8 // a.j)), MC_MAXVIOL="1")
        while True:
            try: f, i, kind, txt, line = todo.get_nowait()
            except queue.Empty: break
            p = T + "/" + L + f
            open(p, "w", newline="").write(txt); res = "SURVIVED"; t = time.time()
            for c in MAP[f].split():
                try: r = subprocess.run(["python3", V + "/mc/check.py", c, "quick"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=1200)
                except subprocess.TimeoutExpired: res = "TIMEOUT " + c; break
                if r.returncode == 1 and "VIOLATION property" in r.stdout: res = "killed " + c; break
                if r.returncode == 2 and "BUILD-PROBLEM" in r.stdout: res = "nocompile"; break
                if r.returncode not in (0, 1): res = "ERROR rc=%d %s %s" % (r.returncode, c, r.stdout[-200:].replace("\n", " ")); break
            subprocess.run(["git", "-C", T, "checkout", "-q", "--", "."])
            with lock:
                cnt[res.split()[0]] = cnt.get(res.split()[0], 0) + 1
                with open(a.out, "a") as o: o.write("%s\t%s:%d\t%s\t%.0fs\t%s\n" % (res, f, i + 1, kind, time.time() - t, line))
        subprocess.run(["rm", "-rf", T])
    ts = [threading.Thread(target=work, args=(w,)) for w in range(a.j)]
    [t.start() for t in ts]; [t.join() for t in ts]
    print(cnt)
main()

#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property by exhaustive exploration of the real code in /repo.

Builds the instrumented library from /repo's working tree, runs every configuration (a "job") of the property under the
explicit-state engine, replays each counterexample before reporting it, and writes evidence/<property>.json."""
import json, os, re, shutil, subprocess, sys, time, threading, fnmatch
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from build import Builder, Variant, BuildError, VERIF, REPO, MC
import jobs as J

def load_known():
    try:
        return json.load(open(VERIF + "/known_findings.json"))["findings"]
    except FileNotFoundError:
        return []

class Run:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.work = "%s/.build/work/%s-%d" % (VERIF, prop, os.getpid())
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], configurations=0, configurations_complete=0,
                        configurations_capped=0, configurations_skipped=0, terminal_executions=0, distinct_histories=0,
                        linearizability_decisions=0, rounds=0, incomplete=[], by_harness={})
        self.viol, self.known, self.errors, self.series = [], [], [], {}
        self.lock = threading.Lock()

    def cmdline(self, j, extra=()):
        return [self.bins[j.key()]] + j.args + list(extra)

    def run_one(self, j):
        """one engine run -> result dict"""
        budget = self.deadline - time.time()
        if budget < 1:
            return dict(result="skipped")
        cap = min(j.cap, budget)
        wf = "%s/w%d.txt" % (self.work, j.n)
        extra = ["--time=%d" % max(1, int(cap)), "--witness=" + wf, "--maxstates=%d" % j.maxstates]
        try:
            p = subprocess.run(self.cmdline(j, extra), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=cap * 3 + 60, cwd=self.work)
        except subprocess.TimeoutExpired:
            return dict(result="capped", cap="hard time limit")
        line = p.stdout.strip().splitlines()[-1:] or [""]
        try:
            r = json.loads(line[0])
        except ValueError:
            return dict(result="error", rc=p.returncode, msg="engine ended with %s: %s %s" % (p.returncode, p.stdout[-300:], p.stderr[-300:]))
        if "result" not in r:
            r.update(result="error", rc=0, msg=r.get("error"))
        r["witness"] = wf
        return r

    def confirm(self, j, r):
        """a counterexample counts only if it reproduces, twice"""
        for _ in range(2):
            if r.get("phase") == "setup" or not os.path.exists(r["witness"]) or j.native:
                q = self.run_one_again(j)
                if q.get("result") != "violation":
                    return False, "did not reproduce: %s" % (q,)
            else:
                p = subprocess.run(self.cmdline(j, ["--replay=" + r["witness"]]), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=300, cwd=self.work)
                if '"replay":"reproduced"' not in p.stdout:
                    return False, "did not reproduce: %s" % p.stdout[-400:]
        return True, ""

    def run_one_again(self, j):
        try:
            p = subprocess.run(self.cmdline(j, ["--time=120", "--maxstates=%d" % j.maxstates]), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=400, cwd=self.work)
            return json.loads(p.stdout.strip().splitlines()[-1])
        except Exception as e:
            return dict(result="error", msg=str(e))

    def account(self, j, r):
        with self.lock:
            c = self.cov
            res = r["result"]
            if res == "skipped":
                c["configurations_skipped"] += 1
                c["incomplete"].append(dict(job=j.name(), why="time budget of the tier used up"))
                return
            c["configurations"] += 1
            for a, b in (("states", "states"), ("transitions", "transitions"), ("terminals", "terminal_executions"), ("histories", "distinct_histories"),
                         ("replayed", "traces_validated_against_impl"), ("lin_checks", "linearizability_decisions"), ("rounds", "rounds")):
                c[b] += int(r.get(a, 0) or 0)
            h = c["by_harness"].setdefault(j.h, dict(configurations=0, states=0, transitions=0))
            h["configurations"] += 1; h["states"] += int(r.get("states", 0)); h["transitions"] += int(r.get("transitions", 0))
            if len(c["samples"]) < 12 and r.get("samples") and not any(s["harness"] == j.h for s in c["samples"]):
                c["samples"].append(dict(harness=j.h, configuration=" ".join(j.args), variant=j.v, execution=r["samples"][0]))
            if res == "ok":
                c["configurations_complete"] += 1
                if not int(r.get("terminals", 0) or 0) and "--loop=1" not in j.args: c["vacuous"] = c.get("vacuous", []) + [j.name()]
            elif res == "capped":
                c["configurations_capped"] += 1
                c["incomplete"].append(dict(job=j.name(), why="cap: " + str(r.get("cap")), states=r.get("states", 0)))
            if r.get("nondeterministic"):
                c["incomplete"].append(dict(job=j.name(), why="a sampled schedule did not replay to the same state; its exploration is not counted as complete"))
                if res == "ok":
                    c["configurations_complete"] -= 1

    def judge(self, j, r):
        if r["result"] == "error" and r.get("rc") is not None and r["rc"] <= 0 and r["rc"] not in (-9, -15):
            # the code under test took the whole engine down (the unchanged tree never does): counts when it does so every time
            if all((lambda q: q["result"] == "error" and q.get("rc") == r["rc"])(self.run_one(j)) for _ in range(2)):
                self.report(j, dict(kind="crash", msg="the execution brings the process down (status %s): %s" % (r["rc"], (r.get("msg") or "")[-200:])))
        if r["result"] == "error":
            with self.lock:
                self.errors.append("%s: %s" % (j.name(), r.get("msg")))
                self.cov["incomplete"].append(dict(job=j.name(), why="engine error: %s" % r.get("msg")))
            return
        if r["result"] == "ok" and j.post:
            m = j.post(r)
            if m: r = dict(r, result="violation", kind="bound", msg=m, post=True)
        if r["result"] != "violation" or r.get("kind") == "resource":
            return
        if not r.get("post"):
            ok, why = self.confirm(j, r)
            if not ok:   # the schedule alone does not lead there: the whole exploration has to, every time
                ok = all((lambda q: q.get("result") == "violation" and q.get("kind") == r.get("kind"))(self.run_one_again(j)) for _ in range(2))
            if not ok:
                with self.lock:
                    self.errors.append("%s: counterexample %s" % (j.name(), why))
                return
        self.report(j, r)

    def report(self, j, r):
        txt = "%s: %s" % (r.get("kind"), r.get("msg"))
        for k in load_known():
            if k.get("status") == "fixed" or k["property"] != self.prop: continue
            if fnmatch.fnmatch(j.h, k.get("harness", "*")) and re.search(k.get("args", ""), " ".join(j.args)) and re.search(k["match"], txt):
                with self.lock:
                    if k["id"] not in [x["id"] for x in self.known]: self.known.append(k)
                return
        d = VERIF + "/evidence/witness"
        os.makedirs(d, exist_ok=True)
        with self.lock:
            n = len(self.viol)
            path = "%s/%s-%d.txt" % (d, self.prop, n)
            body = ""
            if r.get("witness") and os.path.exists(r["witness"]): body = open(r["witness"]).read()
            open(path, "w").write("# property %s\n# job %s\n# %s\n# harness=%s variant=%s args=%s\n# replay: python3 mc/replay.py %s\n%s" %
                                  (self.prop, j.name(), txt.replace("\n", " "), j.h, j.v, " ".join(j.args), path, body))
            self.viol.append(dict(job=j.name(), kind=r.get("kind"), msg=r.get("msg"), replay=path))

    def build(self, js):
        b = Builder(self.work)
        self.bins, need = {}, {}
        for j in js: need.setdefault(j.key(), j)
        for v in sorted({j.v for j in js if not j.native}):
            b.lib(J.VARIANTS[v])
        def one(j):
            if j.native: return j.key(), j.native(b, J.VARIANTS[j.v], j)
            return j.key(), b.harness(j.h, J.VARIANTS[j.v], defines=j.defines, tag=j.tag, wraps=j.wraps, stateless=j.stateless)
        with ThreadPoolExecutor(8) as ex:
            for k, p in ex.map(one, need.values()): self.bins[k] = p

    def main(self):
        js = [j for j in J.jobs(self.prop, self.tier)]
        for i, j in enumerate(js): j.n = i
        budget = J.BUDGET[self.tier]
        try:
            self.build(js)
        except BuildError as e:
            # a tree that does not compile is not a verdict on the property
            print("BUILD-PROBLEM: %s" % e)
            self.deadline = 0
            self.finish(js, "build failed")
            return 2
        self.deadline = time.time() + budget
        def one(j):
            if len(self.viol) >= int(os.environ.get("MC_MAXVIOL", 3)): return
            t = time.time()
            r = self.run_one(j)
            if os.environ.get("MC_TIMES"): print("%7.2f %-9s %9s %s" % (time.time() - t, r["result"], r.get("states"), j.name()))
            self.account(j, r)
            self.judge(j, r)
            if j.sat and r["result"] == "ok" and r.get("own_steps"):
                with self.lock: self.series.setdefault(j.sat[0], {})[j.sat[1]] = (r["own_steps"][0], j)
        with ThreadPoolExecutor(J.WORKERS) as ex:
            list(ex.map(one, js))
        for name, ms in sorted(self.series.items()):
            # wait-freedom: the longest operation of thread 0 (in its own steps) over all schedules, against m and m+1 operations of the others
            xs = [ms[m] for m in sorted(ms)]
            self.cov.setdefault("step_bounds", {})[name] = {str(m): ms[m][0] for m in sorted(ms)}
            if len(xs) >= 2 and xs[-1][0] > xs[-2][0] + 4:   # one more retry costs far more than this
                j = xs[-1][1]
                self.report(j, dict(kind="wait-freedom", msg="the longest execution of one operation grows with the number of concurrent operations of other threads: %s steps against %s operations" % ([x[0] for x in xs], sorted(ms))))
        return self.finish(js, None)

    def finish(self, js, problem):
        c = self.cov
        c["exhaustive"] = not problem and not c["incomplete"]
        c["bounds"] = J.bounds(js)
        if problem: c["problem"] = problem
        if self.errors: c["errors"] = self.errors[:20]
        ev = dict(property=self.prop, tier=self.tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking", coverage=c,
                  assumptions=J.ASSUMPTIONS + J.EXTRA_ASSUMPTIONS.get(self.prop, []), wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.viol), violation_details=self.viol, known_findings=[k["id"] for k in self.known])
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        json.dump(ev, open("%s/evidence/%s.json" % (VERIF, self.prop), "w"), indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        for e in self.errors[:5]: print("NOTE: " + e)
        for k in self.known: print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        print("%s %s: %d configurations (%d complete, %d capped, %d skipped), %d states, %d transitions, %d histories, %.1f s" % (
            self.prop, self.tier, c["configurations"], c["configurations_complete"], c["configurations_capped"], c["configurations_skipped"],
            c["states"], c["transitions"], c["distinct_histories"], time.time() - self.t0))
        for v in self.viol: print("  %s\n    %s: %s" % (v["job"], v["kind"], v["msg"]))
        for v in self.viol[:1]: print("VIOLATION property=%s replay=%s" % (self.prop, v["replay"]))
        sys.stdout.flush()
        return 1 if self.viol else 0

if __name__ == "__main__":
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(Run(prop, tier).main())

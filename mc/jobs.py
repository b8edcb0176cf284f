"""The configurations ("jobs") explored for every property: which harness, which library variant, which programs, which environment."""
import itertools, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from build import Variant

# ------------------------------------------------------------------ library variants
LC = "200000:1,199999:0,200001:2,1023:0,1024:1,10:1,9:0"
SMALL = [(r"(#\s*define\s+_SIM_LOCAL_POOL_SIZE_\s+)\d+", r"\g<1>3"), (r"(\w*HELP_FACTOR\w*\s*=?\s*)10\b", r"\g<1>1"), (r"(#\s*define\s+FC_CLEANUP_\w+\s+)100\b", r"\g<1>2")]
VARIANTS = {v.name: v for v in [
    Variant("base"),
    Variant("nonuma", undef=["SYNCH_NUMA_SUPPORT"]),
    Variant("nocompact", undef=["SYNCH_COMPACT_ALLOCATION"]),
    Variant("norecycle", define_cfg=["SYNCH_POOL_NODE_RECYCLING_DISABLE"]),
    Variant("nobackoff", define_cfg=["SYNCH_DISABLE_BACKOFF"]),
    Variant("emul", define_cfg=["SYNCH_EMULATE_FAA", "SYNCH_EMULATE_SWAP"]),
    Variant("debug", define_cfg=["DEBUG"]),
    # the library as an optimising compiler leaves it
    Variant("o2", opt="-O2"), Variant("o2-emul", opt="-O2", reuse=True, define_cfg=["SYNCH_EMULATE_FAA", "SYNCH_EMULATE_SWAP"]), Variant("o2-nonuma", opt="-O2", reuse=True, undef=["SYNCH_NUMA_SUPPORT"]),
    Variant("o2-ring1", opt="-O2", defines=["RING_POW=1"], consts=LC),
    # combining: a combiner serves as many requests as there are threads (instead of ten times as many); Sim: three records per thread (the least that is enough)
    Variant("small", subst=SMALL), Variant("small-nonuma", subst=SMALL, undef=["SYNCH_NUMA_SUPPORT"]),
    Variant("o2-small", opt="-O2", subst=SMALL),
    # LCRQ: small rings, and the spin limits (which only postpone a decision) scaled down
    Variant("ring1", defines=["RING_POW=1"], consts=LC), Variant("ring2", defines=["RING_POW=2"], consts=LC), Variant("ring0", defines=["RING_POW=0"], consts=LC),
    Variant("ring3", defines=["RING_POW=3"], consts=LC), Variant("ringdef", consts=LC),
]}
BUDGET = {"quick": float(os.environ.get("MC_BUDGET", 240)), "thorough": float(os.environ.get("MC_BUDGET", 7200))}
WORKERS = int(os.environ.get("MC_WORKERS", min(8, os.cpu_count() or 1)))

class Job:
    def __init__(self, h, args, v="base", cap=None, maxstates=None, defines=(), tag="", wraps=None, native=None, post=None, src=None, sat=None, stateless=False):
        self.stateless = stateless
        if stateless: tag += "-sl"
        self.sat = sat   # (series, m): the step bound of thread 0 must stop growing with m
        self.h, self.v, self.defines, self.tag, self.wraps, self.native, self.post, self.src = h, v, list(defines), tag, wraps, native, post, src
        self.args = [a for a in args if a]
        self.cap, self.maxstates = cap or 60, maxstates or 6000000
        self.n = 0
    def key(self): return (self.h, self.v, self.tag, tuple(self.defines))
    def name(self): return "%s[%s] %s" % (self.h + self.tag, self.v, " ".join(self.args))

def opts(**kw):
    out = []
    for k, v in kw.items():
        if v is None or v is False: continue
        out.append("--%s=%s" % (k, 1 if v is True else v))
    return out

# ------------------------------------------------------------------ program families
def combos(kinds, n):
    return list(itertools.product(kinds, repeat=n))

def vals(threads, ins):
    """threads: tuple of tuples of kinds; numbers the inserted values uniquely"""
    out = []
    for t, ops in enumerate(threads):
        out.append(",".join("%s%d" % (k, 10 * (t + 1) + i + 1) if k == ins else k for i, k in enumerate(ops)))
    return "/".join(out)

def container(h, spec, shapes, inits, v="base", extra=(), nb=False, fair=False, cap=None, maxstates=None, filt=None, canon=False, tag="", defines=()):
    """every program of the given shapes (operations per thread) over insert/remove, for every initial length"""
    ins = "E" if spec == "queue" else "P"
    js = []
    for shape in shapes:
        seen = set()
        for threads in itertools.product(*[combos((ins, "D"), k) for k in shape]):
            if canon:   # symmetric threads: one representative
                c = tuple(sorted(threads))
                if c in seen: continue
                seen.add(c)
            if filt and not filt(threads): continue
            nins = sum(t.count(ins) for t in threads)
            for init in inits:
                a = opts(prog=vals(threads, ins), spec=spec, init=",".join("%s%d" % (ins, i + 1) for i in range(init)) or None,
                         drain=",".join(["D"] * (nins + init + 1)), poison=1, nb=nb, fair=fair)
                js.append(Job(h, a + list(extra), v=v, cap=cap, maxstates=maxstates, tag=tag, defines=defines))
    return js

def synch(h, shapes, v="base", extra=(), fair=True, cap=None, maxstates=None, init=1):
    js = []
    for shape in shapes:
        prog = "/".join(",".join("A%d" % (10 * (t + 1) + i + 1) for i in range(k)) for t, k in enumerate(shape))
        tot = sum(shape) + init
        js.append(Job(h, opts(prog=prog, spec="log", init=",".join("A%d" % (i + 1) for i in range(init)) or None,
                              drain=",".join("R%d" % i for i in range(tot + 1)), poison=1, fair=fair) + list(extra), v=v, cap=cap, maxstates=maxstates))
    return js

def rmw(h, shapes, v="base", extra=(), nb=True, cap=None, maxstates=None, reads=True):
    js = []
    for shape in shapes:
        kinds = ("F", "G") if reads else ("F",)
        seen = set()
        for threads in itertools.product(*[combos(kinds, k) for k in shape]):
            if not any("F" in t for t in threads): continue
            if threads.count(("G",)) > 1 and len(shape) > 2: continue
            prog = "/".join(",".join(("F%d" % (4 * t + i + 1)) if k == "F" else "G" for i, k in enumerate(ops)) for t, ops in enumerate(threads))
            js.append(Job(h, opts(prog=prog, spec="rmw", drain="G0", poison=1, nb=nb) + list(extra), v=v, cap=cap, maxstates=maxstates))
    return js

def swaps(h, shapes, v="base", extra=(), nb=True, cap=None, maxstates=None, kinds=("S0", "S1", "F1", "G")):
    """register programs in which values come back"""
    js = []
    for shape in shapes:
        seen = set()
        for threads in itertools.product(*[combos(kinds, k) for k in shape]):
            c = tuple(sorted(threads))
            if c in seen: continue
            seen.add(c)
            flat = [o for t in threads for o in t]
            if not any(o[0] == "S" for o in flat) or sum(o == "G" for o in flat) > 1: continue
            js.append(Job(h, opts(prog="/".join(",".join(t) for t in threads), spec="rmw", drain="G0", poison=1, nb=nb) + list(extra), v=v, cap=cap, maxstates=maxstates))
    return js

Q_BLOCK = ["ccqueue", "dsmqueue", "hqueue", "osciqueue", "fcqueue"]
S_BLOCK = ["ccstack", "dsmstack", "hstack", "oscistack", "fcstack"]
JOBS = {}
def prop(*ids):
    def deco(f):
        for i in ids: JOBS[i] = f
        return f
    return deco
def jobs(pid, tier): return JOBS[pid](tier == "thorough")

NUMA = [opts(nodes=2, cpus=2, regions=2), opts(nodes=2, cpus=4), opts(nodes=2, cpus=2)]

@prop("C01")
def c01(deep):
    js = []
    sh = [(1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (1, 3), (3, 2), (2, 3), (3, 3), (4, 2), (1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2)]
    for h in ("ccsynch", "dsmsynch", "hsynch"):
        js += synch(h, sh)
        for v in ("nocompact", "emul", "nonuma"): js += synch(h, [(2, 2), (1, 1, 1)], v=v)
        js += synch(h, [(2, 2), (1, 1, 1)], extra=opts(cinit=1), init=0)
        js += synch(h, [(2, 2), (1, 1, 1)], extra=opts(model=0))
        js += synch(h, [(2, 2), (1, 1, 1)], extra=opts(model=1))
        js += synch(h, [(2, 2)], extra=opts(oversub=1))
        js += synch(h, [(2, 2)], extra=opts(tso=1), fair=False)
        js += synch(h, [(1, 1), (2, 2), (3, 3), (4, 2), (5, 3), (2, 1, 1), (2, 2, 1)], v="small", cap=40)
        js += synch(h, [(1, 1, 1, 1)], v="small", cap=40)
    js += synch("hsynch", [(2, 2), (3, 2), (2, 1, 1)], v="small", extra=opts(nodes=2, cpus=2)) + synch("hsynch", [(3, 3), (2, 2, 1)], v="small", extra=opts(nodes=2, cpus=4), cap=40)
    for r in (1, 2, 3):
        for nd, cp in ((1, 8), (2, 2), (2, 4), (3, 3)):
            js += synch("hsynch", [(2, 2), (1, 1, 1)], extra=opts(regions=r, nodes=nd, cpus=cp))
    for nd, cp in ((2, 2), (2, 4)):
        js += synch("hsynch", [(2, 2), (2, 1, 1), (1, 1, 1, 1)], extra=opts(nodes=nd, cpus=cp), cap=40)
    js += synch("dsmsynch", [(1, 1, 1, 1)]) + synch("ccsynch", [(1, 1, 1, 1)])
    js += joining("hsynch") + joining("ccsynch", nodes=False) + joining("dsmsynch", nodes=False)
    js += wide(("ccsynch", "dsmsynch", "hsynch"), deep)
    if deep:
        for h in ("ccsynch", "dsmsynch", "hsynch"):
            js += synch(h, [(2, 2, 1), (2, 2, 2), (3, 2, 2), (4, 4), (5, 5), (3, 1, 1), (2, 1, 1, 1), (2, 2, 1, 1), (1, 1, 1, 1, 1)], cap=1500, maxstates=60000000)
            js += synch(h, [(1, 1, 1), (2, 2), (2, 1, 1)], extra=opts(tso=1), fair=False, cap=900, maxstates=60000000)
        js += synch("hsynch", [(2, 2, 1), (2, 1, 1, 1)], extra=opts(nodes=2, cpus=2), cap=1500, maxstates=60000000)
    return js

@prop("C02")
def c02(deep):
    js = []
    sh = [(1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (1, 3), (3, 2), (1, 1, 1)]
    for h in ("oyama", "fc", "osci"):
        js += synch(h, sh)
        for v in ("nocompact", "emul", "nonuma"): js += synch(h, [(2, 2)], v=v)
        js += synch(h, [(2, 2)], extra=opts(cinit=1), init=0)
        for m in (0, 1): js += synch(h, [(2, 2)], extra=opts(model=m))
        js += synch(h, [(2, 2)], extra=opts(oversub=1))
        js += synch(h, [(1, 1), (2, 1), (1, 2)], extra=opts(tso=1), fair=False)
        js += synch(h, [(2, 1, 1), (3, 3)], cap=30)
        js += synch(h, [(1, 1), (2, 2), (3, 3), (4, 2), (5, 3), (1, 1, 1), (2, 1, 1)], v="small", cap=40)
    # osci: fibers
    for groups, u, sh in (("0,0", 2, [(2, 2), (3, 3)]), ("0,0,1,1", 2, [(2, 1, 1, 1)]), ("0,0,1", 2, [(2, 2, 1)])): js += synch("osci", sh, v="small", extra=opts(groups=groups, uthreads=u))
    for groups, u, sh in (("0,0", 2, [(1, 1), (2, 2)]), ("0,0,1,1", 2, [(1, 1, 1, 1), (2, 1, 1, 1), (1, 1, 2, 1)]), ("0,0,0,1,1,1", 3, [(1, 1, 1, 1, 1, 1)])):
        js += synch("osci", sh, extra=opts(groups=groups, uthreads=u))
    js += joining("osci", nodes=False, groups=(("0,0", 2, [(1, 1), (2, 2)]), ("0,0,1,1", 2, [(1, 1, 1, 1)]), ("0,0,1", 2, [(1, 1, 1)])))
    for h in ("oyama", "fc"): js += joining(h, nodes=False)
    js += wide(("oyama", "fc", "osci"), deep) + wide(("osci",), deep, groups="0,0", uthreads=2)
    if deep:
        for h in ("oyama", "fc", "osci"):
            js += synch(h, [(2, 2, 1), (2, 2, 2), (4, 4), (3, 1, 1), (1, 1, 1, 1), (2, 1, 1, 1)], cap=1500, maxstates=60000000)
            js += synch(h, [(1, 1, 1), (2, 2)], extra=opts(tso=1), fair=False, cap=900, maxstates=60000000)
        js += synch("osci", [(2, 2, 2, 2), (3, 2, 2, 1), (2, 2, 2, 2)], extra=opts(groups="0,0,1,1", uthreads=2), cap=1500, maxstates=60000000)
        js += synch("osci", [(1, 1, 1, 1, 1, 1), (2, 1, 1, 1, 1, 1)], extra=opts(groups="0,0,1,1,2,2", uthreads=2), cap=1500, maxstates=60000000)
    return js

def joining(h, nodes=True, groups=None):
    """registration while others already work, on one and on several NUMA nodes, with every thread model"""
    js = []
    envs = [dict()] + ([dict(nodes=2, cpus=2), dict(nodes=2, cpus=4), dict(nodes=2, cpus=2, regions=2), dict(nodes=3, cpus=3, regions=3), dict(cpus=8, regions=2)] if nodes else [])
    for e in envs:
        for v in ("base", "small"):
            for i in (0, 1): js += synch(h, [(1, 1), (2, 2)] + ([(1, 1, 1)] if v == "base" else [(2, 1, 1)]), v=v, extra=opts(cinit=1, pb=None if v == "base" and i == 0 else 2, **e), fair=v == "base" and i == 0, init=i, cap=40)
        js += synch(h, [(2, 1)], extra=opts(cinit=1, oversub=1, **e), init=0) + synch(h, [(2, 1)], extra=opts(cinit=1, model=1, **e), init=0) + synch(h, [(2, 1)], extra=opts(cinit=1, model=0, **e), init=0)
        js += synch(h, [(2, 2)], extra=opts(oversub=1, model=0, **e))
    for g, u, sh in (groups or ()):
        js += synch(h, sh, extra=opts(cinit=1, groups=g, uthreads=u), init=0, cap=40) + synch(h, sh, v="small", extra=opts(groups=g, uthreads=u), cap=40)
    return js

def wide(hs, deep, **kw):
    """wide arguments and results; special ones, alone and among others"""
    js = []
    for h in hs:
        for m in (1, 2, 3, 4, 5, 6): js += synch(h, [(2, 2)], extra=opts(amap=m, **kw))
        for i, x in enumerate(SPECIAL):
            js += synch(h, [(2, 1)], extra=opts(special=1, sarg=x, sres=7, **kw)) + synch(h, [(2, 1)], extra=opts(special=1, sarg=5, sres=x, **kw)) + synch(h, [(1, 1)], extra=opts(special=1, sarg=x, sres=x, **kw))
            if deep or i < 6: js += synch(h, [(1, 1, 1)], extra=opts(special=1, sarg=x, sres=x, pb=2, **kw), fair=False)
    return js
SPECIAL = [0, 2**63 - 1, -2**63, -2**63 + 1, -1, -2, 2**31 - 1, 2**31, 2**32 - 1, 2**32, -2**31, -2**31 - 1, 2**62, 2**48, 2**53 + 1, 1, 2, 3, 255, 256]

PIDSETS = [("0,65", 70), ("63,64", 65), ("64,127", 128), ("5,133", 140)]
BIGSETS = [("S%d" % 2**62, "F1", "G"), ("S%d" % (2**31 - 1), "S%d" % 2**31, "G"), ("S%d" % (2**32 - 1), "F-1", "G"), ("S%d" % 2**32, "S0", "F%d" % -2**62, "G"), ("F%d" % -2**63, "F%d" % (2**39), "S1")]
@prop("C03")
def c03(deep):
    js = rmw("sim", [(1, 1), (2, 1), (1, 2)])
    js += rmw("sim", [(2, 2)], cap=40)
    for p, n in PIDSETS: js += rmw("sim", [(1, 1), (2, 1)], extra=opts(pids=p, n=n), reads=False) + rmw("sim", [(2, 2)], extra=opts(pids=p, n=n), reads=False, cap=60, maxstates=20000000)
    for n in (3, 31, 32, 33, 64, 200): js += rmw("sim", [(1, 1), (2, 1)], extra=opts(pids="0,%d" % (n - 1), n=n), reads=False)
    for v in ("nonuma", "emul", "nobackoff", "nocompact"): js += rmw("sim", [(2, 1)], v=v, reads=False)
    js += rmw("sim", [(2, 1)], extra=opts(backoff=2), reads=False)
    js += rmw("sim", [(1, 1), (2, 1)], extra=opts(cinit=1), reads=False)
    js += rmw("sim", [(2, 1), (1, 2)], extra=opts(oversub=1), reads=False)
    js += rmw("sim", [(3, 1)], reads=False, cap=40)
    js += swaps("sim", [(2, 1), (2, 2)], kinds=("S0", "S1", "F1"), cap=40)
    js += rmw("sim", [(2, 1), (3, 1), (4, 1), (2, 2)], v="small", reads=False, cap=40) + rmw("sim", [(5, 1), (6, 1), (3, 2)], v="small", reads=False, cap=60) + swaps("sim", [(3, 1)], v="small", kinds=("S0", "S1"), cap=40)
    js += rmw("sim", [(5, 1), (6, 1)], reads=False, cap=60, maxstates=14000000)
    js += rmw("sim", [(1, 1)], extra=opts(tso=1), reads=False, nb=False, cap=30)
    js += rmw("sim", [(1, 1, 1)], reads=False, cap=60, maxstates=14000000)
    js += rmw("sim", [(1, 1, 1)], reads=False, cap=80, maxstates=40000000, extra=opts(pids="0,64,130", n=131, pb=2), nb=False)
    for k in BIGSETS: js += swaps("sim", [(1, 1), (2, 1)], kinds=k)
    if deep:
        js += rmw("sim", [(1, 1, 1), (3, 2), (2, 3), (3, 3)], cap=1500, maxstates=80000000)
        js += rmw("sim", [(2, 1)], extra=opts(tso=1), reads=False, nb=False, cap=1500, maxstates=80000000)
        js += rmw("sim", [(2, 1, 1), (2, 2, 2)], extra=opts(pb=3), reads=False, nb=False, cap=1500, maxstates=80000000)
        js += rmw("sim", [(1, 1, 1)], extra=opts(pids="0,64,130", n=131), reads=False, cap=1500, maxstates=80000000)
    return js

@prop("C04")
def c04(deep):
    js = rmw("lfuobject", [(1, 1), (2, 1), (2, 2), (3, 3), (1, 1, 1), (2, 2, 1), (1, 1, 1, 1)])
    js += rmw("lfuobject", [(2, 2, 2), (3, 2, 1), (2, 1, 1, 1)], reads=False)
    for v in ("nobackoff", "nonuma", "emul"): js += rmw("lfuobject", [(2, 2), (1, 1, 1)], v=v)
    for s in (-1, 2**62, -2**63, 2**63 - 1, 2**31, -2**31): js += rmw("lfuobject", [(2, 2)], extra=opts(specarg=s), reads=False)
    js += rmw("lfuobject", [(2, 2), (1, 1, 1)], extra=opts(tso=1), nb=False, reads=False)
    js += rmw("lfuobject", [(2, 2)], extra=opts(cinit=1), reads=False)
    js += swaps("lfuobject", [(1, 1), (2, 1), (2, 2), (1, 1, 1)]) + swaps("lfuobject", [(3, 1), (2, 1, 1)], kinds=("S0", "S1", "F1")) + swaps("lfuobject", [(2, 1)], v="nobackoff")
    for k in BIGSETS: js += swaps("lfuobject", [(1, 1), (2, 1), (2, 2), (1, 1, 1)], kinds=k)
    if deep:
        js += rmw("lfuobject", [(3, 3, 3), (4, 4), (2, 2, 2, 2), (3, 2, 2, 1), (1, 1, 1, 1, 1), (2, 1, 1, 1, 1)], reads=False, cap=1500, maxstates=80000000)
        js += rmw("lfuobject", [(2, 2, 2), (3, 2, 1), (2, 1, 1, 1)], cap=600)
        js += rmw("lfuobject", [(2, 2, 2)], extra=opts(tso=1), nb=False, reads=False, cap=900)
    return js

def blocking_containers(hs, spec, deep, fibers, regions):
    js = []
    for h in hs:
        big = h.startswith("fc")
        js += container(h, spec, [(1, 1), (2, 1), (1, 2), (2, 2)], (0, 1, 2), fair=True)
        js += container(h, spec, [(3, 1), (1, 3)], (0, 1), fair=True)
        js += container(h, spec, [(1, 1, 1)], (0, 1) if not big else (0, 1), fair=True, cap=40)
        for v in ("norecycle", "nocompact", "nonuma", "emul"): js += container(h, spec, [(2, 2)], (0, 1), v=v, canon=True)
        js += container(h, spec, [(2, 2)], (0,), extra=opts(cinit=1), canon=True)
        js += container(h, spec, [(1, 1), (2, 1)], (0, 1), extra=opts(tso=1))
        js += container(h, spec, [(2, 2)], (1,), extra=opts(model=0), canon=True)
        js += container(h, spec, [(2, 2)], (1,), extra=opts(oversub=1), canon=True)
        js += container(h, spec, [(1, 1), (2, 2)], (0, 1), v="small", fair=True, canon=True, cap=40) + container(h, spec, [(1, 1, 1)], (1,), v="small", fair=True, canon=True, cap=40)
        js += container(h, spec, [(1, 1)], (1,), extra=opts(cinit=1, oversub=1), canon=True)
        if regions and h.startswith("h"):
            for r in ((None, 2, 2), (None, 2, 4), (2, 2, 2)): js += container(h, spec, [(1, 1), (2, 1)], (0,), extra=opts(cinit=1, regions=r[0], nodes=r[1], cpus=r[2]), fair=True, canon=True, cap=40) + container(h, spec, [(1, 1, 1)], (0,), extra=opts(cinit=1, pb=1, regions=r[0], nodes=r[1], cpus=r[2]), canon=True, cap=40)
        if regions:
            for r in ((1, 2, 2), (2, 2, 2), (None, 2, 2), (None, 2, 4), (1, 1, 8)) if h.startswith("h") else ():
                js += container(h, spec, [(2, 2)], (0, 1), extra=opts(regions=r[0], nodes=r[1], cpus=r[2]), fair=True, canon=True)
                js += container(h, spec, [(1, 1, 1)], (0,), extra=opts(regions=r[0], nodes=r[1], cpus=r[2]), fair=True, canon=True)
        if h in fibers:
            js += container(h, spec, [(2, 2)], (0, 1), extra=opts(groups="0,0", uthreads=2), fair=True)
            js += container(h, spec, [(1, 1, 1, 1)], (0, 1), extra=opts(groups="0,0,1,1", uthreads=2), fair=True, canon=False)
        js += container(h, spec, [(2, 1, 1)], (0, 1), canon=True, cap=30, maxstates=3000000, extra=opts(pb=2))
        if deep:
            js += container(h, spec, [(3, 3)], (0, 1, 2), fair=True, cap=600, maxstates=60000000, canon=True)
            js += container(h, spec, [(2, 1, 1)], (0, 1, 2), fair=True, cap=600, maxstates=60000000, canon=True)
            js += container(h, spec, [(2, 2)], (0, 1), extra=opts(tso=1), cap=600, maxstates=60000000, canon=True)
            js += container(h, spec, [(2, 2, 1)], (0, 1), cap=600, maxstates=60000000, canon=True)
            js += container(h, spec, [(1, 1, 1, 1)], (0, 1), cap=600, maxstates=60000000, canon=True)
            js += container(h, spec, [(2, 2, 2)], (1,), extra=opts(pb=3), cap=600, maxstates=60000000, canon=True)
    return js

@prop("C05")
def c05(deep): return blocking_containers(Q_BLOCK, "queue", deep, ("osciqueue",), True)
@prop("C09")
def c09(deep): return blocking_containers(S_BLOCK, "stack", deep, ("oscistack",), True)

def lockfree(h, spec, deep, extra_v=("nonuma", "nobackoff", "norecycle", "nocompact", "emul")):
    js = container(h, spec, [(1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3)], (0, 1, 2, 3), nb=True)
    js += container(h, spec, [(3, 3)], (0, 1), nb=True, canon=True)
    js += container(h, spec, [(1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2)], (0, 1, 2), nb=True)
    js += container(h, spec, [(2, 2, 1)], (0, 1), nb=True, canon=True)
    js += container(h, spec, [(1, 1, 1, 1)], (0, 1), nb=True, canon=True, cap=30)
    for v in extra_v: js += container(h, spec, [(2, 2), (1, 1, 1)], (0, 1), v=v, nb=True, canon=True)
    js += container(h, spec, [(2, 2)], (0,), extra=opts(cinit=1), nb=True, canon=True)
    js += container(h, spec, [(2, 2), (1, 1, 1)], (0, 1), extra=opts(tso=1), canon=True)
    if deep:
        js += container(h, spec, [(3, 3)], (0, 1, 2, 3), nb=True, cap=300, maxstates=60000000)
        js += container(h, spec, [(2, 2, 2), (3, 2, 1), (4, 4)], (0, 1, 2), nb=True, canon=True, cap=900, maxstates=80000000)
        js += container(h, spec, [(2, 1, 1, 1), (2, 2, 1, 1), (1, 1, 1, 1, 1)], (0, 1), nb=True, canon=True, cap=900, maxstates=80000000)
        js += container(h, spec, [(3, 3), (2, 2, 1)], (0, 1), extra=opts(tso=1), canon=True, cap=900, maxstates=80000000)
    return js

@prop("C06")
def c06(deep): return lockfree("msqueue", "queue", deep)

@prop("C07")
def c07(deep):
    js = []
    for v in ("ring2", "ring1"):
        js += container("lcrq", "queue", [(1, 1), (2, 1), (1, 2), (2, 2)], (0, 1, 2, 3, 4), v=v, nb=True)
        js += container("lcrq", "queue", [(3, 1), (1, 3), (3, 2), (2, 3)], (0, 2, 3), v=v, nb=True, cap=30)
        js += container("lcrq", "queue", [(1, 1, 1)], (0, 1, 2, 3, 4), v=v, extra=opts(pb=4), cap=30)
        js += container("lcrq", "queue", [(2, 1, 1)], (0, 1, 2, 4), v=v, extra=opts(pb=3), cap=30)
        js += container("lcrq", "queue", [(2, 2, 1)], (0, 3), v=v, extra=opts(pb=2), canon=True, cap=30)
        js += container("lcrq", "queue", [(1, 1, 1, 1)], (0, 2), v=v, extra=opts(pb=2), canon=True, cap=30)
        js += container("lcrq", "queue", [(1, 1), (2, 1)], (0, 2), v=v, extra=opts(tso=1), cap=30, canon=True)
    js += container("lcrq", "queue", [(2, 2)], (0, 2, 4), v="ring2", extra=opts(cinit=1) , nb=True, canon=True)
    js += container("lcrq", "queue", [(1, 1), (2, 2)], (0, 1, 2), v="ring0", extra=opts(pb=3))
    js += container("lcrq", "queue", [(2, 2), (3, 2)], (0, 1, 3), v="ringdef", extra=opts(pb=3))
    js += container("lcrq", "queue", [(1, 1, 1)], (0, 1, 3), v="ringdef", extra=opts(pb=3))
    js += container("lcrq", "queue", [(1, 1, 1)], (0, 1), v="ring3", extra=opts(pb=4), canon=True)
    if deep:
        for v in ("ring1", "ring2"):
            js += container("lcrq", "queue", [(1, 1, 1)], (0, 1, 2, 3, 4), v=v, nb=True, cap=1200, maxstates=80000000)
            js += container("lcrq", "queue", [(3, 3), (4, 2)], (0, 2, 3), v=v, nb=True, cap=600, maxstates=80000000)
            js += container("lcrq", "queue", [(2, 1, 1), (2, 2, 1), (2, 2, 2)], (0, 1, 2, 4), v=v, extra=opts(pb=4), cap=600, maxstates=80000000, canon=True)
            js += container("lcrq", "queue", [(2, 2)], (0, 2, 4), v=v, extra=opts(tso=1), cap=600, maxstates=80000000, canon=True)
            js += container("lcrq", "queue", [(1, 1, 1, 1)], (0, 2, 3), v=v, extra=opts(pb=3), cap=600, maxstates=80000000, canon=True)
        js += container("lcrq", "queue", [(1, 1), (2, 1), (2, 2)], (0, 1, 2), v="ring0", nb=True, cap=600, maxstates=80000000, canon=True)
    return js

def simcontainer(h, spec, deep):
    js = container(h, spec, [(1, 1), (2, 1), (1, 2), (2, 2)], (0, 1, 2), nb=True)
    js += container(h, spec, [(3, 1), (1, 3)], (0, 1), nb=True, cap=30)
    for p, n in PIDSETS: js += container(h, spec, [(2, 1)] if n > 65 else [(2, 1), (2, 2)], (0, 1), nb=True, extra=opts(pids=p, n=n), cap=30, canon=True)
    for n in (3, 32, 64): js += container(h, spec, [(1, 1)], (0, 1), nb=True, extra=opts(pids="0,%d" % (n - 1), n=n))
    for v in ("norecycle", "nonuma", "nocompact", "nobackoff", "emul"): js += container(h, spec, [(2, 1)], (0, 1), v=v, nb=True, canon=True)
    js += container(h, spec, [(2, 2)], (0, 1), nb=True, v="norecycle", canon=True)
    js += container(h, spec, [(1, 1)], (0, 1), extra=opts(tso=1), cap=30)
    js += container(h, spec, [(1, 1), (2, 1)], (0,), nb=True, extra=opts(cinit=1), cap=30)
    js += container(h, spec, [(2, 1)], (1,), nb=True, extra=opts(oversub=1), canon=True)
    js += container(h, spec, [(1, 1, 1)], (0, 1, 2), extra=opts(pb=3), maxstates=14000000, canon=True)
    js += container(h, spec, [(1, 1, 1)], (0, 1), extra=opts(pb=4), maxstates=14000000, canon=True)
    js += container(h, spec, [(2, 1, 1)], (0,), extra=opts(pb=3), maxstates=14000000, canon=True) + container(h, spec, [(2, 1, 1)], (1,), extra=opts(pb=3 if deep else 2), maxstates=14000000, canon=True)
    js += container(h, spec, [(1, 1, 1)], (0, 1), extra=opts(pb=1, pids="0,64,130", n=131), maxstates=14000000, canon=True)
    js += container(h, spec, [(2, 2, 1)], (0, 1), extra=opts(pb=1), maxstates=14000000, canon=True)
    js += container(h, spec, [(3, 1), (4, 1), (1, 4), (2, 2)], (0, 1), v="small", nb=True, canon=True)
    js += container(h, spec, [(3, 2)], (0, 1), nb=True, cap=30, canon=True)
    if deep:
        js += container(h, spec, [(1, 1, 1)], (0, 1, 2), nb=True, cap=1500, maxstates=100000000)
        js += container(h, spec, [(3, 3)], (0, 1, 2), nb=True, cap=600, maxstates=100000000, canon=True)
        js += container(h, spec, [(2, 2, 1), (2, 2, 2), (1, 1, 1, 1)], (0, 1), extra=opts(pb=3), cap=900, maxstates=100000000, canon=True)
        js += container(h, spec, [(2, 1, 1)], (0, 1, 2), extra=opts(pb=4), cap=900, maxstates=100000000, canon=True)
        js += container(h, spec, [(1, 1, 1)], (0, 1), extra=opts(pb=3, pids="0,64,130", n=131), cap=900, maxstates=100000000, canon=True)
        js += container(h, spec, [(2, 1)], (0, 1), extra=opts(tso=1), cap=900, maxstates=100000000)
    return js
@prop("C08")
def c08(deep): return simcontainer("simqueue", "queue", deep)
@prop("C10")
def c10(deep): return lockfree("lfstack", "stack", deep) + simcontainer("simstack", "stack", deep)

# ------------------------------------------------------------------ hash tables
def hashjobs(h, shapes, keys, cells, inits=((),), v="base", extra=(), fair=True, cap=None, maxstates=None, kinds="ISD", canon=True):
    js = []
    alphabet = [k + str(x) for k in kinds for x in keys]
    for shape in shapes:
        seen = set()
        for threads in itertools.product(*[combos(alphabet, k) for k in shape]):
            if canon and len(shape) > 1:
                c = tuple(sorted(threads))
                if c in seen: continue
                seen.add(c)
            if not any(o[0] != "S" for t in threads for o in t): continue
            for init in inits:
                js.append(Job(h, opts(prog="/".join(",".join(t) for t in threads), init=",".join(init) or None, drain=",".join("S%s" % k for k in keys),
                                      spec="set", specarg=2, cells=cells, poison=1, fair=fair) + list(extra), v=v, cap=cap, maxstates=maxstates))
    return js
I64 = 2**63
@prop("C11")
def c11(deep):
    js = []
    for h in ("clhhash", "dsmhash"):
        # two keys in one bucket, one bucket / several buckets
        js += hashjobs(h, [(1, 1)], (1, 2), 1, inits=((), ("I1",), ("I1", "I2"), ("I2", "I1")))
        js += hashjobs(h, [(1, 1)], (1, 2, 4), 3, inits=((), ("I1", "I4")))
        js += hashjobs(h, [(2, 1)], (1, 2), 1, inits=((), ("I1", "I2")))
        js += hashjobs(h, [(2, 2)], (1, 2), 1, inits=(("I1",),), kinds="ID")
        js += hashjobs(h, [(1, 1, 1)], (1, 2), 1, inits=((), ("I1", "I2")), cap=30)
        js += hashjobs(h, [(2, 1)], (1, 3), 2, inits=(("I5",),))
        js += hashjobs(h, [(2, 1)], (1,), 2, inits=((), ("I3", "I1")))
        # sequential histories: chains of three nodes, negative and extreme keys
        js += hashjobs(h, [(3,)], (1, 2, 3), 1, inits=(("I1", "I2", "I3"),))
        js += hashjobs(h, [(4,)], (1, 2), 1, inits=((),))
        js += hashjobs(h, [(3,)], (-1, -2, 0), 2, inits=((), ("I-3", "I-1")))
        js += hashjobs(h, [(2,)], (-I64, I64 - 1, 2**31, -2**31 - 1), 7, inits=((), ("I-1", "I2147483648")))
        js += hashjobs(h, [(1, 1)], (-1, I64 - 1), 2, inits=((), ("I-1",)))
        for v in ("norecycle", "nocompact", "nonuma", "emul"): js += hashjobs(h, [(1, 1)], (1, 2), 1, inits=(("I1",),), v=v)
        js += hashjobs(h, [(2, 1)], (1,), 1, inits=(("I1",),), extra=opts(cinit=1))
        js += hashjobs(h, [(1, 1)], (1, 2), 1, inits=((), ("I1",)), extra=opts(tso=1), fair=False)
        js += hashjobs(h, [(1, 1)], (1, 2), 1, inits=(("I1",),), extra=opts(oversub=1))
        if deep:
            js += hashjobs(h, [(2, 2)], (1, 2), 1, inits=((), ("I1",), ("I1", "I2")), cap=300)
            js += hashjobs(h, [(2, 2)], (1, 2, 3), 2, inits=((), ("I1", "I3")), kinds="ID", cap=300)
            js += hashjobs(h, [(3, 2)], (1, 2), 1, inits=(("I1",),), kinds="ID", cap=300)
            js += hashjobs(h, [(2, 1, 1)], (1, 2), 1, inits=((), ("I1",)), kinds="ID", cap=300)
            js += hashjobs(h, [(1, 1, 1, 1)], (1,), 1, inits=((), ("I1",)), cap=600, maxstates=60000000)
            js += hashjobs(h, [(5,)], (1, 2, 3), 1, inits=((),), kinds="ID")
            js += hashjobs(h, [(2, 1)], (1, 2), 1, inits=((), ("I1",)), extra=opts(tso=1), fair=False, cap=300)
    return js

# ------------------------------------------------------------------ locks
MCS = dict(defines=["H_MCS"], tag="-mcs")
def locks(progs, v="base", cap=None, maxstates=None, **kw):
    return [Job("lock", opts(prog=p, poison=1, **kw), v=v, cap=cap, maxstates=maxstates, **d) for p in progs for d in ({}, MCS)]
@prop("C12")
def c12(deep):
    one = ["L0,L0", "L0/L0", "L0,L0/L0", "L0,L0/L0,L0", "L0,L0,L0/L0,L0,L0", "L0/L0/L0", "L0,L0/L0/L0", "L0,L0/L0,L0/L0"]
    two = ["L0,L1/L1,L0", "N0/N0", "N0,L1/L0,N0", "N0/L0,L1", "L0,L1/L0,L1", "L0,L1,L0/L1,L0,L1", "N0/N0/N0", "N0,N0/L1,L0", "L0/L1/N0"]
    js = locks(one + two, fair=1)
    js += locks(one, fifo=8) + locks(["L0,L1/L1,L0", "L0,L1/L0,L1/L0", "L0/L0/L1,L0"], fifo=8) + locks(["L0,L0/L0,L0/L0,L0"], fifo=8)
    js += locks(["L0/L0/L0/L0"], fifo=8, cap=40) + locks(["L0/L0/L0"], fifo=16, cap=40)
    js += locks(["L0,L0/L0,L0/L0,L0", "L0/L0/L0/L0"], fair=1, cap=40)
    js += locks(["L0/L0", "L0,L0/L0", "L0,L0/L0,L0", "N0/N0", "L0/L0/L0"], tso=1, cap=40)
    for v in ("nonuma", "emul", "nocompact"): js += locks(["L0,L0/L0,L0", "L0/L0/L0"], fair=1, v=v)
    js += locks(["L0,L0/L0,L0", "L0/L0/L0"], fair=1, cinit=1) + locks(["L0,L0/L0,L0"], fair=1, oversub=1)
    js += locks(["L0,L0/L0,L0/L0,L0/L0,L0"], fair=1, groups="0,0,1,1", uthreads=2, cap=40) + locks(["L0,L0/L0,L0"], fair=1, groups="0,0", uthreads=2)
    js += locks(["L0,L0/L0"], fair=1, pids="7,2", n=8)
    if deep:
        js += locks(["L0,L0,L0/L0,L0/L0,L0", "L0,L0/L0,L0/L0/L0", "L0,L0/L0/L0/L0", "L0/L0/L0/L0/L0"], fifo=8, cap=900, maxstates=100000000)
        js += locks(["L0,L0,L0/L0,L0,L0/L0,L0,L0", "L0,L0/L0,L0/L0,L0/L0", "N0,N0/N0,N0/N0", "N0,L0/L1,N0/L0,L1"], fair=1, cap=900, maxstates=100000000)
        js += locks(["L0,L0/L0,L0/L0", "N0,L0/L1,N0", "L0/L0/L0/L0", "L0,L0,L0/L0,L0,L0"], tso=1, cap=900, maxstates=100000000)
    return js

# ------------------------------------------------------------------ progress
STARVE_FREE = ("ccsynch", "dsmsynch", "hsynch", "osci")
@prop("C13")
def c13(deep):
    js = []
    for h in ("ccsynch", "dsmsynch", "hsynch", "oyama", "fc", "osci"):
        js += synch(h, [(1, 1), (2, 2), (3, 2), (1, 1, 1), (2, 1, 1)], cap=30)
        for v in ("nonuma", "emul"): js += synch(h, [(2, 2)], v=v)
        for m in (0, 1): js += synch(h, [(2, 2), (1, 1, 1)], extra=opts(model=m))
        js += synch(h, [(2, 2)], extra=opts(oversub=1))
        js += synch(h, [(2, 2)], extra=opts(cinit=1), init=0)
        js += synch(h, [(1, 1), (2, 2), (3, 2), (1, 1, 1), (2, 1, 1)] + ([(2, 2, 1)] if deep else []), v="small", cap=40)
    for e in (dict(nodes=2, cpus=2), dict(nodes=2, cpus=2, regions=2), dict(nodes=2, cpus=4)): js += synch("hsynch", [(2, 2), (1, 1, 1)], extra=opts(cinit=1, **e), init=0, cap=40)
    for g, u, sh in (("0,0", 2, [(2, 2)]), ("0,0,1,1", 2, [(1, 1, 1, 1)])): js += synch("osci", sh, extra=opts(cinit=1, groups=g, uthreads=u), init=0, cap=40) + synch("osci", sh, v="small", extra=opts(groups=g, uthreads=u), cap=40)
    for nd, cp in ((2, 2), (2, 4)): js += synch("hsynch", [(2, 2), (2, 1, 1)], extra=opts(nodes=nd, cpus=cp), cap=30)
    js += synch("hsynch", [(2, 2), (1, 1, 1)], extra=opts(regions=2, nodes=2, cpus=2), cap=30)
    for g, u, sh in (("0,0", 2, [(2, 2), (3, 1)]), ("0,0,1,1", 2, [(1, 1, 1, 1), (2, 1, 1, 1)]), ("0,0,0", 3, [(2, 2, 2)]), ("0,0,1", 2, [(2, 2, 2)])):
        js += synch("osci", sh, extra=opts(groups=g, uthreads=u), cap=30)
        for h in ("ccsynch", "dsmsynch", "hsynch"): js += synch(h, sh[:1], extra=opts(groups=g, uthreads=u), cap=30)
    # endless clients: under a fair schedule nobody is passed over forever
    for h in STARVE_FREE:
        for n in ((2, 3) if deep else (2,)): js.append(Job(h, opts(prog="/".join("T%d" % (i + 1) for i in range(n)), loop=1), cap=900, maxstates=60000000))
        js.append(Job(h, opts(prog="T1/T2", loop=1, model=0)))
        js.append(Job(h, opts(prog="T1/T2/T3", loop=1), v="o2-small", cap=60, maxstates=4000000))
    js.append(Job("hsynch", opts(prog="T1/T2", loop=1, nodes=2, cpus=2))); 
    if deep: js.append(Job("hsynch", opts(prog="T1/T2/T3", loop=1, nodes=2, cpus=2), cap=900, maxstates=60000000)); js.append(Job("osci", opts(prog="T1/T2/T3/T4", loop=1, groups="0,0,1,1", uthreads=2), cap=900, maxstates=60000000)); js.append(Job("osci", opts(prog="T1/T2/T3", loop=1, groups="0,0,1", uthreads=2), cap=900, maxstates=60000000))
    js.append(Job("osci", opts(prog="T1/T2", loop=1, groups="0,0", uthreads=2)))
    js += [Job("lock", opts(prog="/".join(["L0"] * n), loop=1), cap=40, **d) for n in (2, 3) for d in ({}, MCS)]
    js += [Job("lock", opts(prog=p, loop=1), cap=40, **d) for p in ("N0/N0", "N0/L0/L1", "L0/L1") for d in ({}, MCS)]
    js += locks(["L0,L0/L0,L0", "L0,L0/L0/L0", "N0,L1/L0,N0"], fair=1) + locks(["L0,L0/L0,L0/L0,L0/L0,L0"], fair=1, groups="0,0,1,1", uthreads=2, cap=40)
    for h in Q_BLOCK: js += container(h, "queue", [(2, 2)], (0, 1), fair=True, canon=True) + container(h, "queue", [(1, 1, 1)], (0,), fair=True, canon=True, cap=30)
    for h in S_BLOCK: js += container(h, "stack", [(2, 2)], (0, 1), fair=True, canon=True) + container(h, "stack", [(1, 1, 1)], (0,), fair=True, canon=True, cap=30)
    for h, sp in (("osciqueue", "queue"), ("oscistack", "stack")):
        js += container(h, sp, [(1, 1, 1, 1)], (0, 1), fair=True, canon=True, extra=opts(groups="0,0,1,1", uthreads=2), cap=30)
        js += container(h, sp, [(2, 2)], (0, 1), fair=True, canon=True, extra=opts(groups="0,0", uthreads=2))
    for h in ("clhhash", "dsmhash"): js += hashjobs(h, [(2, 1)], (1, 2), 2, inits=(("I1",),), kinds="ID") + hashjobs(h, [(1, 1, 1)], (1,), 1, inits=((),), cap=30)
    if deep:
        for h in ("ccsynch", "dsmsynch", "hsynch", "oyama", "fc", "osci"): js += synch(h, [(2, 2, 1), (4, 4), (2, 2, 2), (1, 1, 1, 1)], cap=900, maxstates=60000000)
        for h in STARVE_FREE: js.append(Job(h, opts(prog="T1/T2/T3/T4", loop=1), cap=900, maxstates=60000000))
        js += [Job("lock", opts(prog="L0/L0/L0/L0", loop=1), cap=900, maxstates=60000000, **d) for d in ({}, MCS)]
        js += synch("osci", [(2, 2, 2, 2)], extra=opts(groups="0,0,1,1", uthreads=2), cap=900, maxstates=60000000)
        js += synch("osci", [(1, 1, 1, 1, 1, 1)], extra=opts(groups="0,0,0,1,1,1", uthreads=3), cap=900, maxstates=60000000)
        for h in Q_BLOCK: js += container(h, "queue", [(3, 3), (2, 1, 1)], (0, 1), fair=True, canon=True, cap=600, maxstates=60000000)
        for h in S_BLOCK: js += container(h, "stack", [(3, 3), (2, 1, 1)], (0, 1), fair=True, canon=True, cap=600, maxstates=60000000)
    return js

def series(h, name, victim, other, ms, v="base", spec="rmw", cap=60, maxstates=20000000, **kw):
    """one operation of the first thread against m operations of the others: its own step count must not grow with m for ever"""
    return [Job(h, opts(prog="/".join([victim] + [",".join("%s%d" % (o, 10 * (i + 1) + k + 1) if o in "EPF" else o for k in range(m)) for i, o in enumerate(other)]),
                        spec=spec, nb=1, steps=1, poison=1, **kw), v=v, cap=cap, maxstates=maxstates, sat=("%s %s %s" % (h, v, name), m)) for m in ms]
@prop("C14")
def c14(deep):
    js = []
    M = (2, 3, 4, 5) if deep else (2, 3, 4)
    js += series("sim", "update", "F1", "F", M) + series("sim", "pids 0,65", "F1", "F", M, pids="0,65", n=70) + series("sim", "pids 64,63", "F1", "F", M, pids="64,63", n=65)
    js += series("sim", "oversubscribed", "F1", "F", M, oversub=1) + series("sim", "no backoff", "F1", "F", M, v="nobackoff") + series("sim", "backoff 2", "F1", "F", M, backoff=2)
    for v in ("nonuma", "nocompact"): js += series("sim", "update", "F1", "F", M, v=v)   # (emulated fetch-and-add is a retry loop by construction: not wait-free)
    for h, sp, ins in (("simqueue", "queue", "E"), ("simstack", "stack", "P")):
        for vic in (ins + "1", "D"):
            for o in (ins, "D"):
                js += series(h, "%s against %s" % (vic, o), vic, o, M if vic[0] == o[0] else M + (M[-1] + 1,), spec=sp, init="%s101,%s102" % (ins, ins))
            js += series(h, "%s against %s, pids 0,65" % (vic, ins), vic, ins, M, spec=sp, pids="0,65", n=70)
            js += series(h, "%s against %s, no recycling" % (vic, ins), vic, ins, M, spec=sp, v="norecycle")
        # every program of two threads: no execution has a cycle without a completed operation
        js += container(h, sp, [(1, 1), (2, 1), (1, 2), (2, 2)], (0, 1), nb=True, canon=True)
        js += container(h, sp, [(1, 1)], (0,), nb=True, extra=opts(oversub=1))
        js += container(h, sp, [(1, 1)], (0,), nb=True, extra=opts(cinit=1), cap=30)
    js += rmw("sim", [(1, 1), (2, 1), (1, 2), (2, 2)], cap=40) + rmw("sim", [(3, 1)], reads=False, cap=40) + rmw("sim", [(1, 1, 1)], reads=False, cap=60, maxstates=14000000)
    if deep:
        js += rmw("sim", [(1, 1, 1)], extra=opts(pids="0,64,130", n=131), reads=False, cap=1500, maxstates=80000000)
        js += rmw("sim", [(3, 2), (3, 3)], reads=False, cap=900, maxstates=80000000)
        for h, sp in (("simqueue", "queue"), ("simstack", "stack")):
            js += container(h, sp, [(1, 1, 1)], (0, 1), nb=True, cap=1500, maxstates=100000000, canon=True)
            js += container(h, sp, [(3, 2), (3, 3)], (0, 1), nb=True, cap=600, maxstates=100000000, canon=True)
    return js

@prop("C15")
def c15(deep):
    js = []
    for h, sp in (("lfstack", "stack"), ("msqueue", "queue")):
        js += container(h, sp, [(1, 1), (2, 1), (2, 2), (3, 2), (1, 1, 1), (2, 1, 1)], (0, 1, 2), nb=True, canon=True)
        js += container(h, sp, [(2, 2, 1), (1, 1, 1, 1)], (0, 1), nb=True, canon=True, cap=30)
        for v in ("nonuma", "nobackoff", "norecycle", "emul"): js += container(h, sp, [(2, 2)], (0, 1), v=v, nb=True, canon=True)
        js += container(h, sp, [(2, 2)], (0, 1), extra=opts(oversub=1), nb=True, canon=True)
    js += rmw("lfuobject", [(1, 1), (2, 2), (3, 3), (1, 1, 1), (2, 2, 1), (1, 1, 1, 1)])
    for v in ("nobackoff", "nonuma", "emul"): js += rmw("lfuobject", [(2, 2)], v=v)
    for v in ("ring1", "ring2"):
        js += container("lcrq", "queue", [(1, 1), (2, 1), (2, 2), (3, 2)], (0, 1, 2, 3), v=v, nb=True, canon=True, cap=30)
        js += container("lcrq", "queue", [(1, 1, 1)], (0, 2), v=v, nb=True, canon=True, cap=30, extra=opts(pb=3))
    js += container("lcrq", "queue", [(1, 1)], (0, 1), v="ring0", nb=True, canon=True, cap=30) + container("lcrq", "queue", [(1, 1), (2, 1)], (0, 1), v="ringdef", nb=True, canon=True, cap=30, extra=opts(pb=3))
    if deep:
        for h, sp in (("lfstack", "stack"), ("msqueue", "queue")):
            js += container(h, sp, [(3, 3), (2, 2, 2), (2, 1, 1, 1), (1, 1, 1, 1, 1)], (0, 1, 2), nb=True, canon=True, cap=600, maxstates=80000000)
        js += rmw("lfuobject", [(2, 2, 2), (2, 2, 1, 1), (1, 1, 1, 1, 1)], reads=False, cap=900, maxstates=80000000)
        for v in ("ring1", "ring2", "ring0"): js += container("lcrq", "queue", [(1, 1, 1), (3, 3), (2, 1, 1)], (0, 1, 2), v=v, nb=True, canon=True, cap=900, maxstates=80000000)
    return js


# ------------------------------------------------------------------ barrier, threads, fibers
@prop("C16")
def c16(deep):
    js = []
    def b(progs, cap=40, maxstates=None, v="base", **kw): return [Job("barrier", opts(prog=p, fair=1, poison=1, **kw), cap=cap, maxstates=maxstates, v=v) for p in progs]
    rounds = ["/".join([",".join(["W"] * k)] * n) for n, k in ((1, 1), (1, 3), (2, 1), (2, 2), (2, 3), (2, 4), (3, 1), (3, 2), (3, 3), (4, 1), (4, 2))]
    leave = ["W,L/W,Z", "L/Z", "Z", "W,Z", "W,L/W,L/W,Z", "W,W,L/W,W,Z", "W,W,L/W,W,L/W,W,Z", "L/L/Z", "L/L/L/Z", "W,L/W,L/W,L/W,Z"]
    again = ["W,Z,S2,W,L/W,L,B,W,Z", "Z,S2,W,Z/L,B,W,L", "W,Z,S2,W,W,L/W,L,B,W,W,Z", "W,Z,S2,Z,S2,W,L/W,L,B,L,B,W,Z"]
    js += b(rounds + leave + again)
    js += b(["W,Z,S1,W,Z/W,L"], n=2)
    js += b(["W,Z,S3,W,L/W,L,B,W,Z/B,W,L", "W,Z,S3,W,W,L/W,L,B,W,W,Z/B,W,W,L"], n=2, maxstates=20000000)
    js += b(["W,Z,S2,W,L/W,L,B,W,Z/W,L"], n=3)
    js += b(["W/W", "W,W/W,W", "W,W,W/W,W,W", "W,W/W,W/W,W", "W,L/W,Z", "W,L/W,L/W,Z", "W,Z,S2,W,L/W,L,B,W,Z"], tso=1)
    for v in ("emul", "nonuma"): js += b(["W,W,W/W,W,W", "W,W/W,W/W,W", "W,L/W,Z", "W,L/W,L/W,Z"], v=v)
    js += b(["W,W,W/W,W,W/W,W,W/W,W,W"], groups="0,0,1,1", uthreads=2)
    js += b(["W,W,W/W,W,W"], model=0) + b(["W,W,W/W,W,W"], model=1)
    # crowds: participants that only leave
    for m in (1, 5, 40, 254, 255, 256, 300, 1000, 65534, 65535, 65536) + ((100000,) if deep else ()):
        js += b(["M%d,Z" % m] if m > 1000 else ["M%d,Z" % m, "M%d,L/Z" % m, "L/M%d,Z" % m], crowd=m)
    # nobody is stuck or passed over when the rounds never end
    js += [Job("barrier", opts(prog="/".join(["W"] * n), loop=1, poison=1), cap=40) for n in (2, 3)]
    if deep:
        js += b(["/".join([",".join(["W"] * k)] * n) for n, k in ((2, 8), (3, 5), (4, 3), (4, 4), (5, 2), (6, 1))] + ["W,L/W,L/W,L/W,L/W,Z", "W,W,L/W,W,L/W,W,L/W,W,Z"], cap=900, maxstates=100000000)
        js += b(["W,W,W/W,W,W/W,W,W", "W,W/W,W/W,W/W,W", "W,W,L/W,W,L/W,W,Z", "W,Z,S3,W,L/W,L,B,W,Z/B,W,L"], tso=1, cap=900, maxstates=100000000)
        js += b(["W,Z,S4,W,W,L/W,L,B,W,W,Z/B,W,W,L/B,W,W,L"], n=2, cap=900, maxstates=100000000)
    return js

def kslots(rounds): return 1 + sum(n - 1 for n in rounds)
@prop("C17")
def c17(deep):
    js = []
    def k(rounds, cap=40, maxstates=None, v="base", **kw):
        return [Job("threads", opts(prog=",".join("K%d" % n for n in rounds), threads=kslots(rounds), fair=1, poison=1, **kw), cap=cap, maxstates=maxstates, v=v)]
    def f(rounds, cap=60, **kw):   # (n, u): u fibers in each kernel thread; u = 1: kernel threads only
        kw.setdefault("dev", 2)
        return [Job("threads", opts(prog=",".join("F%d" % (n * 256 + u) if u > 1 else "K%d" % n for n, u in rounds), threads=1 + sum(n // u - 1 for n, u in rounds), realsched=1, **kw), cap=cap, stateless=True, maxstates=100000000)]
    for r in ((1,), (2,), (3,), (4,), (1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (2, 3), (1, 3, 1), (2, 2, 2), (3, 3)):
        js += k(r) + k(r, cpus=1)
    for r in ((2,), (3,), (2, 3), (3, 1, 2)): js += k(r, cpus=2) + k(r, sync=1) + k(r, nofib=1)
    for v in ("nonuma", "emul"): js += k((3,), v=v) + k((2, 2), v=v)
    js += k((2,), tso=1) + k((3,), tso=1) + k((2, 2), tso=1)
    for nu in ((2, 2), (4, 4), (4, 2), (6, 2), (6, 3)):
        js += f((nu,)) + f((nu,), sync=1) + f((nu,), resched=2, cpus=1)
    for r in (((4, 2), (2, 1)), ((2, 1), (4, 2)), ((2, 2), (4, 4)), ((4, 4), (2, 2)), ((4, 2), (4, 2)), ((3, 3), (3, 1)), ((2, 1), (2, 2), (2, 1)), ((4, 2), (3, 1), (4, 4)), ((3, 1), (3, 3))):
        js += f(r) + f(r, cpus=1, sync=1, dev=1)
    js += f(((8, 4),), dev=1) + f(((8, 2),), dev=1) + f(((2, 1), (2, 1)), dev=3)
    for nu in ((15, 1), (30, 2), (32, 8), (32, 16), (32, 32), (30, 10), (24, 3), (31, 31)): js += f((nu,), dev=0) + f((nu,), dev=0, sync=1, cpus=4)
    js += f(((15, 1),), dev=1) + f(((32, 16),), dev=1) + f(((12, 3), (5, 1), (16, 16)), dev=0) + f(((8, 1),), dev=1) + f(((5, 1),), dev=2)
    if deep:
        js += k((5,), cap=900, maxstates=100000000) + k((4, 3), cap=900, maxstates=100000000) + k((4,), tso=1, cap=900, maxstates=100000000) + k((3, 3, 3), cap=900, maxstates=100000000)
        for nu in ((4, 2), (6, 3), (6, 2)): js += f((nu,), dev=4, cap=900) + f((nu,), dev=3, sync=1, cap=900)
        for r in (((4, 2), (2, 1)), ((4, 2), (4, 2)), ((4, 2), (6, 3)), ((6, 3), (4, 2)), ((6, 2), (4, 4), (3, 1))): js += f(r, dev=3, cap=900)
        js += f(((12, 4),), cap=900) + f(((9, 3),), cap=900) + f(((10, 5),), cap=900)
    return js

@prop("C18")
def c18(deep):
    js = []
    def f(*b, **kw): return [Job("fibers", opts(prog="/".join("I%d,B%d" % x for x in b), realsched=1, **kw), stateless=True, cap=60 if not deep else 900, maxstates=1000000000)]
    for m in (1, 2, 3, 4, 5): js += f((m, 5)) + f((m, 6))
    js += f((2, 7)) + f((3, 7)) + f((4, 7))
    for m in ((1, 6), (7, 3), (8, 12), (15, 16, 17), (33, 20), (64, 5, 64), (130,), (257, 10)) + (((500, 3), (900,)) if deep else ()):
        for v in ("base", "o2", "nonuma"): js += [Job("fibers", opts(prog=",".join("M%d" % x for x in m), realsched=1), v=v, stateless=True)]
    js += f((2, 2), (2, 2), dev=2) + f((3, 2), (3, 2), dev=2) + f((2, 3), (3, 2), dev=1) + f((3, 1), (3, 3), dev=1) + f((3, 2), (2, 2), dev=3)
    if deep:
        js += f((3, 8)) + f((4, 8)) + f((2, 9)) + f((5, 8)) + f((3, 3), (3, 3), dev=2) + f((2, 2), (2, 2), (2, 2), dev=2) + f((3, 4), (3, 3), dev=1)
    return js

# ------------------------------------------------------------------ pools
@prop("C19")
def c19(deep):
    js = []
    def z(sizes, budget, cap=100, v="base", **kw): return [Job("pool", opts(prog=",".join("Z%d" % s for s in sizes), choose=1, budget=budget, recycling=0 if v == "norecycle" else None, **kw), v=v, cap=cap, maxstates=20000000)]
    B = 33554432
    big, third, half = 4294967295, 11184800, 16777200
    for s in (1, 2, 7, 8, 9, 15, 16, 17, 24, 32, 63, 64, 65, 100, 127, 128, 129, 4095, 4096, 65536): js += z((s,), 6)
    js += z((16,), 8) + z((64,), 7) + z((16, 1), 5) + z((8, 24), 5)
    js += z((B - 32, B - 31, B, B + 1, big), 5) + z((B - 64, B - 33, B - 16, B - 1, 2 * B, big - 1), 4) + z((third, half, B // 2), 7) + z((third, half), 5, pools=2) + z((third,), 9) + z((B - 32,), 7) + z((8388592,), 8)
    for v in ("nonuma", "debug", "norecycle", "nocompact"): js += z((16,), 6, v=v) + z((third, half), 6, v=v) + z((B - 32, B + 1), 4, v=v)
    if deep:
        js += z((16,), 11, cap=900) + z((16, 64), 6, cap=900) + z((third, half), 8, cap=900) + z((third,), 12, cap=900) + z((third, half), 6, cap=900, pools=2) + z((8388592,), 11, cap=900) + z((B - 32, B - 31, B, B + 1, big), 7, cap=900)
        for s in range(1, 130): js += z((s,), 6)
    return js

# ------------------------------------------------------------------ memory safety: every kind of object in every supported shape
ALLV = ("nonuma", "nocompact", "norecycle", "debug", "emul", "nobackoff")
def safe(h, prog, v="base", defines=(), tag="", init=None, drain=None, cap=30, maxstates=3000000, stateless=False, **kw):
    return [Job(h, opts(prog=prog, init=init, drain=drain, poison=1, **kw), v=v, cap=cap, maxstates=maxstates, defines=defines, tag=tag, stateless=stateless)]
@prop("C20")
def c20(deep):
    js = []
    one, two, three = 1, 2, 3
    NS = (1, 2, 3, 5, 8, 31, 32, 33, 63, 64, 65, 127, 128, 129, 130, 192, 200)
    NSD = tuple(range(1, 70)) + (126, 127, 128, 129, 130, 131, 191, 192, 193, 255, 256, 257, 300, 512)
    ns = NSD if deep else NS
    pb = None if deep else 2
    CB = [("ccsynch", 0), ("dsmsynch", 0), ("hsynch", 0), ("oyama", 0), ("fc", 0), ("osci", 0), ("sim", 1), ("lfuobject", 1)]
    for h, rm in CB:
        ops = (lambda t, k: ",".join(("F%d" if rm else "A%d") % (10 * t + i + 1) for i in range(k)))
        dr = "G0" if rm else "R0,R1,R2"
        for n in ns:
            if n == 1: js += safe(h, ops(0, 3), drain=dr, n=1)
            else: js += safe(h, ops(0, 2) + "/" + ops(1, 1), drain=dr, n=n, pids="0,%d" % (n - 1), pb=1)
        for v in ALLV: js += safe(h, ops(0, 2) + "/" + ops(1, 1), drain=dr, v=v, pb=1) + safe(h, ops(0, 2) + "/" + ops(1, 1), drain=dr, v=v, n=70, pids="0,69", pb=1)
        js += safe(h, ops(0, 2) + "/" + ops(1, 1) + "/" + ops(2, 1), drain=dr, pb=1, cinit=1, oversub=1)
    for nd, cp in ((1, 1), (2, 2), (2, 4), (3, 3), (3, 6), (4, 4), (1, 8)):
        for r in (None, 1, 2, 3, 4):
            for n in (1, 2, 3, 5, 8):
                for h, o in (("hsynch", "A%d"), ("hqueue", "E%d"), ("hstack", "P%d")):
                    pr = "/".join(o % (t + 1) + ("" if o[0] == "A" else ",D") for t in range(min(n, 2 if not deep else 3)))
                    for v in ("base", "nonuma"): js += safe(h, pr, v=v, n=n, pids=",".join(str(x) for x in ((0, n - 1) if n > 1 else (0,))[:min(n, 2)]) if not deep or n < 3 else "0,%d,%d" % (n // 2, n - 1), pb=1, nodes=nd, cpus=cp, regions=r, drain="R0" if o[0] == "A" else "D")
    for h in Q_BLOCK + S_BLOCK + ["simqueue", "simstack", "msqueue", "lfstack"]:
        e = "E" if "queue" in h else "P"
        for n in ns:
            if n == 1: js += safe(h, "%s1,D,%s2,%s3,D,D,D" % (e, e, e), n=1)
            else: js += safe(h, "%s1,D/%s2" % (e, e), n=n, pids="0,%d" % (n - 1), pb=1, drain="D,D,D") + safe(h, "D,%s1/D" % e, n=n, pids="0,%d" % (n - 1), pb=1, drain="D,D,D", init="%s9" % e)
        for v in ALLV: js += safe(h, "%s1,D/%s2,D" % (e, e), v=v, pb=1, init="%s9" % e, drain="D,D") + safe(h, "%s1,D/%s2,D" % (e, e), v=v, n=70, pids="0,69", pb=1, drain="D,D")
        js += safe(h, "%s1,D/%s2,D/%s3" % (e, e, e) if h not in ("hqueue", "hstack") else "%s1,D/%s2,D" % (e, e), pb=1, cinit=1, oversub=1, drain="D,D,D")
    for h in ("osci", "osciqueue", "oscistack"):
        for g, u in (("0,0", 2), ("0,0,0", 3), ("0,0,1,1", 2), ("0,0,1", 2), ("0,1", 1), ("0,0,0,1", 3), ("0,0,0,0", 4)):
            k = len(g.split(","))
            pr = "/".join(("A%d" % (t + 1)) if h == "osci" else ("E%d,D" if "queue" in h else "P%d,D") % (t + 1) for t in range(k))
            for v in ("base", "nocompact", "nonuma", "norecycle"): js += safe(h, pr, v=v, groups=g, uthreads=u, pb=1)
            if k > 1 and u > 1: js += safe(h, pr, groups=g, uthreads=u, pb=1, cinit=1)
    for v in ("ring0", "ring1", "ring2", "ring3", "ringdef"):
        js += safe("lcrq", "E1,E2,D/D,E3", v=v, pb=2, init="E7", drain="D,D,D,D") + safe("lcrq", "E1,E2,E3,E4,E5,E6,E7,E8,E9,D,D,D,D,D,D,D,D,D,D", v=v) + safe("lcrq", "E1/E2/D", v=v, pb=1, cinit=1, drain="D,D,D")
        for n in (1, 2, 64, 65, 130): js += safe("lcrq", "E1,D" + ("" if n == 1 else "/E2,D"), v=v, n=n, pids="0" if n == 1 else "0,%d" % (n - 1), pb=1, drain="D,D")
    for h in ("clhhash", "dsmhash"):
        for n in (1, 2, 3, 64, 65, 130):
            for c in (1, 2, 3, 7, 64, 100):
                js += safe(h, "I1,I2,D1,S2,D2" if n == 1 else "I1,D1/I2,S1", n=n, pids="0" if n == 1 else "0,%d" % (n - 1), pb=1, cells=c, init="I-1,I%d" % (I64 - 1), drain="S1,S2,D-1,S-1")
        for v in ALLV: js += safe(h, "I1,D1,I3/I2,S1,D3", v=v, pb=1, cells=2, init="I3", drain="S1,S2")
        js += safe(h, "I1,D1/I2,S1/D2", pb=1, cinit=1, cells=2)
    for d in ({}, MCS):
        for n in (2, 3, 64, 65, 130): js += [Job("lock", opts(prog="L0,L1/L0,N0", pids="0,%d" % (n - 1), n=n, poison=1, pb=2), **d)]
        for v in ALLV: js += [Job("lock", opts(prog="L0,L1/L0,N0/L1", poison=1, pb=1, cinit=c), v=v, **d) for c in (None, 1)]
    for v in ("base",) + ALLV: js += safe("barrier", "W,W/W,W/W,W", v=v) + safe("barrier", "W,Z,S2,W,L/W,L,B,W,Z", v=v)
    for n in (1, 2, 3):
        for v in ("base", "nonuma", "debug"): js += safe("threads", "K%d,K%d" % (n, n), threads=kslots((n, n)), v=v, pb=1)
    js += safe("threads", "K4", threads=4, pb=0)
    for n in (5, 8): js += [Job("threads", opts(prog="K%d,K%d" % (n, n), threads=kslots((n, n)), realsched=1, dev=0), stateless=True)]
    for m in (1, 2, 3, 4, 5, 8): js += [Job("fibers", opts(prog="I%d,B5" % m, realsched=1), stateless=True)]
    for n in (1, 2, 63, 64, 65, 127, 128, 129, 192): js += [Job("tvec", opts(n=n, choose=1, budget=2))]
    for s in (1, 8, 64, 100): js += [Job("pool", opts(prog="Z%d" % s, choose=1, budget=6))]
    js += [Job("placement", opts(prog="X", choose=1)), Job("placement", opts(prog="X", choose=1, maxnodes=1, flat=1), v="nonuma")]
    js += [Job("args", opts(prog="X", budget=2, values=4), stateless=True)]
    if deep:
        # unbounded preemptions, small shapes
        for h, rm in CB: js += safe(h, "F1,F2/F3,F4" if rm else "A1,A2/A3,A4", cap=600, maxstates=60000000, drain="G0" if rm else "R0,R1")
        for h in Q_BLOCK + S_BLOCK + ["simqueue", "simstack", "msqueue", "lfstack"]:
            e = "E" if "queue" in h else "P"
            js += safe(h, "%s1,D/%s2,D" % (e, e), cap=600, maxstates=60000000, drain="D,D", init="%s8,%s9" % (e, e)) + safe(h, "%s1,D/%s2,D/D,%s3" % (e, e, e), cap=600, maxstates=60000000, drain="D,D,D", pb=3)
    return js

# ------------------------------------------------------------------ placement
@prop("C21")
def c21(deep):
    m = 12 if deep else 8
    js = [Job("placement", opts(prog="X", choose=1, maxnodes=m, maxcores=m)), Job("placement", opts(prog="X", choose=1, maxnodes=16, maxcores=3)), Job("placement", opts(prog="X", choose=1, maxnodes=3, maxcores=16))]
    # the threads the library starts are pinned accordingly
    for pol in range(1, 6):
        for nd, cp, smt in ((1, 8, None), (2, 4, None), (2, 8, 1), (1, 2, 1)):
            for r in ((3,), (2, 2)): js += [Job("threads", opts(prog=",".join("K%d" % n for n in r), threads=kslots(r), policy=pol, nodes=nd, cpus=cp, smt=smt, pb=1))]
            for nu in ((4, 2), (6, 2)): js += [Job("threads", opts(prog="F%d" % (nu[0] * 256 + nu[1]), threads=nu[0] // nu[1], realsched=1, dev=1, policy=pol, nodes=nd, cpus=cp, smt=smt), stateless=True, maxstates=100000000)]
    js += [Job("placement", opts(prog="X", choose=1, maxnodes=1, maxcores=16, flat=1), v="nonuma"), Job("placement", opts(prog="X", choose=1), v="debug")]
    if deep: js += [Job("placement", opts(prog="X", choose=1, maxnodes=16, maxcores=16), cap=900)]
    return js

# ------------------------------------------------------------------ primitives
@prop("C22")
def c22(deep):
    js = []
    A = ["C1", "C10", "C8", "c1", "c8", "h7", "P1", "P8", "X2", "X1", "A1", "A2", "a1", "a6", "T0", "T63", "D10", "D640", "G0", "G1"]
    B = ["C1", "C10", "c1", "h7", "P8", "X2", "A1", "A2", "a1", "T0", "T63", "D10", "D577", "G0", "G1"]
    seen = set()
    def w(threads, init, v="base", **kw):
        return Job("prims", opts(prog="/".join(",".join(t) for t in threads), spec="word", specarg=init, drain="G0,G1", nb=1, **kw), v=v)
    def fam(alpha, shape, inits, v="base", **kw):
        seen = set(); out = []
        for t in itertools.product(*[combos(alpha, k) for k in shape]):
            c = tuple(sorted(t))
            if c in seen: continue
            seen.add(c)
            flat = [o for x in t for o in x]
            if all(o[0] == "G" for o in flat): continue
            out += [w(t, i, v, **kw) for i in inits]
        return out
    js += [Job("prims", opts(prog="S", spec=""), v=v, cap=60) for v in ("base", "emul", "nonuma", "debug")] + [Job("prims", opts(prog="K", spec=""), v=v) for v in ("base", "emul")]
    for v in ("base", "emul"): js += fam(A, (1, 1), (0,), v=v) + fam(B, (1, 1), (1, 2, 10), v=v)
    C = ["C1", "C8", "h7", "X2", "A1", "a1", "T0", "D10", "G0"] if not deep else B
    for v in ("base", "emul"): js += fam(C, (2, 1), (0,), v=v)
    js += fam(C, (1, 1, 1), (0,))
    js += fam(["X1", "X2", "A1", "A2", "a1", "C1", "T0"], (1, 1, 1), (0,), v="emul") + fam(["X2", "A1", "a1", "C1"], (2, 2), (0,), v="emul") + fam(["C1", "X2", "A1", "T0", "D10", "G0"], (1, 1), (0,), tso=1)
    if deep: js += fam(C[:9], (2, 2), (0, 1)) + fam(C[:9], (2, 2), (0,), v="emul") + fam(C[:9], (2, 1, 1), (0,)) + fam(C[:7], (1, 1, 1, 1), (0,))
    return js

# ------------------------------------------------------------------ toggle vectors
@prop("C23")
def c23(deep):
    js = []
    for n, b in ((1, 3), (2, 2), (31, 2), (32, 2), (33, 2), (63, 3), (64, 3), (65, 3), (70, 2), (127, 2), (128, 2), (129, 2), (130, 2), (191, 2), (192, 2), (193, 2), (256, 2)): js += [Job("tvec", opts(n=n, choose=1, budget=b), cap=100)]
    for p, n in (("0,1", 2), ("0,63", 64), ("63,64", 65), ("63,64", 70), ("0,65", 70), ("64,65", 130), ("127,128", 130), ("1,129", 130)):
        for a in ("A/A", "A,A/A", "A,A/A,A", "A,A,A/A,A,A"): js += [Job("tvec", opts(prog=a, pids=p, n=n), v=v) for v in ("base", "emul")]
    for p, n in (("0,1,2", 3), ("62,63,64", 65), ("63,64,65", 130), ("0,64,128", 130)):
        for a in ("A/A/A", "A,A/A/A", "A,A/A,A/A,A"): js += [Job("tvec", opts(prog=a, pids=p, n=n))]
    if deep:
        for n in range(1, 257): js += [Job("tvec", opts(n=n, choose=1, budget=2), cap=300)]
        for n in (1, 2, 63, 64, 65, 128, 129): js += [Job("tvec", opts(n=n, choose=1, budget=4), cap=900)]
    return js

# ------------------------------------------------------------------ two instances
KIND = {}
for _h in Q_BLOCK + ["msqueue", "lcrq", "simqueue"]: KIND[_h] = "queue"
for _h in S_BLOCK + ["lfstack", "simstack"]: KIND[_h] = "stack"
for _h in ("ccsynch", "dsmsynch", "hsynch", "oyama", "fc", "osci"): KIND[_h] = "log"
for _h in ("sim", "lfuobject"): KIND[_h] = "rmw"
for _h in ("clhhash", "dsmhash"): KIND[_h] = "set"
ALLH = list(KIND)
NBH = ("sim", "lfuobject", "msqueue", "lcrq", "simqueue", "lfstack", "simstack")
def two_ops(k):
    """(insert-like op with a number, remove/read-like op)"""
    return {"queue": ("E%d", "D"), "stack": ("P%d", "D"), "log": ("A%d", "A%d"), "rmw": ("F%d", "F%d"), "set": ("I%d", "D%d")}[k]
def low(s): return s[0].lower() + s[1:]
def pair(a, b, prog, v="base", init=None, **kw):
    nb = a in NBH and b in NBH
    ka, kb = KIND[a], KIND[b]
    dr = []
    for k, f in ((ka, str), (kb, low)):
        o = {"queue": ["D"] * 6, "stack": ["D"] * 6, "log": ["R%d" % i for i in range(6)], "rmw": ["G0"], "set": ["S1", "S2"]}[k]
        dr += [f(x) for x in o]
    return Job("two", opts(prog=prog, init=init, spec="pair:%s:%s" % (ka, kb), specarg=2 if "set" in (ka, kb) else None, cells=1 if "set" in (ka, kb) else None, drain=",".join(dr), poison=1, nb=nb if not kw.get("pb") else None, fair=not nb, **kw),
               v=v, defines=['MC_A="%s.c"' % a, 'MC_B="%s.c"' % b], tag="-%s-%s" % (a, b), cap=30, maxstates=4000000)
def num(o, x): return o % x if "%" in o else o
def pair_programs(a, b, deep):
    """all sequences of insert/remove on either object for one thread; two threads that use both objects in either order"""
    ia, ra = two_ops(KIND[a]); ib, rb = two_ops(KIND[b]); ib, rb = low(ib), low(rb)
    kinds = [ia, ra, ib, rb]
    key = "set" in (KIND[a], KIND[b])
    val = (lambda i: 1 + i % 2) if key else (lambda i: i + 1)
    seqs = []
    for c in itertools.product(range(4), repeat=4 if not deep else 5):
        if len({x // 2 for x in c}) < 2: continue
        seqs.append(",".join(num(kinds[x], val(i)) for i, x in enumerate(c)))
    conc = []
    for t in itertools.product([(ia, rb), (ib, ra), (ia, ib), (ra, rb), (ib, ia), (rb, ra)], repeat=2):
        if t[0] > t[1]: continue
        conc.append("/".join(",".join(num(o, val(2 * i + k)) for k, o in enumerate(x)) for i, x in enumerate(t)))
    return seqs, conc
CROSS = [("ccqueue", "ccstack"), ("ccqueue", "dsmqueue"), ("hqueue", "hstack"), ("hqueue", "hsynch"), ("hsynch", "ccsynch"), ("fcqueue", "fcstack"), ("fc", "fcqueue"), ("osciqueue", "oscistack"), ("osci", "osciqueue"), ("msqueue", "lfstack"),
         ("simqueue", "simstack"), ("sim", "simqueue"), ("lcrq", "msqueue"), ("clhhash", "ccqueue"), ("dsmhash", "dsmsynch"), ("oyama", "fc"), ("ccstack", "dsmstack"), ("lfuobject", "sim"), ("dsmstack", "dsmqueue"), ("lfstack", "ccstack"), ("simstack", "lfstack"), ("hstack", "ccqueue")]
@prop("C24")
def c24(deep):
    js = []
    for a, b in [(h, h) for h in ALLH] + (CROSS if not deep else [(x, y) for i, x in enumerate(ALLH) for y in ALLH[i + 1:] if (x, y) != ("clhhash", "dsmhash")]):
        seqs, conc = pair_programs(a, b, deep and a == b)
        v = "ring1" if "lcrq" in (a, b) else "base"
        heavy = any(x in ("sim", "simqueue", "simstack", "lcrq") for x in (a, b))
        if a != b and not deep: seqs, conc = seqs[::11], conc[::4]
        js += [pair(a, b, s, v=v) for s in seqs]
        js += [pair(a, b, c, v=v, pb=2 if (heavy or not deep) and a != b else 3 if heavy else None) for c in conc]
        if a == b:
            ia, ra = two_ops(KIND[a])
            js += [pair(a, b, "/".join([num(ia, 1) + "," + low(num(ra, 1)), low(num(ia, 2)) + "," + num(ra, 2)]), v=x, pb=2) for x in (("ring2",) if a == "lcrq" else ("nonuma", "nocompact", "norecycle"))]
            if a in ("hsynch", "hqueue", "hstack"):
                for nd, cp in ((2, 2), (2, 4)): js += [pair(a, b, c, pb=2, nodes=nd, cpus=cp) for c in conc[:8]]
            if a in ("osci", "osciqueue", "oscistack"): js += [pair(a, b, c, groups="0,0", uthreads=2) for c in conc[:8]]
            js += [pair(a, b, conc[0], v=v, pb=0 if a in ("hqueue", "hstack") else 2, cinit=1)]
            # one thread goes to the other object and comes back while two others work on the first one
            for x, y, z in ((ia, ia, ia), (ia, ia, ra), (ra, ia, ia)):
                p1 = lambda o, k: num(o, 1 + k % 2 if KIND[a] == "set" else k)
                js += [pair(a, b, "/".join([",".join([p1(x, 1), low(p1(y, 2)), p1(x, 3)]), p1(y, 4), p1(z, 5)]), v=v, pb=2, init=p1(ia, 6) + "," + p1(ia, 7))]
    # two locks held at the same time, and in turn
    js += locks(["N0", "N0/N0", "N0,N0/N0", "N0/L0", "N0/L1", "N0/L0,L1", "L0,L1/L1,L0", "L0,L1/L0,L1", "N0,L1/L0,N0", "N0/L0/L1", "L0,L1,L0/L0/L1"], fair=1)
    return js

# ------------------------------------------------------------------ values
VALS = [0, 1, -1, 2, 2**31 - 1, 2**31, 2**31 + 1, -2**31, -2**31 - 1, -2**31 + 1, 2**32 - 1, 2**32, 2**32 + 1, -2**32, 2**62, -2**62, 2**63 - 1, 2**63 - 2, -2**63 + 2, -2**63 + 3]
MOREVALS = [2**7, 2**8 - 1, 2**8, -2**7, 2**15 - 1, 2**15, 2**16 - 1, 2**16, 2**16 + 1, -2**15, -2**16, 2**24, 2**24 + 1, 2**47 - 1, 2**47, 2**48 - 1, 2**48, 2**48 + 1, -2**47, -2**48, 2**53 + 1, 2**56 - 1, 2**56, -2**56,
            0x5555555555555555, -0x5555555555555556, 0x0123456789abcdef, -0x0123456789abcdf0, 0x7f7f7f7f80808080, 0xffff0000ffff, 0x8000000080000000 - 2**64, 0x00000000ffffffff, 0x7fffffff00000000, 0xffffffff00000001 - 2**64] + [1 << k for k in range(3, 62)]
@prop("C25")
def c25(deep):
    js = []
    for h in Q_BLOCK + S_BLOCK + ["msqueue", "lfstack", "simqueue", "simstack", "lcrq"]:
        sp = KIND[h]; e = "E" if sp == "queue" else "P"
        v0 = "ring1" if h == "lcrq" else "base"
        def j(prog, v=v0, **kw): return Job(h, opts(prog=prog, spec=sp, drain="D,D,D,D", poison=1, **kw), v=v, cap=30)
        for x in VALS:
            js += [j("%s%d,D,D" % (e, x)), j("D,%s%d" % (e, x))]
            js += [j("%s%d/D" % (e, x)), j("%s%d,D/%s5,D" % (e, x, e), pb=2 if h in ("simqueue", "simstack") or not deep else None), j("D,D/D", init="%s%d" % (e, x), pb=2)]
        pairs = list(itertools.product(VALS, repeat=2))
        for k, (x, y) in enumerate(pairs):
            js += [j("%s%d,%s%d,D,D,D" % (e, x, e, y))]
            if deep or k % 7 == 0: js += [j("%s%d,D,D,%s%d,D" % (e, x, e, y)), j("%s%d/%s%d" % (e, x, e, y), pb=2)]
        for x in (-1, 2**63 - 1, -2**31):
            for v in (("ring2", "ringdef") if h == "lcrq" else ("norecycle", "nonuma", "nocompact")): js += [j("%s%d,D,D" % (e, x), v=v), j("%s%d,D/%s5" % (e, x, e), v=v, pb=2)]
        if h in ("osciqueue", "oscistack"): js += [j("%s%d,D/%s5,D" % (e, x, e), groups="0,0", uthreads=2) for x in VALS]
    for h in Q_BLOCK + S_BLOCK + ["msqueue", "lfstack", "simqueue", "simstack", "lcrq"]:
        e = "E" if KIND[h] == "queue" else "P"
        for v in ("base", "ring1") if h == "lcrq" else ("base",):
            for x in MOREVALS: js += [Job(h, opts(prog="%s%d,D,%s%d,%s5" % (e, x, e, x, e), spec=KIND[h], drain="D,D,D", poison=1), v=v, cap=30)]
            for x in MOREVALS[:34]: js += [Job(h, opts(prog="%s%d/D" % (e, x), spec=KIND[h], drain="D,D", init="%s%d" % (e, ~x), poison=1, pb=2), v=v, cap=30)]
    return js

# ------------------------------------------------------------------ arguments, random numbers, backoff
@prop("C26")
def c26(deep):
    js = []
    for c in (1, 2, 8, 64): js += [Job("args", opts(prog="X", budget=2, values=4, cpus=c), stateless=True, maxstates=10**9)]
    js += [Job("args", opts(prog="X", budget=3, values=2), stateless=True, maxstates=10**9), Job("args", opts(prog="X", budget=3, values=3, cpus=1), stateless=True, maxstates=10**9), Job("args", opts(prog="X", budget=2, values=4, nodes=2, cpus=4), stateless=True, maxstates=10**9)]
    for v in ("nonuma", "debug", "nobackoff", "emul"): js += [Job("args", opts(prog="X", budget=2, values=4), v=v, stateless=True, maxstates=10**9)]
    if deep: js += [Job("args", opts(prog="X", budget=4, values=2), stateless=True, cap=1500, maxstates=10**10), Job("args", opts(prog="X", budget=3, values=4), stateless=True, cap=1500, maxstates=10**10)]
    return js
@prop("C27")
def c27(deep):
    js = [Job("rng", opts(prog="S%d" % k)) for k in range(8)]
    for o in (None, 1):
        for v in ("base", "nobackoff"): js += [Job("rng", opts(prog="B", choose=1, budget=8 if deep else 6, oversub=o), v=v, cap=600)]
    js += [Job("rng", opts(prog=p)) for p in ("R1,R3/R2,R5", "R0/R8/R19", "R1/R1", "R4,R4/R4", "R6/R7", "R10,R11/R12,R13", "R14/R15/R16", "R17,R18/R9")]
    if deep: js += [Job("rng", opts(prog=p, draws=8), cap=600) for p in ("R1,R3/R2,R5", "R0/R8/R19", "R4,R4/R4,R4")] + [Job("rng", opts(prog="R%d/R%d" % (a, b))) for a in range(20) for b in range(a, 20)]
    return js

# ------------------------------------------------------------------ the same library as an optimising compiler (-O2) leaves it
def o2(pid, deep):
    js = []; d3 = [(1, 1, 1)] + ([(2, 1, 1)] if deep else [])
    if pid in ("C01", "C02", "C13"):
        for h in {"C01": ("ccsynch", "dsmsynch", "hsynch"), "C02": ("oyama", "fc", "osci"), "C13": ("ccsynch", "dsmsynch", "hsynch", "oyama", "fc", "osci")}[pid]:
            for v in ("o2", "o2-small"): js += synch(h, [(2, 2), (3, 2)] + d3, v=v, cap=40)
            for v in ("o2-emul", "o2-nonuma"): js += synch(h, [(2, 2)], v=v)
            js += synch(h, [(2, 2)], v="o2", extra=opts(oversub=1)) + synch(h, [(2, 1)], v="o2", extra=opts(cinit=1), init=0)
        if pid != "C02": js += synch("hsynch", [(2, 2), (1, 1, 1)], v="o2", extra=opts(nodes=2, cpus=2))
        if pid != "C01": js += synch("osci", [(1, 1, 1, 1)], v="o2", extra=opts(groups="0,0,1,1", uthreads=2), cap=40)
    if pid in ("C03", "C14"):
        js += rmw("sim", [(2, 1), (1, 2), (2, 2)], v="o2", reads=False, cap=40) + rmw("sim", [(2, 1)], v="o2-nonuma", reads=False) + rmw("sim", [(2, 1)], v="o2", extra=opts(oversub=1), reads=False)
        js += rmw("sim", [(1, 1), (2, 1)], v="o2", extra=opts(pids="0,65", n=70), reads=False)
        if pid == "C03": js += swaps("sim", [(2, 1)], v="o2", kinds=("S0", "S1", "F1"), cap=40) + rmw("sim", [(2, 1)], v="o2-emul", reads=False)
    if pid in ("C04", "C15"):
        for v in ("o2", "o2-emul", "o2-nonuma"): js += rmw("lfuobject", [(2, 2), (1, 1, 1)], v=v)
        js += swaps("lfuobject", [(2, 1), (2, 2)], v="o2")
    for q, hs, sp in (("C05", Q_BLOCK, "queue"), ("C09", S_BLOCK, "stack")):
        if pid in (q, "C13"):
            for h in hs:
                js += container(h, sp, [(2, 2)], (0, 1), v="o2", fair=True, canon=True, cap=40) + container(h, sp, [(1, 1, 1)], (0,), v="o2", fair=True, canon=True, cap=40)
                if pid == q:
                    for v in ("o2-emul", "o2-nonuma", "o2-small"): js += container(h, sp, [(2, 2)], (1,), v=v, fair=True, canon=True, cap=40)
                    js += container(h, sp, [(3, 2)], (0, 1), v="o2-small", fair=True, canon=True, cap=40)
    for h, sp, ps in (("msqueue", "queue", ("C06", "C15")), ("lfstack", "stack", ("C10", "C15"))):
        if pid in ps:
            for v in ("o2", "o2-emul", "o2-nonuma"): js += container(h, sp, [(2, 2), (2, 1)] + d3, (0, 1), v=v, nb=True, canon=True)
            js += container(h, sp, [(3, 2), (2, 1, 1)], (1,), v="o2", nb=True, canon=True)
    for h, sp, ps in (("simqueue", "queue", ("C08", "C14")), ("simstack", "stack", ("C10", "C14"))):
        if pid in ps:
            js += container(h, sp, [(1, 1), (2, 1), (2, 2)], (0, 1), v="o2", nb=True, canon=True) + container(h, sp, [(2, 1)], (1,), v="o2-nonuma", nb=True, canon=True)
            js += container(h, sp, [(1, 1, 1)], (0, 1), v="o2", canon=True, extra=opts(pb=3)) + container(h, sp, [(1, 1)], (1,), v="o2", nb=True, extra=opts(oversub=1))
            if pid != "C14": js += container(h, sp, [(2, 1)], (1,), v="o2-emul", nb=True, canon=True)
    if pid == "C07":
        for v in ("ring1", "ring2", "ringdef"): js += [Job("lcrq", opts(prog=p, warm=w, wdepth=d, handover=1, spec="queue", init="E1", drain="D,D,D", poison=1), v=v, cap=60) for p in ("E11/D", "D/E11") for w, d in ((300, 5), (5000, 30))]
    if pid in ("C07", "C15"):
        js += container("lcrq", "queue", [(1, 1), (2, 1), (2, 2)], (0, 1, 2), v="o2-ring1", nb=True, canon=True, cap=40) + container("lcrq", "queue", [(1, 1, 1)], (0, 1), v="o2-ring1", canon=True, extra=opts(pb=3), cap=40)
    if pid == "C11":
        for h in ("clhhash", "dsmhash"):
            js += hashjobs(h, [(1, 1)], (1, 2), 1, inits=((), ("I1",), ("I1", "I2")), v="o2") + hashjobs(h, [(2, 1)], (1, 2), 1, inits=(("I1",),), v="o2", kinds="ID") + hashjobs(h, [(3,)], (1, 2, 3), 1, inits=(("I1", "I2"),), v="o2")
            for v in ("o2-emul", "o2-nonuma"): js += hashjobs(h, [(1, 1)], (1, 2), 1, inits=(("I1",),), v=v)
    if pid in ("C12", "C13"):
        for v in ("o2", "o2-emul", "o2-nonuma"): js += locks(["L0,L0/L0,L0", "L0/L0/L0", "N0/N0", "N0,L1/L0,N0"], fair=1, v=v)
        if pid == "C12": js += locks(["L0,L0/L0/L0"], fifo=8, v="o2") + locks(["L0,L0/L0"], tso=1, v="o2")
        else: js += [Job("lock", opts(prog=p, loop=1), v="o2", cap=40, **d) for p in ("L0/L0", "N0/L0") for d in ({}, MCS)]
    if pid == "C16":
        for v in ("o2", "o2-emul", "o2-nonuma"): js += [Job("barrier", opts(prog=p, fair=1, poison=1), v=v) for p in ("W,W,W/W,W,W", "W,W/W,W/W,W", "W,L/W,L/W,Z", "W,Z,S2,W,L/W,L,B,W,Z")]
        js += [Job("barrier", opts(prog="W/W", loop=1, poison=1), v="o2")]
    if pid == "C17":
        for r in ((2,), (3,), (2, 2), (1, 3, 1)):
            for v in ("o2", "o2-emul", "o2-nonuma"): js += [Job("threads", opts(prog=",".join("K%d" % n for n in r), threads=kslots(r), fair=1, poison=1), v=v, cap=40)]
        for r in (((4, 2),), ((4, 4),), ((4, 2), (2, 1)), ((2, 1), (4, 2))):
            js += [Job("threads", opts(prog=",".join("F%d" % (n * 256 + u) if u > 1 else "K%d" % n for n, u in r), threads=1 + sum(n // u - 1 for n, u in r), realsched=1, dev=2), v="o2", cap=60, stateless=True, maxstates=100000000)]
    if pid == "C18":
        js += [Job("fibers", opts(prog="/".join("I%d,B%d" % x for x in b), realsched=1, **kw), v="o2", stateless=True, cap=60, maxstates=1000000000) for b, kw in ((((2, 5),), {}), (((3, 6),), {}), (((4, 5),), {}), (((2, 2), (2, 2)), dict(dev=2)))]
    if pid == "C22":
        js += [Job("prims", opts(prog="S", spec=""), v=v, cap=60) for v in ("o2", "o2-emul", "o2-nonuma")] + [Job("prims", opts(prog="K", spec=""), v=v) for v in ("o2", "o2-emul")]
        A = ["C1", "C10", "c1", "h7", "P8", "X2", "X1", "A1", "A2", "a1", "T0", "D10", "G0"]
        for v in ("o2", "o2-emul"):
            for t in itertools.combinations_with_replacement(A, 2): js += [Job("prims", opts(prog="/".join(t), spec="word", specarg=i, drain="G0,G1", nb=1), v=v) for i in (0, 1)]
            for t in itertools.product(itertools.product(["C1", "X2", "A1", "a1", "T0"], repeat=2), ["C1", "X2", "A1", "a1", "T0"]): js += [Job("prims", opts(prog="%s,%s/%s" % (t[0] + (t[1],)), spec="word", specarg=0, drain="G0,G1", nb=1), v=v)]
            for t in itertools.combinations_with_replacement(["X2", "A1", "a1", "C1"], 3): js += [Job("prims", opts(prog="/".join(t), spec="word", specarg=0, drain="G0,G1", nb=1), v=v)]
    if pid == "C23":
        for n in (1, 31, 32, 63, 64, 65, 130): js += [Job("tvec", opts(n=n, choose=1, budget=2), v="o2", cap=100)]
        for q, n in (("0,63", 64), ("63,64", 65), ("0,65", 70)): js += [Job("tvec", opts(prog=a, pids=q, n=n), v=v) for a in ("A,A/A,A",) for v in ("o2", "o2-emul")]
    if pid == "C25":
        for h in Q_BLOCK + S_BLOCK + ["msqueue", "lfstack", "simqueue", "simstack", "lcrq"]:
            sp = KIND[h]; e = "E" if sp == "queue" else "P"
            for x in VALS: js += [Job(h, opts(prog="%s%d,D,D" % (e, x), spec=sp, drain="D,D,D", poison=1), v="o2-ring1" if h == "lcrq" else "o2", cap=30)]
            for x in (-1, 2**31, -2**63 + 2): js += [Job(h, opts(prog="%s%d/D" % (e, x), spec=sp, drain="D,D,D", poison=1, pb=2), v="o2-ring1" if h == "lcrq" else "o2", cap=30)]
    return js
# ------------------------------------------------------------------ long histories before the explored part, large thread ids, DEBUG builds
LONGPIDS = (("0,69", 70), ("127,128", 129), ("255,256", 257))
def more(pid, deep):
    js = []
    def W(w_, mode=0, depth=3, **kw): return opts(warm=w_, wmode=mode, wdepth=depth, **kw)
    WN = (1, 2, 3, 7, 16, 17, 31, 33, 100, 300, 33000) + ((1000, 5000, 66000) if deep else ())
    logs = {"C01": ("ccsynch", "dsmsynch", "hsynch"), "C02": ("oyama", "fc", "osci"), "C13": ("ccsynch", "dsmsynch", "hsynch", "oyama", "fc", "osci")}.get(pid, ())
    for h in logs:
        for n in WN if pid != "C13" else (300,): js += synch(h, [(1, 1)], extra=W(n, 4)) + synch(h, [(2, 1)], extra=W(n + 1, 4))
        js += synch(h, [(2, 2)], v="debug") + synch(h, [(1, 1, 1)], v="debug", cap=40)
        if pid != "C13":
            js += synch(h, [(2, 2)], v="small", extra=W(150, 4))
            for p, n in LONGPIDS: js += synch(h, [(2, 1)], extra=opts(pids=p, n=n)) + synch(h, [(2, 1)], extra=opts(pids=p, n=n), v="nonuma")
    for q, hs, sp in (("C05", Q_BLOCK, "queue"), ("C09", S_BLOCK, "stack"), ("C06", ("msqueue",), "queue"), ("C08", ("simqueue",), "queue"), ("C10", ("lfstack", "simstack"), "stack"), ("C13", Q_BLOCK + S_BLOCK, ""), ("C14", ("simqueue", "simstack"), ""), ("C15", ("msqueue", "lfstack"), "")):
        if pid != q: continue
        for h in hs:
            sp2 = KIND[h]; m = 1 if sp2 == "stack" else 0; nb = h in NBH
            for n in WN if pid not in ("C13", "C14", "C15") else (300,):
                js += container(h, sp2, [(1, 1)], (0, 1), extra=W(n, m), canon=True, nb=nb, fair=not nb) + container(h, sp2, [(2, 1)], (1,), extra=W(n + 1, m), canon=True, nb=nb, fair=not nb)
            js += container(h, sp2, [(1, 1), (2, 1)], (0, 1), v="debug", canon=True, nb=nb, fair=not nb)
            if sp: js += container(h, sp2, [(1, 1)], (1,), extra=W(3000, m, 20), canon=True, nb=nb, fair=not nb) + container(h, sp2, [(1, 1)], (1,), v="norecycle", extra=W(300, m), canon=True, nb=nb, fair=not nb) + container(h, sp2, [(1, 1, 1)], (1,), extra=W(200, m, pb=2), canon=True)
            if sp:   # more nodes than one block of the pool holds
                o = dict(spec=sp2, init="EP"[m] + "1", drain="D,D,D", poison=1, wmode=m)
                js += [Job(h, opts(prog="%s11/D" % "EP"[m], warm=60000, wdepth=140, **o), v="norecycle", cap=120), Job(h, opts(prog="%s11/D" % "EP"[m], warm=15000, wdepth=300, handover=1, **o), cap=120), Job(h, opts(prog="%s11,D/D" % "EP"[m], warm=200, wdepth=5, handover=1, **o), cap=60), Job(h, opts(prog="D/%s11,D" % "EP"[m], warm=201, wdepth=5, handover=1, **o), cap=60)]
            if sp and (not nb or h.startswith("sim")):
                for p, n in LONGPIDS: js += container(h, sp2, [(1, 1)], (1,), extra=opts(pids=p, n=n), canon=True, nb=nb, fair=not nb)
    if pid in ("C07", "C15"):
        for v, n in (("ring0", 50), ("ring1", 1), ("ring1", 2), ("ring1", 3), ("ring1", 40), ("ring2", 1), ("ring2", 5), ("ring2", 9), ("ring2", 100), ("ring3", 100), ("ringdef", 8191), ("ringdef", 8192), ("ringdef", 16383), ("ringdef", 16384), ("ringdef", 60000)):
            js += container("lcrq", "queue", [(1, 1)], (0, 1), v=v, extra=W(n, 0, 1), canon=True, nb=v != "ring0" or None, cap=40) + container("lcrq", "queue", [(2, 1)], (1,), v=v, extra=W(n, 0, 4 if n < 8000 else 1, pb=3), canon=True, cap=40)
        js += container("lcrq", "queue", [(1, 1)], (0,), v="ringdef", extra=W(20, 0, 18000), canon=True, cap=40)
    if pid in ("C03", "C14", "C04", "C15"):
        h = "sim" if pid in ("C03", "C14") else "lfuobject"
        for n in WN if pid in ("C03", "C04") else (100,): js += rmw(h, [(1, 1), (2, 1)], extra=W(n, 3), reads=False)
        js += rmw(h, [(1, 1), (2, 1)], v="debug", reads=False)
        if pid == "C03": js += rmw(h, [(1, 1)], extra=W(60, 3, pids="0,65", n=70), reads=False) + rmw(h, [(2, 1)], v="small", extra=W(50, 3), reads=False)
    if pid == "C11":
        for h in ("clhhash", "dsmhash"):
            for n in (1, 5, 40, 400): js += hashjobs(h, [(1, 1)], (1, 2), 1, inits=(("I1",),), extra=W(n, 2, 7)) + hashjobs(h, [(1, 1)], (1, 3), 2, inits=((), ("I3",)), extra=W(n, 2, 9))
            js += hashjobs(h, [(1, 1)], (1, 2), 1, inits=(("I1",),), v="debug")
            for p, n in LONGPIDS: js += hashjobs(h, [(1, 1)], (1, 2), 1, inits=(("I1",),), extra=opts(pids=p, n=n))
            for c in (1, 2, 3, 4, 5, 6, 7, 8, 10, 13, 16, 31, 32, 33, 64, 100, 127, 128, 255, 256, 1000): js += [Job(h, opts(prog=p, spec="set", specarg=2, cells=c, drain="S1,S%d,S%d,S-1" % (c + 1, 2 * c + 1), init="I%d,I1" % (c + 1))) for p in ("D1/I-1,D%d" % (c + 1), "I%d,D1,D%d,S1" % (2 * c + 1, c + 1), "D%d,I-1,D1,D-1" % (c + 1))]
    if pid == "C12":
        js += locks(["L0,L0/L0", "L0/L0/L0", "N0,L1/L0,N0"], fair=1, v="debug")
        for p, n in LONGPIDS: js += locks(["L0,L0/L0"], fair=1, pids=p, n=n)
    if pid == "C16": js += [Job("barrier", opts(prog="W,W/W,W/W,W", fair=1, poison=1), v="debug")]
    return js
# ------------------------------------------------------------------ more threads and longer programs, with a bound on the preemptions inside operations
def crowd(pid, deep):
    js = []; e = 1 if deep else 0
    def P(n): return opts(pb=n + e)
    big = dict(cap=900 if deep else 60, maxstates=100000000 if deep else 20000000)
    if pid in ("C01", "C02"):
        for h in ("ccsynch", "dsmsynch", "hsynch") if pid == "C01" else ("oyama", "fc", "osci"):
            js += synch(h, [(3, 3, 3)] if h != "osci" else [(2, 2, 2)], extra=P(1), fair=False, **big) + synch(h, [(2, 2, 2), (1, 1, 1, 1)], extra=P(2) if h not in ("fc", "osci") else P(1), fair=False, **big)
            if h not in ("fc", "osci"): js += synch(h, [(2, 2, 2)], extra=P(3), fair=False, **big) + synch(h, [(2, 2, 2, 2), (1, 1, 1, 1, 1)], extra=P(1), fair=False, **big)
            if h in ("hsynch",):
                for nd, cp in ((2, 2), (2, 4)): js += synch(h, [(2, 2, 2), (1, 1, 1, 1)], extra=opts(pb=2 + e, nodes=nd, cpus=cp), fair=False, **big) + synch(h, [(1, 1, 1, 1, 1)], extra=opts(pb=1 + e, nodes=nd, cpus=cp), fair=False, **big)
            if h == "osci": js += synch(h, [(1, 1, 1, 1), (2, 2, 1, 1)], extra=opts(pb=1 + e, groups="0,0,1,1", uthreads=2), fair=False, **big) + synch(h, [(1, 1, 1, 1, 1, 1)], extra=opts(pb=1, groups="0,0,0,1,1,1", uthreads=3), fair=False, **big)
    cs = {"C05": Q_BLOCK, "C09": S_BLOCK, "C06": ("msqueue",), "C08": ("simqueue",), "C10": ("lfstack", "simstack")}.get(pid, ())
    for h in cs:
        def c(shapes, p_, init=1, **kw): return container(h, KIND[h], shapes, (init,), extra=opts(pb=p_ + e, **kw), canon=True, **big)
        if h in ("msqueue", "lfstack"): js += c([(2, 2, 2), (2, 2, 1, 1)], 3) + c([(3, 3, 2), (2, 2, 2, 2), (1,) * 5], 2) + c([(2, 2, 2)], 3, 0) + c([(2, 2, 2)], 3, 2)
        elif h.startswith("sim"): js += c([(2, 2, 2), (1, 1, 1, 1)], 1) + c([(2, 2, 2), (1, 1, 1, 1)], 1, 0) + c([(2, 1, 1)], 2) + c([(1, 1, 1)], 1, pids="0,64,130", n=131) + c([(2, 2, 1, 1)] if deep else [(1, 1, 1, 1, 1)], 1)
        elif h.startswith("fc"): js += c([(2, 1, 1), (1, 1, 1, 1)], 1)
        elif h.startswith("osci"): js += c([(2, 1, 1)], 2) + c([(1, 1, 1, 1)], 1) + c([(1, 1, 1, 1)], 1, groups="0,0,1,1", uthreads=2)
        else:
            js += c([(2, 2, 2), (2, 2, 1, 1)], 1) + c([(2, 1, 1)], 2) + c([(1, 1, 1, 1)], 1 if not deep else 2, 0) + c([(2, 1, 1)], 2, 2)
            if h[0] == "h": js += c([(2, 1, 1), (1, 1, 1, 1)], 1, nodes=2, cpus=2)
    if pid == "C07":
        for v in ("ring1", "ring2"): js += container("lcrq", "queue", [(2, 1, 1), (1, 1, 1, 1)], (0, 1, 2), v=v, extra=P(2), canon=True, **big) + container("lcrq", "queue", [(2, 2, 1), (1,) * 5], (1,), v=v, extra=P(1), canon=True, **big)
    if pid == "C03":
        js += rmw("sim", [(2, 1, 1), (1, 1, 1), (2, 2, 2)], extra=P(2), reads=False, nb=False, **big) + rmw("sim", [(3, 3, 3), (1, 1, 1, 1), (2, 2, 2, 2), (1,) * 5], extra=P(1), reads=False, nb=False, **big)
        js += rmw("sim", [(2, 1, 1), (2, 2, 2)], v="small", extra=P(2), reads=False, nb=False, **big) + rmw("sim", [(2, 2, 2)], extra=opts(pb=1 + e, pids="0,64,130", n=131), reads=False, nb=False, **big)
    if pid == "C04": js += rmw("lfuobject", [(2, 2, 2, 2), (1,) * 6, (3, 3, 3)], extra=P(3), reads=False, nb=False, **big)
    if pid == "C11":
        for h in ("clhhash", "dsmhash"):
            js += hashjobs(h, [(2, 1, 1)], (1, 2), 1, inits=(("I1",),), kinds="ID", extra=P(1), fair=False, **big)
            js += hashjobs(h, [(1, 1, 1, 1)], (1, 2), 1, inits=(("I1",),), kinds="ID", extra=P(1), fair=False, **big) + hashjobs(h, [(1, 1, 1)], (1, 2, 3), 2, inits=((), ("I1", "I3")), extra=P(1), fair=False, **big)
    if pid == "C12":
        js += locks(["L0/L0/L0/L0/L0", "L0,L0/L0,L0/L0,L0/L0", "L0,L0,L0/L0,L0,L0/L0,L0,L0", "L0,L1/L1,L0/L0,L1/L1", "N0/N0/N0/N0", "N0,N0/N0,L1/L0,N0"], pb=1 + e, **big)
        js += locks(["L0,L0/L0,L0/L0,L0", "L0/L0/L0/L0"], pb=1 + e, fifo=8, **big)
    if pid == "C23":
        for p, n in (("0,1,62,63", 64), ("62,63,64,65", 70), ("0,63,64,127", 128)): js += [Job("tvec", opts(prog=a, pids=p, n=n)) for a in ("A/A/A/A", "A,A/A/A/A", "A,A/A,A/A/A")]
        for n in (255, 257, 300, 511, 512, 513, 640, 1000, 1023, 1024, 1025): js += [Job("tvec", opts(n=n, choose=1, budget=1), cap=60)]
    return js
for _p in list(JOBS): JOBS[_p] = (lambda f, p: lambda deep: f(deep) + o2(p, deep) + more(p, deep) + crowd(p, deep))(JOBS[_p], _p)

def bounds(js):
    """what the configurations of this run range over, derived from the jobs themselves"""
    out = dict(harnesses=sorted({j.h + (" (stateless)" if j.stateless else "") for j in js}), variants=sorted({j.v for j in js}), parameters={})
    maxops = maxthr = 0
    for j in js:
        for a in j.args:
            k, v = a[2:].split("=", 1)
            if k == "prog":
                th = v.split("/"); maxthr = max(maxthr, len(th)); maxops = max([maxops] + [len(t.split(",")) for t in th])
            elif k not in ("drain", "init", "poison"): out["parameters"].setdefault(k, set()).add(v)
    out["parameters"] = {k: sorted(v)[:24] for k, v in out["parameters"].items()}
    out["threads_up_to"], out["operations_per_thread_up_to"] = maxthr, maxops
    out["preemptions"] = "unbounded unless a configuration has pb=<bound on preemptions inside operations> or dev=<bound on deviations from the default schedule>"
    return out
ASSUMPTIONS = ["the code is judged as clang compiles it, at -O0 (with mem2reg) and, in the configurations whose variant begins with o2, at -O2; every access to shared memory is one atomic step in the order of the program",
               "sequentially consistent memory; configurations with tso=1 add the store buffers of x86",
               "operations, thread counts and preemptions beyond the listed bounds are not covered",
               "memory allocation succeeds; the environment (NUMA, affinity, processor model) answers as a machine of the given shape does"]
EXTRA_ASSUMPTIONS = {
 "C07": ["rings of 1, 2, 4, 8 and 2^14 cells; the spin limits inside LCRQ, which only postpone decisions, are scaled down"],
 "C14": ["fetch-and-add and swap are native; emulated by compare-and-swap they are retry loops by design"],
 "C17": ["thread counts are multiples of the fiber count, as the library requires"],
 "C18": ["setjmp/longjmp and context switching are the library's own; schedules of several kernel threads are enumerated up to the deviation bound"],
 "C21": ["balanced machines: every NUMA node has the same number of cores; hyper-threads are numbered i and i + cores/2, as the library documents"],
 "C25": ["the two sentinel constants published by the library are not inserted"],
}
if __name__ == "__main__":
    js = jobs(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "quick")
    for j in js: print(j.name())
    print(len(js))

"""Builds instrumented harness binaries from /repo's current working tree (outside /repo)."""
import os, subprocess, hashlib, shutil, sys, re
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
LIB = REPO + "/libconcurrent"
MC = VERIF + "/mc"
TOOLS = VERIF + "/.build/tools"
WRAPS = ["synchGetMachineModel", "synchResched", "synchIsSystemOversubscribed", "synchGetThreadId", "synchGetPosixThreadId",
         "synchCurrentFiberIndex", "synchGetPreferredCore", "synchGetPreferredNumaNode"]

NOWRAP = {"threads", "placement"}
STATELESS_WRAPS = ["synchResched"]   # harnesses that use the real thread runtime
class BuildError(Exception):
    pass

def sh(cmd, env=None, cwd=None):
    e = dict(os.environ)
    if env: e.update(env)
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=cwd, text=True, errors="replace")
    if p.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout

def digest(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:16]

def tools():
    """The LLVM pass and the engine (independent of /repo)."""
    os.makedirs(TOOLS, exist_ok=True)
    src = [MC + "/pass/McPass.cpp"] + [MC + "/engine/" + f for f in ("engine.cpp", "stateless.cpp", "env.cpp", "spec.cpp", "mc.h", "spec.h")]
    stamp = TOOLS + "/stamp"
    d = digest(src)
    if os.path.exists(stamp) and open(stamp).read() == d:
        return
    cxxf = sh(["llvm-config-18", "--cxxflags"]).split()
    jobs = [["clang++", "-O1", "-fPIC", "-shared"] + cxxf + ["-fno-rtti", "-w", "-o", TOOLS + "/McPass.so", MC + "/pass/McPass.cpp"]]
    for f in ("engine", "stateless", "env", "spec"):
        jobs.append(["clang++", "-O2", "-g1", "-std=c++17", "-fno-pie", "-fno-strict-aliasing", "-U_FORTIFY_SOURCE", "-fno-stack-protector", "-mno-avx", "-w",
                     "-I", MC + "/engine", "-c", "-o", TOOLS + "/%s.o" % f, MC + "/engine/%s.cpp" % f])
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(sh, jobs))
    open(stamp, "w").write(d)

class Variant:
    """One configuration of the library: defines + edits of config.h."""
    def __init__(self, name="base", defines=(), undef=(), define_cfg=(), consts="", subst=(), opt="", reuse=False):
        self.name, self.defines, self.undef, self.define_cfg, self.consts, self.subst = name, list(defines), list(undef), list(define_cfg), consts, list(subst)
        self.reuse = reuse   # plain loads yield the value loaded before, wherever a compiler may do so
        self.opt = opt   # "-O2": instrument the library after the optimiser has run

LIB_SRC = None
def lib_sources():
    out = []
    for sub in ("concurrent", "primitives"):
        d = LIB + "/" + sub
        for f in sorted(os.listdir(d)):
            if f.endswith(".c"):
                out.append(d + "/" + f)
    return out

class Builder:
    def __init__(self, workdir):
        self.wd = workdir
        shutil.rmtree(workdir, ignore_errors=True)
        os.makedirs(workdir)
        tools()
        self.libs, self.cfgs = {}, set()

    def flags(self, v):
        inc = []
        vd = self.wd + "/" + v.name
        os.makedirs(vd, exist_ok=True)
        cfg = LIB + "/config.h"
        if v.undef or v.define_cfg:
            t = open(cfg).read()
            for u in v.undef:
                t = re.sub(r"(?m)^(\s*#\s*define\s+%s\b.*)$" % u, r"//\1", t)
            for u in v.define_cfg:
                t = re.sub(r"(?m)^\s*//\s*(#\s*define\s+%s\b.*)$" % u, r"\1", t)
                if not re.search(r"(?m)^\s*#\s*define\s+%s\b" % u, t):
                    t = t.replace("#include <stdint.h>", "#include <stdint.h>\n#define %s" % u, 1)
            os.makedirs(vd + "/cfg", exist_ok=True)
            if v.name not in self.cfgs:
                open(vd + "/cfg/config.h", "w").write(t)
                self.cfgs.add(v.name)
            inc += ["-I", vd + "/cfg"]
        if v.subst:
            if v.name + "+inc" not in self.cfgs:
                shutil.copytree(LIB + "/includes", vd + "/inc", dirs_exist_ok=True)
                for f in os.listdir(vd + "/inc"): self.edit(v, vd + "/inc/" + f, vd + "/inc/" + f)
                self.cfgs.add(v.name + "+inc")
            inc += ["-I", vd + "/inc"]
        inc += ["-I", LIB + "/includes", "-I", LIB, "-I", MC + "/engine", "-I", MC + "/harness"]
        return ["-std=gnu89", "-D_GNU_SOURCE", "-w", "-fno-pie", "-fno-strict-aliasing", "-fwrapv", "-U_FORTIFY_SOURCE", "-fno-stack-protector", "-mcx16"] + ["-D" + d for d in v.defines] + inc

    def edit(self, v, src, dst):
        """scales published constants of the library down (a pattern that no longer occurs is simply not scaled)"""
        t = open(src, errors="replace").read()
        for a, b in v.subst: t = re.sub(a, b, t)
        open(dst, "w").write(t)

    def compile(self, src, v, out, defines=(), lang=()):
        bc = out + ".bc"
        if v.subst and src.startswith(LIB + "/"):
            self.edit(v, src, out + ".edited.c")
            src = out + ".edited.c"
        lvl = ["-O0", "-Xclang", "-disable-O0-optnone"]
        if v.opt and src.startswith((LIB + "/", self.wd)): lvl = [v.opt, "-fno-vectorize", "-fno-slp-vectorize", "-mno-avx"]
        sh(["clang"] + lvl + ["-g1", "-emit-llvm", "-femulated-tls"] + self.flags(v) + ["-D" + d for d in defines] + ["-c", "-o", bc, src])
        env = {}
        if v.consts and os.path.basename(src) == "lcrq.c": env["MC_CONST"] = v.consts
        sh(["opt-18", "-load-pass-plugin", TOOLS + "/McPass.so", "-passes=function(mem2reg%s),mc" % (",mc-reuse,mem2reg" if v.reuse else ""), bc, "-o", bc + "2"], env=env)
        sh(["clang", "-O1", "-fno-pie", "-femulated-tls", "-fno-strict-aliasing", "-fno-stack-protector", "-mno-avx", "-w", "-x", "ir", "-c", "-o", out, bc + "2"])
        os.unlink(bc); os.unlink(bc + "2")

    def lib(self, v):
        if v.name in self.libs: return self.libs[v.name]
        vd = self.wd + "/" + v.name
        os.makedirs(vd, exist_ok=True)
        srcs = lib_sources()
        self.flags(v)
        objs = [vd + "/" + os.path.basename(s)[:-2] + ".o" for s in srcs]
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda a: self.compile(a[0], v, a[1]), zip(srcs, objs)))
        ar = vd + "/libmc.a"
        sh(["ar", "rcs", ar] + objs)
        self.libs[v.name] = ar
        return ar

    def harness(self, name, v, src=None, defines=(), tag="", wraps=None, stateless=False):
        """Links one harness; returns the path of the binary."""
        ar = self.lib(v)
        out = "%s/%s/%s%s" % (self.wd, v.name, name, tag)
        src = src or MC + "/harness/%s.c" % name
        self.compile(src, v, out + ".h.o", defines=defines)
        if stateless and wraps is None: wraps = STATELESS_WRAPS
        w = ["-Wl,--wrap=" + x for x in (([] if name in NOWRAP else WRAPS) if wraps is None else wraps)]
        sh(["clang++", "-no-pie", "-o", out, out + ".h.o"] + [TOOLS + "/%s.o" % f for f in (("stateless", "env") if stateless else ("engine", "env", "spec"))] + [ar] + w + ["-lpthread", "-ldl"])
        return out

import json, subprocess
P = [json.loads(l) for l in open("/verif/properties.jsonl")]
EXPL = "explicit-state exploration of the real code (all interleavings at instruction level, state hashing)"
T = {}
for c in ("C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11").split(): T[c] = EXPL + " with a linearizability decision on every history"
T["C12"] = EXPL + " with mutual-exclusion and arrival-order monitors"
T["C13"] = EXPL + ", search of the state graph for deadlocks and weakly fair non-progress cycles"
T["C14"] = EXPL + ", search for non-progress cycles and step bounds over all schedules"
T["C15"] = EXPL + ", search for non-progress cycles and blocked states"
T["C16"] = EXPL + " with round monitors, fair-cycle search"
T["C17"] = EXPL + "; stateless schedule enumeration (bounded deviations) for fibers"
T["C18"] = "stateless exhaustive enumeration of all fiber programs and kernel-thread schedules within bounds, on the real code"
T["C19"] = "exhaustive enumeration of operation sequences on the real code against a reference model"
T["C20"] = EXPL + " with every memory access checked against the live allocations"
T["C21"] = "exhaustive enumeration of topologies, policies and thread ids on the real code; schedule exploration for started threads"
T["C22"] = EXPL + " with linearizability decisions; exhaustive operand tables"
T["C23"] = "exhaustive enumeration of operation sequences on the real code against a reference model; all interleavings of concurrent updates"
T["C24"] = EXPL + " over two instances, against the product of two specifications"
T["C25"] = EXPL + " over all boundary values, linearizability decision on every history"
T["C26"] = "stateless exhaustive enumeration of option sequences on the real parser against a reference model"
T["C27"] = "exhaustive enumeration of seeds, ranges and operation sequences on the real code; all interleavings of concurrent use"
NOTE = "Every execution within the bounds listed in the evidence file is explored on the compiled library code of /repo's working tree (LLVM-instrumented: every access to shared memory is a scheduling point). Trusted: the engine, the instrumentation pass, clang -O0 as the semantics of the C code, the environment stubs (NUMA, affinity, allocation) and the reference specifications. Sequentially consistent memory, plus store buffers (x86-TSO) where the job says tso=1."
M = dict(version=1, setup_cmd="python3 -c 'import sys; sys.path.insert(0,\"mc\"); import build; build.tools()'", checks=[], not_applicable=[],
         notes="No hooks in /repo: the instrumentation is an LLVM pass applied when a check compiles /repo's sources. See DESIGN.md.")
for p in P:
    M["checks"].append(dict(property=p["id"], quick_cmd="python3 mc/check.py %s quick" % p["id"], thorough_cmd="python3 mc/check.py %s thorough" % p["id"],
                            evidence_file="evidence/%s.json" % p["id"], technique="model checking: " + T[p["id"]], level="model_checking", level_note=NOTE))
json.dump(M, open("/verif/MANIFEST.json", "w"), indent=1)
import sys
F = [("C02","f8a3302","flat combining passed the combiner's thread id to the sequential function instead of the announcer's"),
 ("C05","c39624e","FCQueue enqueued the wrong value and dequeued the value of the old sentinel node"),
 ("C09","079be33","FCStack did not answer the published empty constant on an empty stack"),
 ("C25","5301330","the combining stacks treated the pushed value INT_MIN as a pop"),
 ("C11","3095ac3","deleting the second key of a hash bucket deleted the first one"),
 ("C11","cd5428c","negative keys indexed cells before the start of the hash table"),
 ("C08","ae6acb7","the dequeue records of SimQueue shared one array of return values for every thread count above one bank"),
 ("C25","14f22e4","LCRQ lost the value -1"),
 ("C16","4a39f3d","a late leave disturbed the next round after synchBarrierLastLeave"),
 ("C17","b918dd9","the second round of synchStartThreadsN inherited the scheduling flags of the first"),
 ("C19","e7638c7","synchDestroyPool released only part of the blocks"),
 ("C26","0c4b781","the documented option --backoff was rejected"),
 ("C21","c8fe6f8","placement divided by zero on one core and reported wrong NUMA nodes"),
 ("C21","be311e5","the sparse SMT-preferring policy gave one core to several threads"),
 ("C21","0799f3f","the dense SMT-preferring policy left a node before it was full"),
 ("C20","862147b","synchFreeMemory could not release memory of synchGetAlignedMemory in NUMA builds"),
 ("C24","c2fbd6f","two HSynch instances with different NUMA settings shared per-thread node information"),
 ("C20","2df39c6","HSynch exceeded its announcement arrays for uneven thread-to-node mappings"),
 ("C20","5e7de42","OsciQueue and OsciStack indexed pools beyond those allocated for the fibers"),
 ("C18","c4f639e","spawning a fiber could overwrite a live fiber"),
 ("C20","d00a86c","only part of the stack of a finished fiber was released"),
 ("C03","ca78c79","Sim configured with two records per thread (a documented value) could return before the operation was applied"),
 ("C22","9f3ba24","the emulated fetch-and-add, compiled with optimisation, read the value once only and spun for ever after losing a race")]
json.dump(dict(findings=[dict(id="F%02d" % (i + 1), property=p, status="fixed", commit=c, what=w, record="fixed: property=%s %s %s" % (p, c, w)) for i, (p, c, w) in enumerate(F)]), open("/verif/known_findings.json", "w"), indent=1)

import json
L="libconcurrent/"
P=[]
def p(id,title,st,over,qt,why,files,mech,state=(),obs=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=[L+f for f in files],mechanism=[dict(name=a,where=L+b) for a,b in mech],
        state=[dict(name=a,meaning=b,where=L+c) for a,b,c in state],observe_at=list(obs),hook_needed=hook)))
S="schedules";I="inputs";H="histories";C="configurations";PR="programs"
T="The benchmark programs run random schedules of one workload and compare one counter at the end"
p("C01","CC-Synch, DSM-Synch and H-Synch apply every operation exactly once, atomically",
 "Every operation submitted to a CC-Synch, DSM-Synch or H-Synch object is applied to the sequential state exactly once, one at a time, with the argument and thread id of the thread that submitted it, and its caller gets the result of that very application. The applications form one total order that respects real time: an operation that returned before another was submitted is applied before it.",
 [S,H,C],"every interleaving of the submitting threads, any number of operations per thread, any number of combining rounds, any NUMA-node count and any mapping of threads to nodes",
 T+", so a lost, duplicated or reordered application, a result delivered to the wrong thread or a combiner hand-off race that needs a specific interleaving is invisible.",
 ["concurrent/ccsynch.c","concurrent/dsmsynch.c","concurrent/hsynch.c","includes/ccsynch.h","includes/dsmsynch.h","includes/hsynch.h"],
 [("announcement list built with swap, combiner traversal and hand-off","concurrent/ccsynch.c"),("node pair toggling and combiner traversal","concurrent/dsmsynch.c"),("per-node announcement lists below one central lock","concurrent/hsynch.c")],
 [("Tail / announcement list","pending operations in arrival order","includes/ccsynch.h"),("completed, locked","hand-shake between combiner and announcer","includes/ccsynch.h")],
 ["return value of the apply calls","final sequential state"])
p("C02","Oyama, flat combining and Osci apply every operation exactly once, atomically",
 "Every operation submitted to an Oyama, flat-combining or Osci object is applied to the sequential state exactly once, one at a time, with the argument and thread id of the thread that submitted it, and its caller gets the result of that very application. The applications form one total order that respects real time. For Osci this includes user-level threads that share one kernel thread.",
 [S,H,C],"every interleaving of the submitting threads (and, for Osci, of the fibers of every kernel thread), any number of operations per thread",
 T+"; validate.sh does not look at which thread id or argument an application received.",
 ["concurrent/oyama.c","concurrent/fc.c","concurrent/osci.c","includes/oyama.h","includes/fc.h","includes/osci.h"],
 [("announcement stack and combiner lock","concurrent/oyama.c"),("publication records scanned by the combiner","concurrent/fc.c"),("per-kernel-thread request batches","concurrent/osci.c")],
 [("pending/valid flags","which requests are announced and not yet served","includes/fc.h")],["return value of the apply calls","final sequential state"])
p("C03","PSim objects are linearizable for any number of threads",
 "An object built with the wait-free PSim construction behaves like its sequential function applied atomically: every operation takes effect exactly once between its invocation and its response, with the argument and thread id of its caller, and returns the value that application produced. This holds for every configured thread count, including counts above 64, and for any set of thread ids in range.",
 [S,H,C],"all interleavings of announcing, copying, applying and publishing, all thread counts and thread-id combinations",
 T+" and never use more than a handful of threads, so the second and later 64-thread banks of the announcement vector are never exercised.",
 ["concurrent/sim.c","includes/sim.h","includes/tvec.h"],
 [("toggle-vector announcement, versioned copy of the state, compare-and-swap publication","concurrent/sim.c")],
 [("state pointer with sequence number","current published copy","includes/sim.h"),("toggles / applied","who has announced and who has been served","includes/sim.h")],["SimApplyOp return values"])
p("C04","The lock-free universal object applies each operation atomically, exactly once",
 "Each operation applied through the lock-free universal object takes effect exactly once, atomically, between invocation and response, on the value current at that instant, and returns the result of that application; the initial value is the one given at initialisation.",
 [S,H,I],"all interleavings of any number of threads, all 64-bit states and arguments, all backoff settings",
 T+", and two threads seldom collide in the few instructions between read and compare-and-swap.",
 ["concurrent/lfuobject.c","includes/lfuobject.h"],[("read, apply on a copy, compare-and-swap","concurrent/lfuobject.c")],[],["LFUObjectApplyOp return values"])
p("C05","The blocking queues are linearizable FIFO queues",
 "The CC-, DSM-, H-, Osci- and flat-combining queues behave like one sequential FIFO queue: concurrently enqueued values come out exactly once, in an order consistent with real time, and a dequeue reports empty only if the queue really was empty at some instant during the call. This holds although enqueuers and dequeuers proceed independently of each other and nodes are recycled.",
 [S,H,C],"all interleavings of enqueuers and dequeuers from any initial length, including empty and one-element queues, with and without node recycling",
 "The tests only count the nodes left after balanced enqueue/dequeue pairs, so order, duplication and wrong empty answers go unnoticed.",
 ["concurrent/ccqueue.c","concurrent/dsmqueue.c","concurrent/hqueue.c","concurrent/osciqueue.c","concurrent/fcqueue.c"],
 [("two combining instances, one per end, around a sentinel node","concurrent/ccqueue.c"),("same with NUMA-aware combining","concurrent/hqueue.c"),("same with flat combining","concurrent/fcqueue.c")],
 [("first/last","sentinel and last node of the list","includes/ccqueue.h")],["dequeue return values"])
p("C06","MS-Queue is a linearizable FIFO queue",
 "The Michael-Scott queue behaves like a sequential FIFO queue under any concurrency: each value comes out exactly once, in an order consistent with real time, and empty is reported only if the queue was empty at some instant during the call.",
 [S,H],"all interleavings of any number of enqueuers and dequeuers, including helping of a lagging tail and reuse of nodes",
 "The tests only count the nodes left after balanced pairs; ABA and lagging-tail schedules are not reached on purpose.",
 ["concurrent/msqueue.c","includes/msqueue.h"],[("tail helping and compare-and-swap on next/head","concurrent/msqueue.c")],[("head/tail","queue ends","includes/msqueue.h")],["MSQueueDequeue return values"])
p("C07","LCRQ is a linearizable FIFO queue across ring wrap-around and ring changes",
 "LCRQ behaves like a sequential FIFO queue under any concurrency: each value comes out exactly once, in an order consistent with real time, and empty is reported only if the queue was empty at some instant during the call. This stays true when rings wrap around, fill up, get closed and are replaced by fresh rings.",
 [S,H,C],"all interleavings, all ring sizes, any number of ring closings",
 "With rings of 2^14 cells the tests never close a ring or wrap under contention; they only count leftovers.",
 ["concurrent/lcrq.c","includes/lcrq.h"],[("fetch-and-add tickets, 128-bit compare-and-swap on cells, closed bit","concurrent/lcrq.c")],[("cell (safe bit, index, value)","state of one ring cell","includes/lcrq.h")],["LCRQDequeue return values"])
p("C08","SimQueue is a linearizable FIFO queue",
 "The wait-free SimQueue behaves like a sequential FIFO queue under any concurrency and any thread count: each value comes out exactly once, in an order consistent with real time, every dequeue gets its own answer, and empty is reported only if the queue was empty at some instant during the call.",
 [S,H,C],"all interleavings of enqueuers and dequeuers, thread counts below, at and above 64, node recycling on and off",
 "The tests only count nodes left; answers swapped between dequeuers or values delivered twice go unnoticed.",
 ["concurrent/simqueue.c","includes/simqueue.h"],[("separate versioned enqueue and dequeue states, linking of batches","concurrent/simqueue.c")],[("EnqState/DeqState records","published copies of both ends","includes/simqueue.h")],["SimQueueDequeue return values"])
p("C09","The blocking stacks are linearizable LIFO stacks",
 "The CC-, DSM-, H-, Osci- and flat-combining stacks behave like one sequential LIFO stack: pushed values come out exactly once, in an order consistent with LIFO and real time, and a pop reports empty only if the stack really was empty at some instant during the call.",
 [S,H,C],"all interleavings of pushers and poppers, with and without node recycling",
 "The tests only count the nodes left after balanced push/pop pairs.",
 ["concurrent/ccstack.c","concurrent/dsmstack.c","concurrent/hstack.c","concurrent/oscistack.c","concurrent/fcstack.c"],
 [("sequential stack behind the combining object","concurrent/ccstack.c"),("combiner-side node allocation","concurrent/hstack.c")],[("head","top of the stack","includes/ccstack.h")],["pop return values"])
p("C10","The non-blocking stacks are linearizable LIFO stacks despite node reuse",
 "The lock-free stack and the wait-free SimStack behave like a sequential LIFO stack under any concurrency: each value comes out exactly once, in an order consistent with LIFO and real time, and empty is reported only if the stack was empty at some instant during the call. Reuse of popped nodes never makes a value reappear or disappear.",
 [S,H,C],"all interleavings of pushers and poppers including reuse of a node while another thread still holds a reference to it, all thread counts for SimStack",
 "The tests only count nodes left, and ABA needs a pop to be suspended across a whole pop-pop-push sequence.",
 ["concurrent/lfstack.c","concurrent/simstack.c"],[("compare-and-swap on the top pointer","concurrent/lfstack.c"),("versioned copies of the top, local node pools with rollback","concurrent/simstack.c")],[("top","top of the stack","includes/lfstack.h")],["pop return values"])
p("C11","The hash tables behave as a set of keys under concurrency, for every key",
 "The CLH and DSM hash tables behave like a linearizable map from keys to presence: a search finds a key exactly when the last insert of that key in the linearization order has not been followed by a delete of it, whatever other keys share its bucket, and delete removes that key and no other. This holds for every key value and every number of buckets.",
 [S,H,I],"all interleavings of insert/search/delete on equal, colliding and distinct keys, all keys including negative ones, all bucket counts",
 "The hash benchmarks only run random operations and check nothing about membership.",
 ["concurrent/clhhash.c","concurrent/dsmhash.c","includes/clhhash.h","includes/dsmhash.h"],[("one lock or combining object per bucket, sorted or linked chain","concurrent/clhhash.c"),("combined sequential bucket operations","concurrent/dsmhash.c")],[("cells","buckets","includes/clhhash.h")],["search results after any history"])
p("C12","CLH and MCS locks give mutual exclusion and serve waiters in arrival order",
 "At most one thread is between lock and unlock of the same CLH or MCS lock at any time, everything written inside a critical section is visible in the next one, and a thread that is already queued is served before any thread that arrives later.",
 [S,PR],"all interleavings of any number of lock/unlock rounds by any number of threads, including reuse of queue nodes and more than one lock",
 "A few threads incrementing a counter cannot distinguish FIFO service from luck and seldom hit the hand-over window.",
 ["concurrent/clh.c","concurrent/mcs.c","includes/clh.h","includes/mcs.h"],[("predecessor queue built with swap","concurrent/clh.c"),("explicit successor link, compare-and-swap on release","concurrent/mcs.c")],[("Tail","last waiter","includes/clh.h")],["critical-section entry order"])
p("C13","Calls on blocking objects never deadlock, and queued waiters never starve",
 "As long as every thread keeps being scheduled, finite programs over blocking objects (combining objects, queues, stacks, hash tables, CLH and MCS locks) always finish: no execution reaches a state in which every unfinished call waits forever. On CC-Synch, DSM-Synch, H-Synch, Osci and the CLH and MCS locks every single call returns, even if the other threads keep issuing new operations for ever.",
 [S,H,C],"all weakly fair schedules, finite and endless client loops, kernel threads and cooperatively scheduled fibers",
 "A run that finishes shows nothing about the schedules in which a wake-up is lost; a hang needs one specific interleaving.",
 ["concurrent/ccsynch.c","concurrent/dsmsynch.c","concurrent/hsynch.c","concurrent/oyama.c","concurrent/fc.c","concurrent/osci.c","concurrent/clh.c","concurrent/mcs.c"],[("combiner hand-off and release","concurrent/ccsynch.c"),("lock release","concurrent/clh.c")],[],["completion of every call"])
p("C14","PSim, SimQueue and SimStack operations are wait-free",
 "Every operation on a PSim object, SimQueue or SimStack finishes within a number of its own steps that does not depend on what the other threads do: it never waits for a stopped thread and no schedule of the others can keep it from finishing. (With fetch-and-add and swap provided by the processor.)",
 [S,C],"all schedules, including those that suspend any other threads forever at any point, all thread counts",
 "Tests never suspend a thread forever, and a loop that only an adversarial schedule prolongs always ends in practice.",
 ["concurrent/sim.c","concurrent/simqueue.c","concurrent/simstack.c"],[("two bounded attempts, then the answer is guaranteed to be published by a helper","concurrent/sim.c")],[],["own-step count of every call"])
p("C15","LFStack, MS-Queue, LCRQ and the universal object are lock-free",
 "In every execution of the lock-free stack, the Michael-Scott queue, LCRQ or the lock-free universal object some operation completes after finitely many steps: a thread stopped at any point never blocks the others, and the threads never undo each other's work forever.",
 [S,C],"all schedules, including those that suspend any threads forever at any point",
 "Tests never suspend a thread forever, so a hidden wait or a helping step that is skipped cannot show.",
 ["concurrent/lfstack.c","concurrent/msqueue.c","concurrent/lcrq.c","concurrent/lfuobject.c"],[("helping the lagging tail","concurrent/msqueue.c"),("ring closing","concurrent/lcrq.c"),("compare-and-swap retry loops","concurrent/lfstack.c")],[],["completion of calls"])
p("C16","The barrier releases nobody early and everybody eventually, round after round",
 "No participant returns from round k of a barrier before every participant has entered round k, and once they all have, every one of them returns; this holds for any number of consecutive rounds and after any re-initialisation, also with a different number of participants. The last-leave call returns only after every other participant has left, and then always returns, and leaves the barrier ready for further use.",
 [S,H],"all interleavings, any number of threads and rounds, participants leaving after any round, any re-initialisation",
 "The tests cross one or two barriers; a participant that laps the others into the next round needs a specific schedule.",
 ["primitives/barrier.c","includes/barrier.h"],[("arrive and leave counters with two flags","primitives/barrier.c")],[("arrive, leave","outstanding arrivals and departures","includes/barrier.h")],["order of wait returns"])
p("C17","Starting and joining threads runs every thread function exactly once",
 "Starting n threads runs the given function exactly once for each id 0..n-1, in kernel threads or in fibers of kernel threads; inside, the thread-id and kernel-thread-id queries answer with the ids the caller was given. Joining returns only after all of them have finished, and always returns; the runtime can be used again for any further round with different thread and fiber counts.",
 [S,C,PR],"all interleavings, all thread counts and fiber counts that divide them, any sequence of start/join rounds",
 "Every test process runs exactly one round with one thread/fiber shape and never looks at the ids.",
 ["primitives/threadtools.c","includes/threadtools.h"],[("wrapper functions, exit barrier","primitives/threadtools.c")],[("scheduling flags","how rescheduling is done","primitives/threadtools.c")],["ids seen by the functions","return of join"])
p("C18","Fibers run to completion exactly once, without losing or mixing state",
 "Every spawned fiber runs its function exactly once with its own argument and stack, a yield resumes the caller with its local state intact after the other runnable fibers have had their turn, and waiting for all fibers returns when and only when all have finished. The fiber index reported inside a fiber is its own.",
 [PR,S,C],"all programs of spawn/yield/finish/wait within a bound, all fiber counts, repeated use, several kernel threads",
 "The tests only run benchmark loops with a fixed number of fibers and never check resumption order, indices or stacks.",
 ["primitives/uthreads.c","includes/uthreads.h"],[("context switch over a round-robin list","primitives/uthreads.c")],[("fiber list","live fibers of one kernel thread","primitives/uthreads.c")],["fiber results and order"])
p("C19","The object pool never hands out overlapping or dead objects",
 "Objects handed out by a pool lie inside memory the pool owns, do not overlap any other object that is currently handed out, and keep their contents until they are recycled; recycled or rolled-back objects can be handed out again, and an object size the pool cannot serve is refused. Destroying a pool releases all memory it obtained.",
 [H,I,C],"all sequences of allocate, recycle, rollback and destroy up to a bound, all object sizes from one byte to beyond the block size, recycling on and off",
 "The benchmarks use one object size and never look at the addresses returned.",
 ["primitives/pool.c","includes/pool.h"],[("bump allocation in blocks plus a recycle list","primitives/pool.c")],[("block chain and recycle list","free space","includes/pool.h")],["addresses returned","blocks released"])
p("C20","No library operation touches memory that is not its own",
 "No operation of any object reads or writes outside the memory allocated for it, uses memory after it was released, releases it twice, or divides by zero, for every supported thread count, thread id, fiber count, NUMA-node setting and ring or table size.",
 [S,H,C],"all interleavings and all configurations within the bounds: thread counts up to and above 64, one to several NUMA regions, fibers, NUMA support compiled in or out, compact or non-compact allocation",
 "An overrun into neighbouring memory of the same mapping does not crash, and the tests use one or two shapes of configuration.",
 ["concurrent/hsynch.c","concurrent/osciqueue.c","concurrent/oscistack.c","concurrent/sim.c","concurrent/simqueue.c","concurrent/simstack.c","primitives/pool.c","primitives/primitives.c"],[("sizing of announcement arrays and pools from the thread count","concurrent/hsynch.c"),("per-thread pools","concurrent/osciqueue.c")],[],["every memory access of the instrumented code"])
p("C21","Thread placement spreads threads correctly on every machine topology",
 "For every machine topology and policy, the core chosen for a thread exists, the NUMA node reported for it is the node that really contains that core, and n threads on a machine with at least n cores get n different cores; threads started by the library run on the core chosen for them. The sparse policies distribute consecutive threads evenly over the NUMA nodes (the plain one using a free physical core before a second hardware thread, the SMT-preferring one filling the hardware threads of each core it has started). The dense policies fill one node before the next; their SMT-preferring form puts each pair of consecutive threads on one physical core.",
 [C,I],"all balanced topologies (nodes, cores per node, SMT on or off) up to a bound, all thread ids, all policies",
 "The tests run on one machine with the default policy and never look at the core numbers.",
 ["primitives/threadtools.c","includes/threadtools.h"],[("placement arithmetic","primitives/threadtools.c")],[("policy","selected placement","primitives/threadtools.c")],["core requested from the operating system","preferred core and node queries"])
p("C22","Atomic primitives are atomic and equal their sequential meaning",
 "Compare-and-swap on pointers, 32-, 64- and 128-bit words, swap, fetch-and-add and bit-test-and-set act atomically as one step: the value or success they report and the value they leave are those of the sequential definition for all operands, whether native or emulated by compare-and-swap, and neighbouring memory is never touched. Bit search and bit count agree with their definition for all words.",
 [S,I,C],"all interleavings of any mix of primitives on the same word, boundary operands, native and emulated builds",
 "Single-threaded use cannot show lost updates, and the emulated configurations are never built by the tests.",
 ["primitives/primitives.c","includes/primitives.h"],[("compiler builtins, inline assembly, compare-and-swap loops","primitives/primitives.c")],[],["return values and final memory"])
p("C23","Toggle vectors are exact bit sets for every length",
 "Toggle-vector operations agree with operations on a vector of 64-bit words of the given length: initialise, zero, set, reverse, test, count, copy, and, or, xor and negation of whole vectors and of single banks touch exactly the addressed bits, across word boundaries, and never anything outside the vector. Threads that concurrently add their own bit to a shared vector change exactly that bit.",
 [I,H,S],"all operation sequences up to a bound, lengths of one to several words, all bit positions around word boundaries; interleaved atomic updates",
 "The vectors are only ever used with fewer than 64 threads by the tests, so everything beyond the first word is dead code there.",
 ["includes/tvec.h"],[("per-word loops and bank/offset arithmetic","includes/tvec.h")],[("words of the vector","the bit set","includes/tvec.h")],["return values and contents"])
p("C24","Separate instances never influence each other",
 "Any number of objects of the same kind or of different kinds can be used by the same threads at the same time: operations on one have no effect on the contents, the results or the progress of another, and each of them keeps all its guarantees.",
 [S,H,C],"all interleavings and programs over two instances with the same or different settings",
 "Every test program uses one instance.",
 ["concurrent/hsynch.c","concurrent/ccsynch.c","concurrent/dsmsynch.c","concurrent/ccqueue.c","concurrent/hqueue.c","concurrent/simqueue.c","concurrent/lfstack.c"],[("per-instance and per-thread state","concurrent/hsynch.c")],[("thread-local and static variables","state outside the instance","concurrent/hsynch.c")],["results on each instance"])
p("C25","Queues and stacks carry every ordinary 64-bit value unchanged",
 "Every queue and stack returns exactly the value that was inserted, for every 64-bit value other than the two reserved sentinel constants published by the library, and answers the published empty constant, and nothing else, when there is nothing to return.",
 [I,H,C],"all boundary values (zero, minus one, limits of 32- and 64-bit integers and their neighbours) in every position of short histories, for all queues and stacks",
 "The tests insert small positive thread numbers and never compare the values.",
 ["includes/queue-stack.h","concurrent/ccstack.c","concurrent/fcqueue.c","concurrent/fcstack.c","concurrent/lcrq.c"],[("operation encoding and empty markers","concurrent/ccstack.c"),("published sentinels","includes/queue-stack.h")],[],["values returned by dequeue and pop"])
p("C26","Benchmark arguments are interpreted as documented",
 "For every combination of documented options, short or long, in any order, the parsed settings equal the values given, unspecified settings keep their documented defaults, the number of threads is the number of kernel threads times the fibers per thread, and the total number of operations is divided evenly among the threads.",
 [I,C],"all option sequences up to a bound, with boundary values, short and long spellings",
 "The tests pass three fixed option combinations.",
 ["primitives/bench_args.c","includes/bench_args.h"],[("option table and post-processing","primitives/bench_args.c")],[],["fields of the parsed settings"])
p("C27","Random and backoff helpers stay within their promised ranges",
 "Random numbers drawn from a range stay inside that range for every seed, and every thread's sequence depends on its own seed only. A backoff object always ends its delay, keeps its limit between the initial value and the cap, never shrinks below the base and never grows beyond the cap.",
 [I,H,S],"all seeds and bounds around the boundaries, all sequences of grow/shrink/reset up to a bound, concurrent use by several threads",
 "The tests use the generator only to vary work and never look at its values.",
 ["primitives/backoff.c","primitives/fastrand.c","includes/backoff.h","includes/fastrand.h"],[("linear congruential generator per thread","primitives/fastrand.c"),("bounded exponential delay","primitives/backoff.c")],[],["returned numbers and delays"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))

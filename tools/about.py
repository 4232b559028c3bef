"""What the checks say about themselves in the evidence, and their sizes."""
THOROUGH = 25          # thorough runs / quick runs
SAMPLES = [1, 17]

PROBES = {
    1: "operations that panicked because an allocation failed, with the program going on",
    2: "runs with several first draws",
    3: "runs whose first draws or seedings overlapped in time",
    4: "explicitly seeded values compared with a fresh process",
    5: "streams whose origin was not a seed of the run",
    6: "thread streams compared with a fresh process",
    7: "file reads that succeeded",
    8: "file reads that reported an error",
    9: "WAV files rejected",
    10: "WAV files decoded and compared",
    11: "Send/Sync programs compiled against the library",
    12: "element types that the library let another thread share or own",
}

REAL = [
    "essay-tensor from /repo's working tree, unmodified, compiled with memory-access instrumentation",
    "Rust standard library (Arc, Vec, fs, io, thread-locals, formatting), rustfft, num-complex and other dependencies, as shipped",
    "kernel threads: every simulated thread is a real OS thread, but only the one the scheduler chose ever runs",
]
STUB = [
    "thread scheduling: a seeded scheduler decides at every atomic operation, every access to memory two threads touch, every user callback, every operation and every I/O call",
    "memory: a deterministic arena allocator with fault injection that knows every block and element and reuses addresses at once in a quarter of the runs, never in the others",
    "file system below /simfs: open, read, readv, fstat, statx, lseek, close are answered by a simulated disk",
    "entropy: getrandom and /dev/urandom return seeded bytes",
    "time: clock_gettime returns simulated time that advances with scheduling steps",
    "user code: element types, callbacks and programs are generated",
]
ASSUME = [
    "Sequentially consistent interleavings; data races are detected with vector clocks from the orderings the code asks for, but stale values of relaxed atomics are not produced.",
    "The standard library and the dependencies are not checked for races inside themselves, only their accesses to the simulated heap made in instrumented code are.",
    "Linux x86-64, two build profiles (overflow checks on and off).",
    "Sampling: absence of a violation in the runs explored, not for all runs.",
]

W = ("Each run draws from one seed: element type, tensor sizes, 1-5 threads, their programs over the public API, the faults of "
     "each operation and the scheduling policy (random with five densities, PCT, no preemption). ")
NT = ("A run counts as non-trivial if at least one operation ran and it had a context switch or an injected fault; distinct ones "
      "are counted by a hash of the complete event history, per build profile.")

PROPS = {
    "C01": dict(runs=80000, scenario=0, rule=W + "Every allocation, release, element construction and drop and every access to the heap is checked while it runs; handle counts of every storage block are compared with the allocator at each drop and at the end. " + NT),
    "C02": dict(runs=80000, scenario=0, need=[11], rule=W + "Contents of all live handles are compared with their model from several threads while operations run; every access of shared heap memory is checked for a happens-before edge. " + NT),
    "C03": dict(runs=90000, scenario=0, rule=W + "Half of the operations get a panic at the n-th user call (callback, clone, arithmetic, comparison, formatting). " + NT),
    "C04": dict(runs=90000, scenario=0, need=[1], rule=W + "Half of the operations get a failing allocation at the n-th request, once or from there on; the allocation-error path ends the run or panics. " + NT),
    "C05": dict(runs=80000, scenario=3, need=[7, 8], rule="Each run draws files, a history of writers (append, truncate, overwrite, atomic replace) and reader threads, and for every I/O call short counts, EINTR, EIO, ENOSPC-like errors, wrong sizes. Every read result is compared with the recorded history of the file. " + NT),
    "C06": dict(runs=60000, scenario=4, need=[9, 10], rule="Each run writes generated WAV files through a simulated disk that tears, truncates, zeroes, duplicates, swaps or flips bytes at a crash, then decodes them in several threads, as whole tensors, views and through read_file. An independent parser says whether the file must be rejected or what its samples are. " + NT),
    "C07": dict(runs=120000, scenario=1, need=[2, 3], rule="Each run starts up to 8 threads that draw, set the seed and die in any order, with entropy that may repeat; the recorded history of first draws and seedings is checked for linearizability against the sequential stream allocator. " + NT),
    "C08": dict(runs=50000, scenario=2, need=[4, 6], rule="Each run makes seeded and unseeded draws of every kind in several threads, with other threads re-seeding and failing operations in between; seeded values and whole thread streams are compared with those of a fresh single-threaded process. " + NT),
    "C09": dict(runs=180000, scenario=0, rule=W + "Every result is compared with an independent sequential definition, also for nested calls and after panics. " + NT),
    "C10": dict(runs=80000, scenario=0, rule=W + "Threads are suspended inside user code until all others are done or die there; the others have to finish. " + NT),
    "C11": dict(runs=90000, scenario=0, rule=W + "Callbacks log the identity of their operands; the log is compared with the sequence the sequential definition gives, and has to be a prefix of it after a panic. " + NT),
}

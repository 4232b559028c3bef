#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Shared storage is released exactly once, with its last handle",
  "However many threads clone, view, move and drop handles to one tensor, and in whatever order, every element is dropped exactly once and the storage is released exactly once: when the last handle or view over it is dropped, and not before. "
  "No operation, even one called with invalid arguments, reads or writes storage that was released or memory outside the tensor's elements. "
  "A program that drops all its handles keeps none of that storage allocated.",
  ["schedules", "histories", "inputs"],
  "Every interleaving, at the level of single memory accesses, of clone/view/move/drop and of every operation over shared handles in any number of threads; every element type (heap-owning, over-aligned, zero-sized, plain) and every shape including empty ones; for tensors obtained from the library's constructors and operations, whose public fields the program does not overwrite.",
  "The suite drops tensors on one thread in one order for a handful of shapes; it has no threads, never checks the allocator, and cannot see a read past the end of a buffer or a leak.",
  ["src/tensor/data.rs", "src/tensor/tensor.rs", "src/tensor/map.rs", "src/tensor/from.rs", "src/array/split.rs", "src/linalg/matmul.rs", "src/linalg/matvec.rs"],
  [("reference-counted storage", "Tensor.data: Arc<TensorData<T>>, src/tensor/tensor.rs"),
   ("single deallocation", "impl Drop for TensorData, src/tensor/data.rs"),
   ("raw initialisation into fresh storage", "unsafe_init, src/tensor/data.rs"),
   ("bounds of views", "subslice_flat, get, as_wrap_slice*, src/tensor/tensor.rs")],
  state=[("storage", "buffer of elements shared by all handles and views", "TensorData"), ("offset,size", "window of a view", "Tensor")],
  observe=["allocator calls (alloc, dealloc with layout)", "element Clone/Drop", "every load and store in the storage"])

prop("C02", "A tensor never changes while any handle to it is alive, in any thread",
  "From construction until its last handle is dropped, a tensor's shape and elements read the same through every handle and view in every thread, whatever other operations run meanwhile, including operations that take or consume handles to the same storage. "
  "Programs that use tensors from several threads through the safe API have no data race. "
  "An element type that must not be shared or sent between threads cannot be shared or sent by putting it in a tensor.",
  ["schedules", "histories", "inputs"],
  "Every interleaving of any operations over shared handles, views and moved handles in any number of threads.",
  "The tests run one operation at a time on one thread and compare results once; they never re-read an operand while or after another thread works on the same storage, and cannot observe a data race.",
  ["src/tensor/data.rs", "src/tensor/tensor.rs", "src/tensor/shape.rs", "src/tensor/map.rs", "src/math/num.rs", "src/array/stack.rs"],
  [("immutable shared buffer", "TensorData is only written in unsafe_init before it is shared, src/tensor/data.rs"),
   ("Send/Sync bounds", "unsafe impl Send/Sync for TensorData, src/tensor/data.rs")],
  observe=["contents read through every handle after and during each operation", "happens-before of all accesses to storage and statics"])

prop("C03", "A panic inside a callback or element clone leaves everything consistent",
  "If a user callback, an element's clone or an element's arithmetic panics at any point inside any operation, the panic reaches the caller of that operation, no element is dropped twice, nothing that was never constructed is dropped or observed, and the memory of the existing tensors is untouched. "
  "Tensors that existed before the call are unchanged and are still released exactly once. "
  "Afterwards every operation, in that thread and in all others, keeps working and returns correct results.",
  ["fault_sequences", "schedules", "histories"],
  "Every operation, every invocation of user code inside it as the panic point, any sequence of such failures, concurrently with other threads using the same tensors.",
  "No test panics inside a callback; the failure points (operation x call index x concurrent history) are unbounded and the damage (double drop, use of uninitialised element, poisoned shared state) shows only in what is dropped later.",
  ["src/tensor/map.rs", "src/tensor/data.rs", "src/tensor/tensor.rs", "src/array/split.rs", "src/array/stack.rs", "src/array/tile.rs", "src/array/transpose.rs", "src/init/matrix.rs"],
  [("tensor is built only after the initialiser returns", "unsafe_init, src/tensor/data.rs"),
   ("no global state held across callbacks", "src/tensor/map.rs")],
  observe=["panic payload at the caller", "element registry (constructed, dropped)", "contents of all live handles afterwards"])

prop("C04", "A failed allocation never leads to use of memory that was not obtained",
  "If any memory allocation inside any operation fails, the operation completes with a correct result, panics, or goes to the standard allocation-error path; it never reads, writes or frees memory it did not obtain and never returns a tensor over such memory. "
  "If the program survives the failure, tensors that existed before are unchanged and still released exactly once, and later operations work. "
  "No operation asks the allocator for an invalid (zero-sized) allocation.",
  ["fault_sequences", "histories"],
  "Every allocation made inside every operation as the failing one, single and repeated failures, with a program that dies in or survives (unwinds from) the allocation-error path.",
  "Tests never make the allocator fail, and cannot: the process allocator is not injectable from the suite.",
  ["src/tensor/data.rs", "src/tensor/tensor.rs", "src/io/read_file.rs", "src/io/decode_wav.rs", "src/signal/rfft.rs", "src/stats/histogram.rs"],
  [("raw allocation", "unsafe_init, src/tensor/data.rs"), ("Vec and Box allocation", "all other construction paths")],
  observe=["process allocator", "allocation-error hook", "every load and store in heap memory"])

prop("C05", "read_file returns exactly the file's bytes or an error, under any I/O fault",
  "Reading a file returns all of its bytes in order, or an error: short reads, interrupted system calls and a reported size that differs from the content never truncate, pad, repeat or reorder data, and an I/O error is never reported as success. "
  "Without a hard I/O error the call succeeds; if the file is changed while it is read, every returned byte is one the file held at that position during the call, the length is one between the smallest and largest size of that time, and a file replaced atomically is returned as one of its versions. "
  "In every outcome the file handle is closed.",
  ["fault_sequences", "inputs", "schedules"],
  "Every file content and size, every sequence of partial, interrupted and failing open/stat/read calls, and every interleaving with a process appending to, truncating, overwriting or replacing the file.",
  "The one test reads one small file from a path that does not exist in this checkout (it fails); a local disk never returns a short read, EINTR or EIO on demand.",
  ["src/io/read_file.rs"],
  [("read into a buffer sized from metadata", "read_file, src/io/read_file.rs")],
  observe=["open/stat/read/close system calls", "returned tensor"])

prop("C06", "A torn, truncated or corrupted WAV file is decoded exactly or rejected",
  "A complete 16-bit PCM WAV file decodes to its samples (frames x channels, scaled to [-1, 1)) and its sample rate. "
  "A file left truncated, torn or corrupted by a crash or by the disk is rejected with an ordinary panic whenever its header is not that of such a file or disagrees with the amount of data; otherwise the result is exactly the samples stored in the file, never invented, shifted or dropped ones. "
  "Whatever the bytes, decoding never aborts the process, never touches memory outside the file's bytes and never asks for memory out of proportion to the file's size.",
  ["crash_points", "fault_sequences", "inputs"],
  "Every WAV content (channels, length, sample values), every crash point of the process writing it with any subset of its blocks reaching the disk, every flipped, lost or duplicated block, and every read pattern.",
  "The only test decodes one asset that is not in the checkout (it fails); corrupt files and torn writes are not sampled at all.",
  ["src/io/decode_wav.rs", "src/io/read_file.rs"],
  [("header assertions and bounds-checked cursor", "decode_wav and Cursor, src/io/decode_wav.rs")],
  observe=["returned tensors", "panic or abort", "allocation sizes"])

prop("C07", "Concurrent threads get the seeded random streams, each exactly once",
  "After the process-wide seed is set, the k-th thread to draw its first random number gets the k-th stream determined by that seed alone, so concurrent first draws (and concurrent re-seedings) behave as if executed one at a time in some order compatible with real time. "
  "Between two settings of the seed no two threads share a stream, also when no seed was ever set and even if the system's entropy source returns the same bytes to several threads. "
  "The first draw of a thread always terminates.",
  ["schedules", "fault_sequences", "histories"],
  "Every interleaving of first draws, later draws and re-seedings in any number of threads starting and exiting at any time; every seed; every behaviour of the entropy source, including repeated and zero bytes.",
  "Tests draw from one thread with a fixed seed compiled in for tests, so neither the compare-and-swap retry nor the entropy path is ever executed.",
  ["src/random/random.rs", "src/init/random.rs"],
  [("compare-and-swap on the process seed", "LOCAL_RNG initialiser, src/random/random.rs"), ("random_seed", "src/random/random.rs")],
  state=[("process seed", "seed of the next stream; 0 means take entropy", "SEED"), ("thread stream", "generator of one thread", "LOCAL_RNG")],
  observe=["values drawn per thread with invocation and response order"])

prop("C08", "Random values depend only on their seed and the thread's own history",
  "A tensor or generator created with an explicit seed has the same values in every thread, under every schedule and after any history of other calls. "
  "Draws without explicit seed advance only the calling thread's stream, by the same amount whatever other threads do, and neither explicit seeding, failed operations nor re-seeding the process disturb a stream already started.",
  ["schedules", "histories", "configurations"],
  "Every interleaving and history of seeded and unseeded generation, direct generator use and re-seeding in any number of threads.",
  "Tests call each generator from one thread in a fresh process, so any hidden shared or carried-over state (cached deviate, shared generator) is invisible to them.",
  ["src/random/random.rs", "src/init/random.rs"],
  [("generator state owned by the call", "Normal::init, Uniform::init, src/init/random.rs"), ("per-thread generator", "LOCAL_RNG, src/random/random.rs")],
  observe=["generated values, compared with the same call executed alone in a fresh process"])

prop("C09", "Concurrent, nested and post-failure operations equal their sequential result",
  "Whatever other threads do, whatever was called before (including calls that panicked), and whether or not it is called from inside another operation's callback, every operation returns exactly the shape and elements that its sequential definition gives for its operands. "
  "This holds for construction and conversion, views and reshaping, element-wise and broadcast operations, folds, reductions and normalisation, splitting, stacking and tiling, linear algebra, FFT, histograms and initialisers, for views and whole tensors alike. "
  "A call whose operands violate its requirements panics and has no other effect.",
  ["schedules", "histories", "inputs", "programs"],
  "Every program of operations over shared and private tensors in any number of threads, every interleaving, every nesting through callbacks and every sequence of earlier failures.",
  "Tests evaluate single operations on fresh whole tensors of a few small shapes on one thread; they cannot see state carried between calls, threads or nested calls, nor operands that are views into shared storage.",
  ["src/tensor", "src/array", "src/math", "src/linalg", "src/signal", "src/stats", "src/init"],
  [("operations are functions of their operands; all scratch state is local to the call", "src/tensor/map.rs, src/signal/rfft.rs, src/stats, src/linalg")],
  observe=["result of every operation of every thread against an executable reference model"])

prop("C10", "No operation ever blocks on another thread or on its own callbacks",
  "Whatever threads are suspended, for however long, inside user callbacks, and whatever threads have died by panic inside an operation, every operation of the other threads completes in a number of its own steps bounded by its operands' sizes. "
  "A callback may itself call any operation, on the same tensors too. "
  "No set of concurrent operations deadlocks or livelocks.",
  ["schedules", "fault_sequences", "programs"],
  "Every set of suspension and death points inside callbacks, every nesting of operations through callbacks, every interleaving.",
  "A single-threaded test cannot block on another thread; nothing in the suite suspends or nests operations.",
  ["src/tensor/map.rs", "src/random/random.rs", "src/init", "src/array", "src/signal"],
  [("operations take no locks", "whole crate"), ("lock-free seed update", "src/random/random.rs")],
  observe=["steps of each thread between invocation and response", "futex waits"])

prop("C11", "Callbacks run exactly once per element, in order, and never after a panic",
  "Element-wise operations and initialisers call the callback exactly once per output element in row-major order with the right operand elements; row-wise and expanding operations exactly once per row or element in order; folds, reductions and normalisation feed every element exactly once to the right output, in increasing order along the reduced axis, starting from a fresh copy of the initial state. "
  "The values a callback returns land at the matching positions. "
  "After a callback panics no callback of that operation runs again, and calls of concurrent operations on the same tensors do not change any of this.",
  ["fault_sequences", "histories", "inputs", "schedules"],
  "Every operation taking a callback, every shape, axis and view, every panic point, concurrent with any other operations and nested calls.",
  "Tests look at results of pure callbacks on a few shapes; they do not observe the calls, their order or what happens when the k-th call fails.",
  ["src/tensor/map.rs", "src/tensor/axis.rs", "src/tensor/shape.rs"],
  [("loops over the elements", "init, init_rindexed, map, map_row, map_expand, map2, map3, fold, fold_axis, fold_row, reduce, reduce_axis, normalize in src/tensor/map.rs")],
  observe=["sequence of callback invocations with argument identities"])

# ---- not claimed: no schedule, clock, fault or interleaving in them
prop("C20", "Axis and broadcast arithmetic follow the documented shape rules",
  "For every pair of shapes and every axis, the result shape of broadcasting, reducing, inserting or removing dimensions follows one rule on the trailing dimensions, negative axes count from the end, and incompatible shapes are refused.",
  ["inputs"], "Every shape of every rank and every axis.", "Tests sample a few shapes.",
  ["src/tensor/shape.rs", "src/tensor/axis.rs"], [("shape arithmetic", "src/tensor/shape.rs")])
prop("C21", "Numeric results are within rounding error of the exact result",
  "Matrix products, FFT magnitudes, means, deviations and the element-wise float functions are within a small multiple of machine precision of the exact real result for all finite operands.",
  ["inputs"], "Every finite operand value.", "Tests sample well-conditioned values.",
  ["src/linalg", "src/signal", "src/math"], [("Welford update, sgemm, rustfft", "src/math/reduce.rs, src/linalg/blas.rs, src/signal/rfft.rs")])
prop("C22", "The generators have the advertised distribution and period",
  "Uniform and normal generators produce values with the advertised range, mean and deviation, and do not cycle within their period.",
  ["inputs"], "Every seed.", "Tests pin a few values.",
  ["src/random/random.rs"], [("LCG/PCG constants", "src/random/random.rs")])
prop("C23", "Conversions from nested arrays and vectors keep row-major order",
  "Converting nested arrays or vectors gives a tensor whose shape is the nesting and whose elements are in row-major order; ragged input is refused.",
  ["inputs"], "Every nesting depth and extent.", "Tests sample a few literals.",
  ["src/tensor/from.rs"], [("From impls", "src/tensor/from.rs")])
prop("C24", "Option builders change exactly the option they name",
  "For every struct given to the option macro, each generated builder call sets exactly the named option and keeps all others.",
  ["programs"], "Every struct accepted by the macro.", "One struct is sampled.",
  ["crates/essay-opt/src/options.rs"], [("derive_opt", "crates/essay-opt/src/options.rs")])
prop("C25", "Debug output shows every element in its row",
  "The debug form of a tensor of any rank lists every element once, in row-major order, bracketed by row.",
  ["inputs"], "Every shape.", "Tests sample four shapes.",
  ["src/tensor/tensor.rs"], [("fmt_tensor_rec", "src/tensor/tensor.rs")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")

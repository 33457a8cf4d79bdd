"""Which simulated scenarios decide which property, and for how long."""
LIB = ["RoughPy core, platform, scalars, intervals, algebra, streams (every source file of the shipped libraries)",
       "libalgebra-lite", "cereal, boost, GMP, the C++ standard library"]
STUB = ["thread scheduling, mutexes, condition variables and call_once (cooperative simulated scheduler)",
        "heap (deterministic arena with seeded fill, reuse and failures)", "clock (virtual)",
        "file system calls of the process (passed to a private scratch directory, with injected faults)",
        "std::random_device (seeded)"]
CASE = ("One evaluation is one seeded case: generated stream and algebra data, operations per task, schedule, heap policy and "
        "fault plan, executed in a freshly forked process.")
RESTART = (" Each case runs two processes one after the other in one scratch directory; the first may be killed at any file system call, "
           "the second sees only what the first had written.")
PROPS = {
    "C01": dict(scenarios=[("streams", 1)], time=45, rule=CASE, real=LIB, stub=STUB),
    "C02": dict(scenarios=[("history", 1)], time=40, rule=CASE, real=LIB, stub=STUB),
    "C03": dict(scenarios=[("streamfault", 1)], time=40, rule=CASE, real=LIB, stub=STUB),
    "C04": dict(scenarios=[("path", 1)], time=30, rule=CASE, real=LIB, stub=STUB),
    "C05": dict(scenarios=[("algebra", 1)], time=30, rule=CASE, real=LIB, stub=STUB),
    "C06": dict(scenarios=[("algfault", 1)], time=30, rule=CASE, real=LIB, stub=STUB),
    "C07": dict(scenarios=[("restart", 1)], time=35, rule=CASE + RESTART, real=LIB, stub=STUB),
    "C08": dict(scenarios=[("torn", 1)], time=30, rule=CASE + RESTART, real=LIB, stub=STUB),
    "C09": dict(scenarios=[("resume", 2), ("saving", 1)], time=50, rule=CASE + RESTART, real=LIB, stub=STUB),
    "C10": dict(scenarios=[("sound", 1)], time=30, rule=CASE, real=LIB + ["libsndfile (the installed library)"], stub=STUB),
    "C11": dict(scenarios=[("memory", 1)], time=30, rule=CASE, real=LIB, stub=STUB),
    "C12": dict(scenarios=[("pyq", 3), ("pyleak", 2)], time=60, py=True, rule=CASE + " The simulated process embeds the Python interpreter.",
                real=LIB + ["RoughPy's Python extension module", "CPython and NumPy (uninstrumented; the interpreter's locks and timers run on the simulator)"],
                stub=STUB + ["the callers: a fixed set of operations written in Python (sim/py_ops.py)"]),
    "C13": dict(scenarios=[("random", 1)], time=25, rule=CASE, real=LIB, stub=STUB),
}

NOTE = ("Seeded random search over simulated executions of the real library code: every violation is exactly repeatable from its replay "
        "file, but schedules, histories and fault plans outside those sampled are not covered. ")
PROPS["C01"]["note"] = NOTE + ("The reference, a fresh stream asked in a fresh process, is itself compared for every query with an independent dense "
                               "tensor-algebra model built from the events alone (for a part of a cell of a stream that caches, with every value that "
                               "is allowed: nothing, the events there, the whole cell).")
PROPS["C02"]["note"] = PROPS["C01"]["note"]
PROPS["C03"]["note"] = PROPS["C01"]["note"] + " Faults: the n-th allocation of an operation, the n-th call of a data source."

PROPS["C04"]["note"] = NOTE + ("Distribution tests are deterministic per seed, with thresholds no correct sampler reaches in the number of "
                               "samples drawn. Increments are compared up to rounding.")
PROPS["C05"]["note"] = NOTE + ("The reference, the operation run alone in a fresh process, is itself compared for every arithmetic operation with an "
                               "independent dense tensor-algebra model (double, float and rational coefficients); printing, comparison, bases, "
                               "contexts and polynomial coefficients are trusted to be right when run alone.")
PROPS["C06"]["note"] = PROPS["C05"]["note"] + (" The only fault is the failure of the n-th allocation through operator new or malloc; "
                                               "allocations inside GMP, which ends the process by design when they fail, always succeed.")

PROPS["C07"]["note"] = NOTE + ("Cache files damaged in place by something other than a crash, a full disk or an interrupted write (bit rot) are "
                               "outside the fault model, as is loss of directory entries that were renamed before the crash.")
PROPS["C09"]["note"] = NOTE + "Allocation failures are injected into the binary archive formats only."
PROPS["C08"]["note"] = NOTE + ("Files end early at any byte, or their end reads as zeros; in the latter case only crashes, hangs and a spoilt target "
                               "are violations, since no format carries a checksum. Files changed in other ways are outside the fault model. Arrays "
                               "are read into empty ones only. Allocation failures are injected into the binary formats only.")
PROPS["C10"]["note"] = NOTE + ("Files are WAV files of 16 and 32 bit integers and of floats; other formats are libsndfile's concern. An answer from a "
                               "file cut short behind the stream's back must either be an error or that of the samples first written.")
PROPS["C12"]["note"] = NOTE + ("Trusts that an operation run alone in a fresh process is right, except where the operation itself compares its result with "
                               "plain Python arithmetic. Allocations fail only while RoughPy has released the interpreter's lock: pybind11's own "
                               "bookkeeping does not survive a failure. Preemption happens where the lock can be handed over and in library code "
                               "that runs without it.")
PROPS["C13"]["note"] = NOTE + ("Histories are checked for linearizability against generators written out in the harness (PCG) or taken from the "
                               "standard library (Mersenne twister, distributions).")
PROPS["C11"]["note"] = NOTE + ("The oracle is a model of the contents of every array, scalar, buffer, stream and event a task holds, compared after "
                               "every operation. Host device only: no OpenCL device is present.")

A = lambda files, state, mech, obs: {"files": files, "state": [{"name": state, "where": files[0]}],
                                     "mechanism": [{"name": n, "where": w} for n, w in mech],
                                     "observe_at": [obs], "hook_needed": None}
ST = "streams/src/"
TEXT = {
 "C01": dict(
    title="Concurrent stream queries answer as if each ran alone",
    statement="For any number of threads issuing any signature, log-signature, derivative, simplification or restriction queries on streams "
              "they share, every query returns, up to rounding, exactly what it returns when it is the only query ever made on a freshly built "
              "stream with the same data. No schedule makes a query crash, hang, race on shared memory or fail.",
    quantifier=dict(over=["schedules", "programs", "inputs"], text="all interleavings of all queries from up to four threads on shared "
                    "Lie-increment, tick, piecewise, external-source and function-backed streams"),
    why_tests_cant="The tests query streams from one thread only, so no interleaving is ever exercised; a race needs a particular schedule.",
    anchors=A([ST + "dyadic_caching_layer.cpp", ST + "dynamically_constructed_stream.cpp", ST + "stream_base.cpp", ST + "stream.cpp",
               "algebra/src/context.cpp"],
              "per-stream caches of log signatures, dynamic interval trees, context registry, product caches",
              [("cache lock", ST + "dyadic_caching_layer.cpp:log_signature"), ("tree lock", ST + "dynamically_constructed_stream.cpp")],
              "values returned by Stream::signature, log_signature, signature_derivative, simplify, restrict")),
 "C02": dict(
    title="Stream answers depend on the arguments, never on earlier queries",
    statement="After any history of earlier queries on a stream (other intervals, resolutions, depths, scalar types, restrictions, "
              "simplifications, failed queries) and whatever callers did to the results they were given, a query returns, up to rounding, "
              "what it returns on a freshly built stream. Where the interval is aligned with the data, the signature is the ordered product "
              "of the exponentials of the increments inside the interval; signatures over adjoining intervals that the stream's resolution "
              "tells apart multiply to the signature over their union.",
    quantifier=dict(over=["histories", "inputs", "configurations"], text="all sequences of queries with mixed intervals, resolutions, contexts "
                    "and stream kinds, on one or two streams in one process"),
    why_tests_cant="Tests make one or two queries per stream; caches and trees make later answers depend on an unbounded history.",
    anchors=A([ST + "dyadic_caching_layer.cpp", ST + "dynamically_constructed_stream.cpp", ST + "lie_increment_stream.cpp",
               ST + "tick_stream.cpp", ST + "piecewise_abelian_stream.cpp", ST + "external_data_stream.cpp", "algebra/src/lite_context.h"],
              "cached log signatures keyed by dyadic interval; dynamic interval tree; shared algebra caches",
              [("cache keyed by interval", ST + "dyadic_caching_layer.cpp"), ("refinement of the tree", ST + "dynamically_constructed_stream.cpp")],
              "values returned by stream queries")),
 "C03": dict(
    title="A query that fails leaves the stream and everything shared intact",
    statement="When memory runs out or the data source fails at any point inside a query, the caller receives that error, the process keeps "
              "running and no lock stays held. Every later query, on that stream or any other, returns exactly what it would have returned had "
              "the failed query never been made.",
    quantifier=dict(over=["fault_sequences", "histories", "schedules"], text="all positions of failing allocations and failing source calls in "
                    "all query sequences, also while other threads are querying"),
    why_tests_cant="No test makes an allocation or a data source fail, so no error path of a query is ever taken.",
    anchors=A([ST + "dyadic_caching_layer.cpp", ST + "dynamically_constructed_stream.cpp", ST + "external_data_stream.cpp",
               "vendored/libalgebra_lite/maps.cpp", "vendored/libalgebra_lite/algebra/lie_multiplier.cpp",
               "vendored/libalgebra_lite/dense_vector.h", "vendored/libalgebra_lite/sparse_vector.h"],
              "caches and trees being extended when the failure strikes",
              [("exception propagation out of a query", ST + "stream.cpp"), ("roll back of a half-made split", ST + "dynamically_constructed_stream.cpp")],
              "error returned by the failing query; values returned by later queries")),
 "C05": dict(
    title="Algebra operations on shared contexts, bases and operands are thread safe",
    statement="Contexts, bases, product and bracket caches, conversion tables and scalar types are shared by the whole process. Whatever "
              "operations (products, exponentials, logarithms, Baker-Campbell-Hausdorff, antipode, half-shuffle, conversions between Lie and "
              "tensor, between scalar types and between dense and sparse, printing, archives, scalar arithmetic) any number of threads run on "
              "operands they share for reading, every result is the one the operation gives alone in a fresh process, which is that of the "
              "truncated tensor, shuffle and free Lie algebras however the operands are stored; operands of another context are converted or "
              "refused; no operand changes, nothing races, hangs or fails.",
    quantifier=dict(over=["schedules", "programs", "configurations"], text="all interleavings of all operation sequences of up to four threads "
                    "over double, float, rational and polynomial coefficients, dense and sparse, mixed widths and depths"),
    why_tests_cant="The tests run every algebra operation on one thread in one order; first-use initialisation and cache fills are never "
                   "interleaved with anything.",
    anchors=A(["algebra/src/context.cpp", "algebra/src/lite_context.h", "vendored/libalgebra_lite/maps.cpp",
               "vendored/libalgebra_lite/algebra/lie_multiplier.cpp", "vendored/libalgebra_lite/algebra/half_shuffle_multiplier.cpp",
               "vendored/libalgebra_lite/hall_set.h", "scalars/src/scalar_type.cpp"],
              "context registry and cache, Hall sets, bracket and product caches, registered scalar types",
              [("locked caches", "vendored/libalgebra_lite/maps.cpp"), ("context cache", "algebra/src/context.cpp:get_context")],
              "results of algebra operations, coefficients of the operands")),
 "C06": dict(
    title="An algebra operation that runs out of memory reports it and leaves no trace",
    statement="When any allocation inside an algebra or scalar operation fails, the operation throws the out-of-memory error: the process does "
              "not end, no other error replaces it, no lock stays held, the operands keep their values, everything the operation had allocated is "
              "given back, and the same operation and all others afterwards return the same results as in a process where nothing ever failed.",
    quantifier=dict(over=["fault_sequences", "histories", "inputs"], text="every position of a failing allocation in every algebra and scalar "
                    "operation, after any earlier operations and failures"),
    why_tests_cant="No test makes an allocation fail, so no unwinding path through a cache fill, product or conversion is ever taken.",
    anchors=A(["vendored/libalgebra_lite/maps.cpp", "vendored/libalgebra_lite/sparse_vector.h", "vendored/libalgebra_lite/dense_vector.h",
               "vendored/libalgebra_lite/free_tensor.h", "scalars/src/scalar/casts.cpp", "scalars/src/scalar.cpp",
               "scalars/src/scalar_array.cpp", "algebra/src/lite_context.h", "platform/src/alloc.cpp"],
              "partly built results, caches being filled, scalar storage",
              [("strong guarantee of cache fills", "vendored/libalgebra_lite/maps.cpp:rbracketing"), ("ownership of scalar storage", "scalars/src/scalar_array.cpp")],
              "error thrown, heap balance, later results")),
 "C04": dict(
    title="Streams that make up their path on demand describe one path",
    statement="A Brownian stream, and any stream that derives its increments by bisection when asked, is one fixed path from the moment it "
              "exists. Whatever intervals, resolutions and contexts it is asked about, in whatever order, by however many threads, also around "
              "queries that ran out of memory and after the stream is moved: the increments it reports over adjoining intervals add up, asking "
              "again gives the same answer, answers at one resolution are the signatures of one sequence of finest increments, and a second "
              "stream with the same seed asked the same questions gives the same answers. Brownian increments have mean zero, variance equal "
              "to the length of the interval, and are uncorrelated.",
    quantifier=dict(over=["histories", "schedules", "fault_sequences", "inputs"], text="all sequences of queries on both sides of zero, from up "
                    "to four threads, with failing allocations, over seeds and both bit generators"),
    why_tests_cant="Tests ask a Brownian stream one or two questions; consistency is a relation between all answers ever given.",
    anchors=A([ST + "dynamically_constructed_stream.cpp", "streams/include/roughpy/streams/dynamically_constructed_stream.h",
               ST + "brownian_stream.cpp", "scalars/src/random/standard_random_generator.h"],
              "tree of known dyadic increments, generator state",
              [("expand roots, refine", ST + "dynamically_constructed_stream.cpp:expand_root_until_contains"),
               ("conditional midpoint increments", ST + "brownian_stream.cpp:compute_child_lie_increments")],
              "values returned by log_signature and signature")),
 "C07": dict(
    title="A saved stream answers the same in any later process, whatever the disk did",
    statement="A stream of increments that was saved to an archive answers, when loaded in another process, every query as a freshly built "
              "stream with the same data does, and keeps its width, depth, resolution, vector type and support. This holds whatever happened "
              "to the cache file kept beside it: writes that were short, failed or cut off by a crash, a full disk, a file missing, torn, left "
              "from an earlier time or unreadable, files that cannot be opened, and several streams loading and saving at the same time. "
              "Trouble with the cache never makes loading, saving or a query fail.",
    quantifier=dict(over=["crash_points", "fault_sequences", "histories", "schedules"], text="all crash points and file system faults in all "
                    "sequences of queries, saves and loads, over the binary, portable, JSON and XML archives"),
    why_tests_cant="The tests save and load in one process on a healthy disk; the cache file is always whole and current.",
    anchors=A([ST + "dyadic_caching_layer.cpp", "streams/include/roughpy/streams/dyadic_caching_layer.h", ST + "lie_increment_stream.cpp",
               "streams/include/roughpy/streams/stream.h", "algebra/include/roughpy/algebra/algebra_base_impl.h",
               "scalars/src/scalar/raw_bytes.cpp", "platform/src/configuration.cpp"],
              "archives; cache files in the stream cache directory",
              [("cache file", ST + "dyadic_caching_layer.cpp:load_cache"), ("archive", ST + "lie_increment_stream.cpp")],
              "answers and metadata of the loaded stream")),
 "C09": dict(
    title="A restored stream continues exactly where the saved one stood",
    statement="A Brownian stream saved at any point of its history and restored in another process gives to every further question exactly the "
              "answer the original gives: what had been asked before is remembered and what had not is drawn from the same random state. The "
              "same archive can be restored any number of times, by several threads at once, saved again and restored again, with every "
              "copy independent of the others. A stream that is saved while other threads query it leaves an archive holding every answer given "
              "before the saving began, as part of one path. Running out of memory while saving or loading raises that error and spoils nothing.",
    quantifier=dict(over=["histories", "fault_sequences", "schedules", "inputs"], text="all histories before and after the save, all "
                    "interleavings of several restored copies, and failing allocations during save and load"),
    why_tests_cant="Tests restore a stream and compare an answer that was already known; continuation depends on the complete hidden state.",
    anchors=A(["streams/include/roughpy/streams/brownian_stream.h", "streams/include/roughpy/streams/dynamically_constructed_stream.h",
               "scalars/src/random/standard_random_generator.h", "algebra/include/roughpy/algebra/algebra_base_impl.h",
               "scalars/include/roughpy/scalars/scalar_array.h", "scalars/src/scalar/raw_bytes.cpp"],
              "increment tree, random generator state, archives",
              [("generator state", "scalars/src/random/standard_random_generator.h:get_state"),
               ("tree in the archive", "streams/include/roughpy/streams/dynamically_constructed_stream.h")],
              "answers of the original and of restored streams")),
 "C08": dict(
    title="An archive cut short is refused, never half read",
    statement="Tensors, Lies, scalars, arrays with and without keys, intervals, partitions and streams that one process writes to a file with "
              "short, failing or crash-interrupted writes can be read by another process exactly when the file holds everything: a whole file "
              "gives the equal object, of the same type, basis and storage; one that misses any of the contents is refused with an error, "
              "whatever byte it ends at and in whichever of the binary, portable, JSON and XML formats. Neither these nor files whose end reads "
              "as zeros end the process, hang it or exhaust its memory, and the object that was being read into can be used again.",
    quantifier=dict(over=["crash_points", "fault_sequences", "inputs", "schedules"], text="all lengths at which a file can end, all write and "
                    "read faults, over eleven kinds of object, four scalar types and four formats, read by up to three threads"),
    why_tests_cant="The tests read back whole archives from memory; every missing byte takes another path through the reader.",
    anchors=A(["scalars/src/scalar/raw_bytes.cpp", "scalars/include/roughpy/scalars/serialization.h", "scalars/include/roughpy/scalars/scalar_array.h",
               "scalars/src/scalar.cpp", "algebra/include/roughpy/algebra/algebra_base_impl.h", "intervals/include/roughpy/intervals/partition.h",
               "streams/include/roughpy/streams/stream.h", "streams/include/roughpy/streams/brownian_stream.h",
               "streams/src/lie_increment_stream.cpp"],
              "archives on disk",
              [("lengths read are checked against what there is", "scalars/src/scalar/raw_bytes.cpp:from_raw_bytes_impl"),
               ("object built aside before it replaces the target", "scalars/src/scalar.cpp:from_raw_bytes")],
              "value or error given by the reading archive")),
 "C10": dict(
    title="Streams over sound files report every failure to read and never invent data",
    statement="A stream built over a sound file answers every query with the signature of the samples in the file, whichever threads ask, in "
              "whatever order, at whatever resolution and depth, and however the system splits the reads. When the file cannot be opened, "
              "sought or read, has been cut short, or memory runs out, the query that needs it fails with an error; it never answers with "
              "samples that are not in the file. Later queries and other streams are unaffected, and no file descriptor stays open.",
    quantifier=dict(over=["fault_sequences", "schedules", "histories", "inputs"], text="all interleavings of queries on shared streams over "
                    "generated WAV files, with short, interrupted and failing reads, failing opens and seeks, files cut or removed at any "
                    "point, and failing allocations"),
    why_tests_cant="Tests read one intact file on one thread; failing and short reads do not happen to them.",
    anchors=A([ST + "external_data_sources/sound_file_data_source.cpp", ST + "external_data_sources/sound_file_data_source.h",
               ST + "external_data_stream.cpp", ST + "dyadic_caching_layer.cpp"],
              "an open sound file with one read position, shared by all queries of a stream",
              [("reading a range of frames", ST + "external_data_sources/sound_file_data_source.cpp:query"),
               ("source factories", ST + "external_data_stream.cpp")],
              "values returned by, and errors raised from, queries; open file descriptors")),
 "C11": dict(
    title="Arrays, scalars, buffers and events keep, share and free their contents",
    statement="Scalar arrays, arrays with keys, streams of them, single scalars, device buffers and events can be created, copied, moved, "
              "assigned (also to themselves), converted, sliced, written, mapped, archived and destroyed in any order, by any number of "
              "threads that share some of them for reading. Each holds exactly the values it was last given; owning copies are independent, "
              "and buffers and events that share a resource stay in step; nothing is freed twice, used after it is freed, leaked or raced "
              "for, an operation that runs out of memory says so and leaves its target valid, and everybody waiting for an event wakes up "
              "when it completes.",
    quantifier=dict(over=["programs", "schedules", "fault_sequences", "configurations"], text="all operation sequences of up to four threads over "
                    "double, float, rational, polynomial and untyped integer elements, owned and borrowed, with failing allocations"),
    why_tests_cant="Tests create and read single objects on one thread; ownership errors need a sequence of copies, moves and assignments "
                   "and often a failing allocation between them.",
    anchors=A(["scalars/src/scalar_array.cpp", "scalars/src/key_scalar_array.cpp", "scalars/src/scalar.cpp", "scalars/src/scalar_stream.cpp",
               "scalars/src/key_scalar_stream.cpp", "platform/src/devices/buffer.cpp", "platform/src/devices/host/host_buffer.cpp",
               "platform/src/devices/event.cpp", "platform/src/devices/host/host_event.cpp",
               "platform/include/roughpy/platform/devices/device_object_base.h", "platform/src/alloc.cpp"],
              "owned and borrowed storage, reference counts of device objects, small object pool",
              [("storage model of an array", "scalars/src/scalar_array.cpp"), ("reference counts", "platform/src/devices/device_object_base.cpp"),
               ("pool", "platform/src/alloc.cpp")],
              "contents of every object after every operation; heap balance at the end")),
 "C12": dict(
    title="Python callers get right answers, their own errors, and their memory back",
    statement="Any number of Python threads may use the same contexts, streams, tensors and Lies at once, with streams whose data come from "
              "Python functions among them. Every call returns what it returns alone in a fresh process and changes none of its arguments; "
              "no schedule deadlocks, whoever holds the interpreter's lock; an exception raised by the caller's own function reaches the "
              "caller unchanged, running out of memory is a MemoryError, and no failure leaves a call that later gives another answer; arrays "
              "of any strides, order and type are read element by element as Python sees them, the same data given as arrays, lists, pairs, mappings "
              "or rows of these make the same object, and data that cannot be represented are refused with an error; values read back from "
              "vectors by key, by iteration, as arrays, through pickle or as text are those they hold, also once the vector is gone, and "
              "arithmetic of scalars agrees with that of numbers; and a call that is repeated, whether it succeeds or "
              "raises, neither leaks memory or references nor drops references it does not own.",
    quantifier=dict(over=["schedules", "programs", "fault_sequences", "inputs"], text="all interleavings of up to four Python threads over all "
                    "operations of the module's stream, algebra, scalar and interval types, callbacks that raise at any call, failing allocations"),
    why_tests_cant="Tests call from one thread, with contiguous arrays and callbacks that succeed, and never look at reference counts.",
    anchors=A(["roughpy/src/streams/stream.cpp", "roughpy/src/streams/tensor_valued_stream.cpp", "roughpy/src/streams/function_stream.cpp",
               "roughpy/src/algebra/context.cpp", "roughpy/src/algebra/lie_key.cpp", "roughpy/src/args/strided_copy.cpp",
               "roughpy/src/args/numpy.cpp", "roughpy/src/args/parse_data_argument.cpp", "roughpy/src/roughpy_module.h",
               "roughpy/src/scalars/r_py_polynomial.cpp"],
              "Python objects and their reference counts, the interpreter's lock, the pending exception",
              [("releasing the interpreter's lock", "roughpy/src/streams/stream.cpp:gil_scoped_release"),
               ("turning C++ errors into Python ones", "roughpy/src/roughpy_module.h:set_error_from_current_exception"),
               ("reading arrays", "roughpy/src/args/strided_copy.cpp")],
              "results and exceptions of calls of the module's functions, reference counts and heap balance")),
 "C13": dict(
    title="Random generators shared by threads behave as one generator",
    statement="For any number of threads drawing from, reseeding, saving and restoring the generators they share, there is one order of these "
              "operations, in keeping with real time, in which a single generator started from the seed returns exactly what every operation "
              "returned: no two draws share or tear the sequence, and the state saved at any point, set on any generator of the same kind, "
              "continues exactly from there. The seed reported is the one in force. Draws have the size, type and bounds asked for. An "
              "operation that fails, through bad arguments or lack of memory, changes nothing.",
    quantifier=dict(over=["schedules", "histories", "fault_sequences", "configurations"], text="all interleavings of up to four threads over "
                    "Mersenne twister and PCG generators of double, float, half and bfloat16, with failing allocations and malformed states"),
    why_tests_cant="Tests draw on one thread from fixed seeds; a torn or shared draw needs a preemption inside the generator.",
    anchors=A(["scalars/src/random/standard_random_generator.h", "scalars/src/types/half/half_random_generator.h",
               "scalars/src/types/bfloat16/bfloat16_random_generator.h", "scalars/src/scalar_type.cpp", "scalars/src/random/random_impl.cpp"],
              "state and seed of a generator",
              [("lock of a generator", "scalars/src/random/standard_random_generator.h:m_lock"),
               ("saving and restoring state", "scalars/src/random/standard_random_generator.h:set_state")],
              "values returned by RandomGenerator's operations")),
}


def pure(title, statement, text, files, why, reason):
    return {"text": dict(title=title, statement=statement, quantifier=dict(over=["inputs"], text=text), why_tests_cant=why,
                         anchors=A(files, "none: a function of its arguments", [("computation", files[0])], "returned values")),
            "reason": reason}


SEQ = ("a pure function of its arguments with no thread, clock, I/O, randomness or other party whose behaviour a simulator could decide; the "
       "search would be over inputs alone, which is property-based testing. ")
NOT_APPLICABLE = {
 "C20": pure("Tensor and Lie operations satisfy the algebraic identities",
             "Products are associative and bilinear, exponential and logarithm are inverse on their domains, the antipode inverts grouplike "
             "elements, the bracket is antisymmetric and satisfies the Jacobi identity, Lie-to-tensor and tensor-to-Lie are inverse, and "
             "Baker-Campbell-Hausdorff is the logarithm of the product of exponentials, exactly for rationals and up to rounding for floats.",
             "all operands, widths, depths and coefficient types",
             ["algebra/src/lite_context.h", "vendored/libalgebra_lite/maps.cpp"],
             "Tests check identities on a few small elements.",
             SEQ + "What does depend on schedules, histories and faults (shared caches, thread safety, out of memory) is C05 and C06, whose "
                   "operations are compared with an independent model in passing."),
 "C21": pure("Interval arithmetic and dyadic dissection are exact",
             "A dyadic interval of resolution n contains exactly the points its end type says, parents and children nest and partition, "
             "shrinking and expanding move one resolution at a time, and to_dyadic_intervals returns adjoining dyadic intervals that cover "
             "the interval to within the tolerance.",
             "all real intervals, interval types and resolutions",
             ["intervals/src/dyadic_interval.cpp", "intervals/src/segmentation.cpp", "intervals/src/dyadic_searcher.cpp"],
             "Tests check a handful of intervals.", SEQ),
 "C22": pure("Scalar conversion and arithmetic keep exact values",
             "Converting a scalar to a wider type keeps its value, arithmetic on rationals and polynomials is exact, and comparisons agree "
             "with the values.",
             "all values and pairs of scalar types",
             ["scalars/src/scalar/casts.cpp", "scalars/src/scalar/arithmetic.cpp", "scalars/src/scalar/comparison.cpp"],
             "Tests sample few values.", SEQ + "Ownership of the converted storage under failing allocations is C06 and C11."),
 "C23": pure("Bases number, name and factor their keys consistently",
             "Index-to-key and key-to-index are inverse, parents of a key multiply back to it, degrees add, dimensions agree with the number "
             "of keys, and the Hall set is complete and free of duplicates at every degree.",
             "all widths, depths and keys",
             ["vendored/libalgebra_lite/basis/hall_set.cpp", "vendored/libalgebra_lite/basis/tensor_basis.cpp", "algebra/src/lie_basis.cpp"],
             "Tests check small bases.", SEQ + "Growing and reading the shared Hall sets from several threads is part of C05."),
 "C24": pure("Tick data are parsed into the increments the schema describes",
             "Channels, variants, lead-lag expansion, categorical values and time columns given in any supported layout produce the same "
             "schema and increments, and malformed input is refused.",
             "all schemas and input layouts",
             ["streams/src/schema.cpp", "streams/src/parametrization.cpp", "roughpy/src/args/parse_schema.cpp"],
             "Tests parse a few layouts.", SEQ),
 "C25": pure("The compute kernels agree with the algebra they implement",
             "The stand-alone dense kernels (fused multiply-add, antipode, shuffle, Lie to tensor and back) give the same coefficients as the "
             "free tensor algebra for every strided, batched argument.",
             "all shapes, strides, widths and depths",
             ["roughpy_compute/dense/basic/free_tensor_fma.hpp", "roughpy/compute/_src/tensor_basis.c"],
             "Tests compare a few shapes.", SEQ),
}

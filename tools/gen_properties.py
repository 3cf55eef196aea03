#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the wording is edited in one place)."""
import json, os
H = "include/colorsystem.hpp"
P = []
def prop(id, title, statement, over, text, why, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[H],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

ALLF = "every public computation of include/colorsystem.hpp"
prop("C01", "Concurrent calls never affect one another's results",
 "Any number of threads may call the library's computations at the same time on shared published constants and shared read-only arguments. Each call returns bit for bit what the same call returns when made alone, and the shared arguments and constants are never modified. No two such calls make conflicting unsynchronised accesses to the same memory.",
 ["schedules", "histories", "inputs"], "every set of threads and calls, and every interleaving of their memory accesses",
 "The test suite is single-threaded; it samples no interleaving at all, so a shared scratch buffer or cache passes it.",
 [("free functions and static members without writable shared state", H + ": Matrix3, Tristimulus, Gamut, OTF, Spectrum, Delta, Observer, Macbeth, SOLVER, Corrector"),
  ("published constants are constexpr", H + ": Illuminant_*, AdobeRGB..XYZ, CIE1931/CIE31JV/CIE2012, CIE_D65, TM_30_15, Macbeth::Patch")],
 [("function-local statics of the Planck law", "constant-initialised doubles", H + ": Spectrum::planck")],
 ["return values", "argument bytes before and after", "memory accesses of the library code"])
prop("C02", "A caller stalled or killed inside a call never holds up other callers",
 "If a thread stops for ever at an arbitrary instant inside a computation, every call made by every other thread still completes within a bounded number of its own steps. The completed calls return bit for bit what they return when made alone.",
 ["schedules", "crash_points"], "every call, every instant at which it is stalled, every set of concurrent calls by other threads",
 "No test has a second thread, let alone one that is frozen mid-call; a lock added around shared state passes every test.",
 [("computations take no locks and wait for nothing", H + ": whole file (no mutex, atomic or wait anywhere)")], (),
 ["completion and result of the other threads' calls"])
prop("C03", "A call interrupted by another call on the same thread is re-entrant",
 "When a computation is interrupted at an arbitrary instant on its own thread (as by a signal handler) and the interrupting code makes further computations that need no dynamic memory, both the interrupting calls and the resumed call complete. Both return bit for bit what they return when made alone.",
 ["schedules", "crash_points", "inputs"], "every interrupted call, every instant, every sequence of interrupting calls",
 "Tests never interrupt a call; per-thread scratch state is invisible to them and even to ordinary multi-threaded stress.",
 [("all intermediate state lives in the call's own frame", H + ": Tristimulus, OTF, Spectrum, Delta, Observer, SOLVER::svdcmp")], (),
 ["return values of the outer and the nested call"])
prop("C04", "Results do not depend on what was called before",
 "In any sequence of computations - including calls that failed for lack of memory and calls that were handed invalid numbers - each call returns bit for bit what it returns as the first call of a fresh process with the same arguments. No call modifies the arguments it was given by reference as inputs, nor any published constant.",
 ["histories", "fault_sequences", "inputs"], "every finite history of calls and injected failures",
 "Each test makes a few fixed calls in a fixed order; a cache with a stale or colliding key, or leftover scratch contents, needs a particular earlier call.",
 [("no state survives a call", H + ": whole file; SOLVER::solve takes its matrix and vector by value")], (),
 ["return values", "argument bytes", "published constants"])
prop("C05", "Results do not depend on ambient process state",
 "A computation's result is a function of its arguments alone: the previous contents of stack and heap memory, where the allocator places memory, the clock, random sources, environment variables, errno, pending floating-point status flags and the identity of the calling thread make no difference to any bit of it. The call leaves the floating-point control mode as it found it.",
 ["configurations", "fault_sequences", "inputs"], "every ambient state the process can be in when a call is made",
 "A test run sees one ambient state, mostly zero-filled fresh memory; reading an unset element then happens to return zero.",
 [("every element of a result is written before it is returned", H + ": Spectrum constructors and factories, SOLVER::svdcmp/svbksb, Corrector::solve"),
  ("no clock, random or environment access", H + ": whole file")], (), ["return values under different ambient states", "floating-point control word"])
prop("C06", "The library performs no input or output",
 "No computation - for any arguments, valid or not - and no stream operation within its permitted positions writes to standard output or standard error, reads from or writes to any file descriptor, or opens a file, whether or not memory runs out during the call. A closed, full or broken standard output therefore never affects a caller.",
 ["inputs", "fault_sequences", "histories"], "every call, every argument, with every standard stream healthy, full, closed or broken",
 "The tests print freely themselves and never look at what the library writes.",
 [("computations only return values", H + ": whole file")],
 [("standard output", "used by diagnostic prints in the OKLab conversion before the repair", H + ": XYZ_to_OKLAB")],
 ["bytes reaching descriptors 1 and 2", "I/O calls made from library code"])
prop("C07", "Usable in every phase of the process, before main and after exit begins",
 "Every computation and every published constant gives the same bits when used from a static initialiser that runs before the library's own translation unit is initialised, during normal operation, and from exit-time code that runs after static objects are destroyed.",
 ["schedules", "histories"], "every order of static initialisation and destruction relative to the calls, every choice of calls per phase",
 "Tests run only from main, when everything is initialised and nothing is destroyed.",
 [("published constants are constant-initialised and trivially destructible", H + ": constexpr definitions of gamuts, observers, illuminants, charts")], (),
 ["return values in the early, normal and late phase"])
prop("C08", "Running out of memory is reported cleanly and leaves nothing behind",
 "If any dynamic allocation inside a computation fails, the call ends with the standard out-of-memory exception, or completes with exactly its normal result; it never crashes, hangs or returns anything else. It leaks no memory and leaves its input arguments unchanged, and repeating the call once memory is available gives the normal result.",
 ["fault_sequences", "crash_points", "schedules"], "every allocation of every allocating call failing, once or persistently, alone or next to other threads",
 "No test makes an allocation fail.",
 [("containers own all memory", H + ": Macbeth::reference, Corrector::solve/makeGamut, SOLVER::Matrix/Vector/svdcmp/solve, loadGamutFromICCProfileMemory")], (),
 ["exception or return value", "live allocations after the call", "argument bytes"])
prop("C09", "A memory stream is a byte array with one cursor",
 "After any history of sequential and positioned reads and writes, single-byte gets and puts, and in-range seeks, the stream's contents, cursor, end-of-data flag and every returned count and byte equal those of a plain growable byte array with one cursor: overwriting advances the cursor just as appending does, writing past the end extends with zero bytes, positioned access leaves the cursor alone, and reads stop at the end. Seeking relative to the end counts back from the last byte. A stream rebuilt from saved contents continues with exactly those bytes.",
 ["histories", "crash_points"], "every finite history of operations, saves, crashes and reloads",
 "No test uses the stream at all.",
 [("cursor and buffer updates", H + ": MemoryStream::read/write/read_at/write_at/get_at/put_at/getUint8/putUint8/fseek/seekTo/ftell/feof/init")],
 [("ptr_", "the cursor", H + ": MemoryStream"), ("buffer_", "the contents", H + ": MemoryStream")],
 ["return values", "buffer()", "ftell()", "feof()"])
prop("C10", "Typed values are stored in the selected byte order and read back exactly",
 "Signed and unsigned integers of 8, 16, 32 and 64 bits, floats and doubles occupy exactly their size in bytes at the cursor, in the byte order selected for writing at that moment, whether appending or overwriting. Reading the same bytes with the same byte order selected returns the identical value, including negative numbers, and with the other order the byte-reversed one; changing the order for reading does not affect writing and vice versa.",
 ["histories", "inputs", "crash_points"], "every history of typed puts, gets, byte-order changes, seeks, saves and reloads",
 "No test uses the stream at all.",
 [("typed accessors composed from single bytes", H + ": MemoryStream::get*/put* Int8..Int64, Float, Double, setReadEndian, setWriteEndian")],
 [("readEndian_/writeEndian_", "selected byte orders", H + ": MemoryStream")], ["return values", "buffer()"])
prop("C11", "Reserved pointer slots are back-patched exactly, alignment moves only the cursor",
 "A reserved 32- or 64-bit pointer slot reads as zero until it is adjusted; adjusting stores the stream's length at that moment into exactly the slot's own bytes, in the write byte order, and changes no other byte, the length, or the cursor. Aligning to a position within the data moves the cursor forward by the least amount that makes it a multiple of the requested value and changes nothing else. This holds with any operations, saves and reloads between reserving and adjusting.",
 ["histories", "crash_points"], "every history of reservations, adjustments, alignments and other stream operations",
 "No test uses the stream at all.",
 [("slot reservation and patching", H + ": MemoryStream::putPointer32/64, adjustPointer32/64, getPointer32/64, align")], (), ["buffer()", "ftell()", "return values"])
prop("C12", "Strings written to a stream read back unchanged",
 "A string of any length and any byte values, including the empty string, written to a stream is read back identical from the same position, leaves the reader exactly behind it, and leaves neighbouring values intact. A fixed-length string field of n bytes holds the first n-1 bytes followed by a zero byte, and a field of length zero writes and reads nothing.",
 ["histories", "inputs", "crash_points"], "every string, every history of stream operations around it, saves and reloads",
 "No test uses the stream at all.",
 [("length-prefixed and fixed-length strings", H + ": MemoryStream::putString/get_string/putSubstr/getSubstr")], (), ["return values", "buffer()", "ftell()"])
prop("C13", "Damaged or truncated stream data is contained",
 "Reading from a stream whose stored bytes were truncated, torn, zeroed or bit-flipped at arbitrary places never touches memory outside the stored bytes, never crashes, and does work and uses memory bounded by the size of the stored data, whatever lengths and offsets the damaged bytes spell. Values whose bytes were not damaged are returned unchanged, and bytes missing at the end read as zero with the cursor stopping at the end.",
 ["fault_sequences", "inputs", "histories"], "every stored image, every damage to it, every sequence of in-contract reads",
 "No test uses the stream at all, and none damages data.",
 [("bounds checks on every read", H + ": MemoryStream::getUint8/get_at/read_at/read/getSubstr/get_string")], (), ["return values", "memory accesses", "steps and memory used per call"])
prop("C14", "Running out of memory during a stream operation never damages the stream",
 "If memory runs out during any stream operation, the out-of-memory exception reaches the caller, every byte outside the range being written keeps its value, and within it the stream holds some prefix of the data with the cursor consistent with that prefix. The stream stays fully usable and nothing leaks.",
 ["fault_sequences", "crash_points", "histories"], "every allocation of every stream operation failing, in every history",
 "No test makes an allocation fail or uses the stream.",
 [("growth of the buffer before any byte is stored", H + ": MemoryStream::init/write_at/putUint8/put_at/getSubstr")], (), ["exception", "buffer()", "ftell()", "live allocations"])
prop("C15", "A stream owns its bytes: sources, copies and other streams are independent",
 "A stream created from caller memory is a snapshot: changing, freeing or reusing that memory afterwards has no effect on the stream, and stream writes never reach it. Copies of a stream and distinct streams, including those used by different threads under any interleaving, never influence each other's contents or cursor.",
 ["histories", "schedules"], "every history over several streams and source buffers, every interleaving of threads each using their own stream",
 "No test uses the stream at all.",
 [("contents are copied into an owned buffer", H + ": MemoryStream::init and implicit copy operations")], (), ["contents and cursor of every stream", "source memory"])
prop("C16", "Damaged measurement data never hangs, corrupts or outlives the call",
 "A computation fed with numbers read back from damaged storage (any bit pattern: not-a-number, infinite, huge, denormal) or with lost or duplicated chart readings completes within a bounded number of steps and touches no memory but its own and its arguments. In channel-wise and sample-wise computations a damaged element affects no other element's result, and calls on undamaged data made afterwards return their normal results.",
 ["fault_sequences", "inputs", "histories"], "every damage to the stored numbers, every call on them, every clean call afterwards",
 "Tests use a handful of clean, in-range numbers.",
 [("bounded iteration in the solver", H + ": SOLVER::svdcmp"), ("hue wrapping", H + ": Tristimulus::mod360"), ("square root iteration", H + ": util::sqrtf"), ("wavelength lookup clamps its index", H + ": Spectrum::fetch"), ("pairing of readings and references", H + ": Corrector::solve")], (),
 ["completion", "steps", "memory accesses", "return values"])
prop("C17", "Loading a colour profile from memory is total and keeps no hold on its source",
 "For every byte string of every length - valid, truncated, torn or bit-flipped profile data, or none - loading a gamut from profile memory either reports lack of memory or returns a gamut whose name is a readable string and whose two matrices are finite and inverse to each other. It reads nothing outside the given bytes, writes none of them, needs bounded work, and the returned gamut stays valid and unchanged after the source memory is overwritten or freed and after other profiles are loaded.",
 ["inputs", "fault_sequences"], "every byte string and length, every damage, every allocation failure",
 "No test calls the loader.",
 [("profile bytes are copied before use", H + ": loadGamutFromICCProfileMemory, MemoryStream::init")], (), ["returned gamut", "memory accesses", "source bytes"])
prop("C18", "Colour correction tolerates lost, duplicated and reordered readings",
 "When chart readings and their reference values are related by one fixed 3x3 matrix and are delivered to the correction solver in any order, with any of them lost or repeated, the solved matrix is that fixed matrix within the accuracy single precision allows, as long as the delivered readings still determine it well. With at least three readings delivered that do not determine it, the solver still terminates with finite numbers.",
 ["fault_sequences", "schedules"], "every delivery order, loss and duplication pattern of the readings, every well-posed matrix",
 "No test calls the correction solver.",
 [("least-squares solution by singular value decomposition", H + ": Corrector::solve, SOLVER::svdcmp/svbksb/solve")], (), ["solved matrix"])

prop("C19", "A finished call leaves nothing behind",
 "Once a computation or stream operation has returned or thrown, and its results and streams are gone, the process is as it was before: no memory the library allocated is still held, no lock is held, no exit, thread-exit or fork handler, thread, memory mapping or thread-local key has been added, and the locale, environment variables, signal handling, new and terminate handlers, states of the shared random generators, working directory and timers are what they were - whatever the arguments, and also when the call ran out of memory, was interrupted or ran beside others.",
 ["histories", "fault_sequences", "schedules"], "every history of calls, every allocation failure, every damage to arguments, every interleaving",
 "Tests look at results only; what stays behind needs an early return or an exception at one particular point, or a long-lived process, to matter.",
 [("scratch memory is owned by local objects", H + ": SOLVER::Matrix/Vector, Corrector, Macbeth::reference, MemoryStream"), ("no process-wide state is touched", H + ": whole file")], (), ["live allocations", "locks, handlers, threads, mappings", "process settings"])
prop("C20", "Stack need is small and does not grow with the data",
 "A call or stream operation needs no more than 64 KiB of stack, whatever its arguments: the number of chart readings, the length of strings, streams, reads, writes and profiles, damaged numbers and failing allocations make no difference, so that it can be used on threads with small stacks.",
 ["inputs", "fault_sequences"], "every argument, every length of data, every fault inside a call",
 "Tests run on the main thread's large stack with at most a chart's worth of data; recursion over the data or a variable-size local array only fails on long data or small stacks.",
 [("iteration instead of recursion, scratch memory on the heap", H + ": SOLVER::svdcmp/svbksb/solve, Corrector::solve, MemoryStream"), ("spectra are 1.6 KB values passed by reference", H + ": Spectrum, Observer")], (), ["depth of the stack at every basic block"])

# ---- properties this technique does not address (pure functions of their input) ----
W = "Tests check a few points with loose tolerances; the property is over all inputs."
prop("C21", "Colour space matrices are inverse pairs and map white to white",
 "For every non-degenerate set of primaries and white point, converting to XYZ and back returns the colour within single-precision accuracy, full white maps to the white point, and converting between any two gamuts and back is the identity.",
 ["inputs"], "every gamut and colour", W, [("matrix construction", H + ": Gamut, GamutConvert, Matrix3::invert")])
prop("C22", "Transfer functions and their inverses agree, are monotone and in range",
 "For every supported transfer characteristic, encoding then decoding any in-range value returns it within single-precision accuracy, both directions are monotone, and out-of-range values are clamped as documented.",
 ["inputs"], "every transfer characteristic and value", W, [("encode/decode pairs", H + ": OTF")])
prop("C23", "Colour coordinate systems round-trip",
 "Converting any in-gamut colour to Yxy, Yu'v', CIELAB, HSV, ICtCp or OKLab and back returns it within single-precision accuracy.",
 ["inputs"], "every in-gamut colour", W, [("conversion pairs", H + ": Tristimulus, XYZ_to_ICtCp/ICtCp_to_XYZ, XYZ_to_OKLAB/OKLAB_to_XYZ")])
prop("C24", "Colour differences are symmetric, non-negative and zero only for equal colours",
 "For every pair of colours each difference metric is non-negative, symmetric in its arguments, and zero when the colours are equal; the CIEDE2000 metric agrees with its published definition.",
 ["inputs"], "every pair of colours", W, [("difference metrics", H + ": Delta")])
prop("C25", "Chromatic adaptation maps source white to destination white",
 "For every pair of white points the adaptation matrix maps the source white to the destination white and adapting back is the inverse.",
 ["inputs"], "every pair of white points", W, [("Bradford adaptation", H + ": Bradford")])
prop("C26", "Matrix and vector operations obey linear algebra",
 "Products, inverses, determinants, transposes and crosstalk matrices satisfy the algebraic identities of 3x3 matrices within single-precision accuracy.",
 ["inputs"], "every well-conditioned matrix", W, [("3x3 algebra", H + ": Matrix3, Vector3")])
prop("C27", "Spectral integration is linear and normalised",
 "Integrating a spectrum against an observer is linear in the spectrum, and an equal-energy spectrum integrates to equal unit tristimulus values for every observer.",
 ["inputs"], "every spectrum and observer", W, [("integration", H + ": Observer, Spectrum")])
prop("C28", "Resampled spectra interpolate their samples",
 "A spectrum built from samples over any wavelength range takes the sample values at the sample wavelengths, interpolates linearly between them and is clamped outside the range.",
 ["inputs"], "every sample set, range and wavelength", W, [("resampling", H + ": Spectrum::fetch and sampling constructor")])
prop("C29", "Published tables and constants match their standards",
 "Observer functions, illuminants, primaries, chart reflectances and test colour samples equal the published values.",
 ["configurations"], "every table entry", "Tests compare a few derived chromaticities loosely; there is no schedule or history in it.", [("tables", H + ": CIE*, Illuminant_*, TM_30_15, Macbeth")])
prop("C30", "Colour temperature conversions follow the Planckian locus",
 "Chromaticities computed from colour temperature stay within the stated accuracy of the Planckian locus over the approximation's validity range, and an offset moves them perpendicular to it.",
 ["inputs"], "every temperature and offset", W, [("locus approximations", H + ": Tristimulus::fromCT/fromPlanckianLocus/fromCCT, Spectrum::blackbody")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")

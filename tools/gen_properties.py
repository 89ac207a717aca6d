#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "The direct two-sided algorithm returns the exact probability",
  "For every pair of valid boundary lists b and B of equal length n, the direct (non-FFT) two-sided computation returns Pr[b_i <= X_(i) <= B_i for all i] for n independent uniform samples, up to floating-point rounding. This includes ties inside a list, ties between the lists, bounds equal to 0 or 1, bounds with b_i > B_i (probability 0) and n = 0 (probability 1). Because it only adds non-negative terms, small probabilities keep their relative accuracy.",
  ["inputs"], "All valid pairs (b,B): every relative order (with ties) of the 2n bounds for small n, and every sample size.",
  "The tests compare five fixed files with n<=10 to six digits; ties across lists, interleavings, large n and rare events are never exercised.",
  ["src/ecdf2.cc", "src/common.cc", "src/poisson_pmf.cc", "src/crossprob.cc"],
  [("sorted event list of b-steps, B-steps and END; zeroing of forbidden counts", "src/ecdf2.cc"), ("direct convolution with Poisson weights", "src/common.cc")],
  ["return value of ecdf2(b, B, false)", "output of bin/crossprob ecdf2-ks2001"],
  [("(b_step_count, B_step_count)", "window of sample counts still allowed", "src/ecdf2.cc")])

p("C02", "The FFT two-sided algorithm returns the exact probability",
  "For every pair of valid boundary lists b and B of equal length n, the FFT-based two-sided computation returns Pr[b_i <= X_(i) <= B_i for all i] for n independent uniform samples, up to an absolute rounding error that stays negligible (below 1e-9 for n up to several thousand). This holds for every n, in particular on both sides of every internal switch between direct and FFT convolution and between FFT lengths, and for ties, degenerate bounds, b_i > B_i and n = 0.",
  ["inputs"], "All valid pairs (b,B) and all n, including the sizes around the internal FFT thresholds and length roundings.",
  "The tests have n<=10, so no test ever executes an FFT.",
  ["src/ecdf2.cc", "src/fftwconvolver.cc", "src/poisson_pmf.cc"],
  [("zero-padded real FFT convolution with cached plans", "src/fftwconvolver.cc"), ("event sweep", "src/ecdf2.cc")],
  ["return value of ecdf2(b, B, true)", "output of bin/crossprob ecdf2-mn2017"])

p("C03", "The new one-sided algorithm returns the exact probability",
  "For every valid boundary list of length n >= 0, the newer O(n^2) one-sided computations return Pr[b_i <= X_(i) for all i] (lower list) and Pr[X_(i) <= B_i for all i] (upper list) for n independent uniform samples, up to a negligible absolute rounding error. This holds for every n, whatever number of bounds the algorithm processes per block, and for any pattern of ties and of bounds equal to 0 or 1.",
  ["inputs"], "All valid lists; all n including 0, 1, perfect squares, multiples of the block length and their neighbours, and FFT thresholds.",
  "The tests evaluate n=3 with all bounds 0 or 1 and one n=10 list; block boundaries, partial last blocks and the FFT path are not reached.",
  ["src/ecdf1_new.cc", "src/fftwconvolver.cc", "src/poisson_pmf.cc", "src/common.hh"],
  [("block of about sqrt(n) steps corrected by first-exit probabilities", "src/ecdf1_new.cc")],
  ["return values of ecdf1_new_b(b), ecdf1_new_B(B)", "output of bin/crossprob ecdf1-new"],
  [("I_prev, I", "current block of bounds", "src/ecdf1_new.cc")])

p("C04", "The polynomial one-sided algorithm returns the exact probability",
  "For every valid boundary list of length n >= 0 (n up to a few thousand), the older polynomial one-sided computations return Pr[b_i <= X_(i) for all i] (lower list) and Pr[X_(i) <= B_i for all i] (upper list) for n independent uniform samples, up to a negligible absolute rounding error. The periodic rescaling of the polynomial coefficients never changes the result, and a probability of zero is returned as a number, not NaN.",
  ["inputs"], "All valid lists; all n up to a few thousand, on both sides of every rescaling point.",
  "The tests evaluate n=3 with all bounds 0 or 1 and one n=10 list, so coefficients are rescaled at most once.",
  ["src/ecdf1_mns2016.cc"],
  [("translated monomials, integration and exponent rescaling", "src/ecdf1_mns2016.cc")],
  ["return values of ecdf1_mns2016_b(b), ecdf1_mns2016_B(B)", "output of bin/crossprob ecdf1-mns2016"],
  [("total_exponent_delta", "power of two factored out of all coefficients", "src/ecdf1_mns2016.cc")])

p("C05", "All algorithms agree, and reflection preserves the probability",
  "Whenever several algorithms apply to the same boundaries they return the same probability up to rounding; a one-sided problem equals the two-sided problem whose other side is all 0 (lower) or all 1 (upper). Reflecting a problem (replacing b_i, B_i by 1-B_(n+1-i), 1-b_(n+1-i)) does not change the probability.",
  ["inputs"], "All valid boundaries at which at least two computations apply, for n up to several thousand.",
  "The tests compare each algorithm to constants on a handful of tiny inputs; agreement at realistic sample sizes is never checked.",
  ["src/ecdf2.cc", "src/ecdf1_new.cc", "src/ecdf1_mns2016.cc", "src/crossprob.cc"],
  [("symmetric_steps reflection of lower into upper bounds", "src/ecdf1_new.cc, src/ecdf1_mns2016.cc"), ("implicit zeros/ones vectors", "src/crossprob.cc")],
  ["return values of all five library functions"])

p("C06", "Loosening any bound never lowers the probability",
  "For every algorithm, decreasing one or more lower bounds b_i or increasing one or more upper bounds B_i (keeping the lists valid) never decreases the returned non-crossing probability, and tightening never increases it, up to rounding. Hence p-values are monotone in the test statistic.",
  ["inputs"], "Every edge of the lattice of boundary lists ordered by tightness.",
  "A relation between pairs of inputs; the tests only look at isolated inputs.",
  ["src/ecdf2.cc", "src/ecdf1_new.cc", "src/ecdf1_mns2016.cc"],
  [("probability of nested events", "all algorithms")],
  ["return values of all five library functions"])

p("C07", "Every valid input yields a finite probability, 0 or 1 when forced",
  "For every valid boundary list, however degenerate (ties, bounds at or next to 0 or 1, gaps below floating-point resolution or subnormal, empty lists, b_i > B_i), every algorithm terminates normally and returns a finite number in [0,1] up to rounding, never NaN, an error or an abort. It returns 0 when the event is impossible (some b_i > B_i, b_i = 1 or B_i = 0) and 1 when all b_i are 0 and all B_i are 1.",
  ["inputs"], "All valid lists over an alphabet of extreme values, and long runs of them.",
  "The tests only use comfortable interior values plus all-0/all-1 lists with n=3.",
  ["src/ecdf2.cc", "src/ecdf1_new.cc", "src/ecdf1_mns2016.cc", "src/poisson_pmf.cc"],
  [("lambda==0 special cases", "src/poisson_pmf.cc, src/ecdf2.cc"), ("empty-sample and impossible-event shortcuts", "src/ecdf1_new.cc, src/ecdf2.cc")],
  ["return values and process status"])

p("C08", "Boundary lists are accepted exactly when they are valid",
  "A library call raises an error if a boundary list decreases anywhere, contains a value below 0, above 1, infinite or NaN, or if the two lists of a two-sided call differ in length; no such call ever returns a number. Every list that is non-decreasing within [0,1] is accepted. The position and number of the offending values and the length of the list do not matter.",
  ["inputs"], "All vectors over an alphabet of valid and invalid values, every offending position in long lists, all length combinations.",
  "No test passes an invalid input.",
  ["src/common.cc", "src/ecdf2.cc", "src/ecdf1_new.cc", "src/ecdf1_mns2016.cc"],
  [("check_boundary_vector", "src/common.cc")],
  ["exception (runtime_error / Python RuntimeError) or return value"])

p("C09", "A boundaries file is read as exactly the numbers written in it",
  "The two programs use as b and B exactly the comma-separated numbers on the first and on the second line of the boundaries file; spaces around numbers, one optional trailing comma, DOS line endings after a number, an empty line (no bounds on that side) and a missing final newline are understood. Anything else in these lines (an empty or non-numeric item, a number followed by other text, an out-of-range number) or a missing second line is reported as an error with a non-zero exit status. No number is ever dropped, merged, reordered or moved to the other line.",
  ["inputs"], "All short files over an alphabet of number tokens, separators, blanks, junk and line endings, and long lines.",
  "The tests read eight well-formed files.",
  ["src/read_boundaries_file.cc", "src/string_utils.cc"],
  [("read_next_line / read_comma_delimited_doubles / split / string_to_double", "src/read_boundaries_file.cc, src/string_utils.cc")],
  ["exit status and output of bin/crossprob and bin/crossprob_mc"])

p("C10", "crossprob prints the right number and exits 0, or fails loudly",
  "bin/crossprob run with a known algorithm name and a readable file with valid bounds suited to it (two-sided: two lists of equal length or exactly one list; one-sided: exactly one list) prints exactly one line, the probability computed by that algorithm to six significant digits, and exits 0. In every other case (wrong number of arguments, unknown algorithm, unreadable file, unequal lists, two lists or none for a one-sided algorithm, invalid bounds) it exits with a non-zero status after printing an explanation and no result. An empty first line means all b_i = 0 and an empty second line means all B_i = 1.",
  ["inputs", "configurations"], "All argument vectors over a small alphabet times all shapes of boundaries files.",
  "The tests never look at failures or at mixed shapes.",
  ["src/crossprob.cc"],
  [("handle_command_line_arguments, calculate_*", "src/crossprob.cc")],
  ["exit status, standard output"])

p("C11", "I/O and memory faults never produce a wrong answer with exit 0",
  "If opening or reading the boundaries file fails or is interrupted at any point, if memory runs out at any allocation, or if the result cannot be written completely, each program either still prints the correct complete result and exits 0, or exits with a failure. Harmless conditions (short reads, interrupted system calls) do not change the result.",
  ["fault_sequences"], "Every single fault (and pairs of read faults) at every system call / allocation / output byte of a run.",
  "The tests run on a healthy file system only.",
  ["src/read_boundaries_file.cc", "src/crossprob.cc", "src/crossprob_mc.cc"],
  [("f.exceptions(failbit|badbit)", "src/read_boundaries_file.cc"), ("check of cout after printing", "src/crossprob.cc, src/crossprob_mc.cc"), ("exception handlers of main", "src/crossprob.cc, src/crossprob_mc.cc")],
  ["exit status, standard output"])

p("C12", "Library calls are independent: no call affects a later one",
  "The result of a library call depends only on its arguments: it is the same (up to rounding in the last digits) in a fresh process and after any sequence of other calls, whether these succeeded or raised errors and whatever their sizes, and it does not depend on leftover memory contents. A call never modifies its arguments nor the floating-point environment.",
  ["histories"], "All call sequences up to a depth over an alphabet of calls to all functions with different sizes, valid and invalid; several initial memory contents.",
  "Each test runs every computation in a new process.",
  ["src/ecdf2.cc", "src/ecdf1_new.cc", "src/ecdf1_mns2016.cc", "src/fftwconvolver.cc", "src/poisson_pmf.cc"],
  [("per-call buffers, plans and tables", "src/fftwconvolver.cc, src/poisson_pmf.cc, src/common.hh")],
  ["return values along call histories"],
  [("static exponent", "function-local static scratch", "src/ecdf1_mns2016.cc")])

p("C13", "No call reads or writes memory it does not own, or leaks",
  "For every input, valid or not, library calls and both programs perform no out-of-bounds or use-after-free access and no undefined arithmetic, never trip an internal assertion, and release all memory they obtained, also when they report an error.",
  ["inputs"], "All inputs of a bounded space covering every size threshold, degenerate list, malformed file and wrong command line.",
  "The tests run without memory checking on nine inputs.",
  ["src/fftwconvolver.cc", "src/ecdf1_new.cc", "src/ecdf2.cc", "src/ecdf1_mns2016.cc", "src/poisson_pmf.cc", "src/string_utils.cc", "src/crossprob_mc.cc", "src/aligned_mem.hh"],
  [("buffer sizes n+1, n+2, jump_size, padded FFT lengths", "src/*.cc")],
  ["AddressSanitizer / UBSan reports, live heap bytes after a call"])

p("C14", "crossprob_mc ecdf counts exactly the samples that cross",
  "In 'ecdf' mode, crossprob_mc simulates samples of n = max(len b, len B) independent uniform points and prints the fraction of samples whose order statistics satisfy all given bounds b_i <= X_(i) and X_(i) <= B_i; an empty list imposes no bounds. If b is non-empty but shorter than n no sample can satisfy it and 0 is printed. Every simulated sample is judged correctly, whatever random numbers are drawn.",
  ["inputs", "schedules"], "All sequences of random draws over a discretised alphabet times all small boundaries files.",
  "The test compares four random estimates with a tolerance of 0.01.",
  ["src/crossprob_mc.cc"],
  [("does_random_ecdf_cross, does_integer_step_function_cross*", "src/crossprob_mc.cc")],
  ["printed estimate for controlled random draws"], None,
  "The uniform generator is replaced by a scripted one in a scratch copy (header shim); no hook in /repo.")

p("C15", "crossprob_mc poisson counts exactly the paths that cross",
  "In 'poisson' mode, crossprob_mc simulates homogeneous Poisson processes of intensity n = max(len b, len B) on [0,1] and prints the fraction of paths with at least len B points, with the i-th point at most B_i for every bound in B and, if b is non-empty, with at most len b points and the i-th point at least b_i. An empty list imposes no bounds on its side. Every simulated path is judged correctly, whatever random numbers are drawn.",
  ["inputs", "schedules"], "All sequences of random draws over a discretised alphabet (until the path ends) times all small boundaries files.",
  "The Poisson tests are commented out.",
  ["src/crossprob_mc.cc"],
  [("does_random_poisson_process_cross", "src/crossprob_mc.cc")],
  ["printed estimate for controlled random draws"], None,
  "Scripted generator, as for C14.")

p("C16", "Monte-Carlo runs use a well-seeded uniform random stream",
  "A Monte-Carlo estimate depends only on the start time in seconds and the command line, never on leftover memory; different start times give different random streams. The generator is TinyMT64 with its reference parameters, yielding draws uniform on the unit interval, so that for every start time the printed estimate agrees with the exact probability within Monte-Carlo error.",
  ["histories", "inputs"], "Every start second of a window, several memory contents, and every boundaries file of a small set; generator state sequences for a set of seeds against an independent implementation.",
  "The test sees one random run per file and cannot tell a badly parameterised generator from a good one.",
  ["src/crossprob_mc.cc", "src/tinymt64.cc", "src/tinymt64.h"],
  [("RandomNumberGenerator constructor", "src/crossprob_mc.cc"), ("tinymt64_init, tinymt64_next_state, tinymt64_temper*", "src/tinymt64.cc, src/tinymt64.h")],
  ["printed estimate under a controlled clock"],
  [("random_state", "TinyMT64 status and parameters", "src/crossprob_mc.cc")])

p("C17", "crossprob_mc validates its command line and prints one estimate",
  "crossprob_mc <ecdf|poisson> <file> <num-simulations> with a positive decimal integer and a well-formed file runs exactly that many simulations, prints one line with the non-crossing fraction (a number in [0,1]) and exits 0. A wrong number of arguments, an unknown command, an unreadable or malformed file, or a count that is not a positive decimal integer (empty, negative, zero, trailing text, out of range) gives a non-zero exit status, an explanation and no estimate.",
  ["inputs", "configurations"], "All argument vectors over a small alphabet times file shapes; all short count strings.",
  "The tests never look at failures or at the number of simulations.",
  ["src/crossprob_mc.cc", "src/string_utils.cc"],
  [("handle_command_line_arguments", "src/crossprob_mc.cc"), ("string_to_long", "src/string_utils.cc")],
  ["exit status, standard output, number of simulated samples"])

p("C18", "The Python functions return the C++ results and raise on bad input",
  "Each function of the Python module (ecdf2, ecdf1_new_b, ecdf1_new_B, ecdf1_mns2016_b, ecdf1_mns2016_B) accepts its bounds as any Python sequence of numbers (list, tuple, module vector, user-defined sequence) and returns the exact non-crossing probability of the documented problem. Invalid bounds raise RuntimeError with a message and arguments of a wrong type or number raise TypeError (or another Python exception); the interpreter survives, the arguments are unchanged, no references leak and later calls work.",
  ["inputs", "histories"], "All small argument tuples over an alphabet of container kinds, element kinds and bounds.",
  "No test imports the Python module.",
  ["python_extension/crossprob.cc", "python_extension/crossprob.py", "src/crossprob.i", "setup.py"],
  [("SWIG typemaps and %exception", "src/crossprob.i, python_extension/crossprob.cc")],
  ["return value or exception of the Python functions"])

p("C19", "The Python vector type behaves like a list of floats",
  "After any sequence of operations (construction, append, insert, pop, index and slice get, set and delete, assign, resize, swap, copy construction, clear, complete iteration, length, truth value), the Python module's vector of doubles holds the same floats as a Python list subjected to the same operations. An operation a list rejects with an exception raises one here too and leaves the contents unchanged.",
  ["histories"], "All operation sequences up to a depth from all reachable small contents.",
  "No test imports the Python module.",
  ["python_extension/crossprob.cc", "python_extension/crossprob.py", "src/crossprob.i"],
  [("SWIG std_vector wrapper", "python_extension/crossprob.cc")],
  ["contents after every operation"])

p("C20", "Interleaved Python calls from several threads do not interfere",
  "When several Python threads call the module's functions at the same time, or a sequence object passed as an argument itself calls the module while it is being read, every call returns the result it would return alone.",
  ["schedules"], "All interleavings of two or three concurrent calls at every point where the interpreter can switch threads during a call.",
  "No test imports the Python module, let alone from threads.",
  ["python_extension/crossprob.cc", "src/ecdf2.cc", "src/ecdf1_new.cc", "src/ecdf1_mns2016.cc"],
  [("argument conversion into per-call vectors; interpreter lock held during the computation", "python_extension/crossprob.cc")],
  ["return values of concurrent calls"])

p("C21", "Running time and memory grow as documented",
  "The work of the newer one-sided and of the older one-sided algorithm grows at most quadratically in n, that of the FFT two-sided algorithm as n^2 log n and that of the direct two-sided algorithm cubically, whatever the boundaries; memory grows linearly in n for all of them. No valid input makes an algorithm fall into a higher growth class.",
  ["inputs"], "All boundary families of a set, over doubling sample sizes.",
  "The tests use n<=10 and measure no cost.",
  ["src/ecdf1_new.cc", "src/ecdf1_mns2016.cc", "src/ecdf2.cc", "src/fftwconvolver.cc"],
  [("block length about sqrt(n)", "src/ecdf1_new.cc"), ("FFT convolution above a size threshold; cached plans", "src/fftwconvolver.cc")],
  ["deterministic work counters (executed basic blocks, FFT lengths) and peak heap bytes"])

p("C22", "Saved benchmark results load back unchanged or not at all",
  "The benchmark store returns for a name exactly the fields last saved under that name, independently of other names. If a save is interrupted at any point, a later load of that name either returns one complete saved record (the new one or the previous one) or raises an error; it never returns partial or mixed data.",
  ["histories", "crash_points"], "All save/load sequences up to a depth over two names; all crash points and write truncations of a save.",
  "No test covers the benchmark code.",
  ["benchmarks/pickler.py"],
  [("dump, load (gzip checksum and pickle framing)", "benchmarks/pickler.py")],
  ["result of load after histories and crashes"])

p("C23", "The FFT convolver returns the true convolution for every request",
  "A convolver built for a maximum size returns, for any sequence of requests of any sizes up to that maximum and in any order, the first entries of the linear convolution of the two inputs (no wrap-around, no leftovers of earlier requests) up to rounding, and leaves the inputs unchanged. A request larger than the maximum is rejected with an error, and an empty request does nothing.",
  ["histories", "inputs"], "All sequences of request sizes up to a depth around every threshold, on inputs that reveal each output coefficient.",
  "No test reaches an FFT; none uses a convolver twice with different sizes.",
  ["src/fftwconvolver.cc", "src/fftwconvolver.hh"],
  [("plan cache indexed by padded length, zero padding", "src/fftwconvolver.cc")],
  ["output buffer of the convolver; results of ecdf2(b,B,true) across sizes"],
  [("r2c_plans/c2r_plans", "cached plans per padded length", "src/fftwconvolver.cc")])

p("C24", "Poisson weights are right for every mean and count, in any order",
  "The Poisson probabilities used by the algorithms equal exp(-m) m^k / k! up to rounding for every mean m >= 0 and every count k up to the table size, including m = 0, tiny and large means; a table refilled for another mean or a smaller count range shows no entry of the earlier one within the requested range. A negative mean is rejected.",
  ["histories", "inputs"], "All sequences up to a depth of refills over an alphabet of means and ranges; all k.",
  "No test looks at the weights directly; the tested inputs have n<=10.",
  ["src/poisson_pmf.cc", "src/poisson_pmf.hh"],
  [("log-gamma table and per-call array", "src/poisson_pmf.cc")],
  ["table contents after every refill"],
  [("pmf_array_ptr", "current weights", "src/poisson_pmf.cc")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")

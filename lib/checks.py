"""One entry per property: how it is explored.  CHECKS[id].run(ctx) raises verif.Violation."""
from verif import *


class Spec:
    def __init__(self, run, level, technique, note):
        self.run, self.level, self.technique, self.note = run, level, technique, note


CHECKS = {}


def check(prop, level, technique, note):
    def deco(f):
        CHECKS[prop] = Spec(f, level, technique, note)
        return f
    return deco


MODEL = "Trusted: the explicit-state Markov-chain model (validated on every run against full enumeration of small discretised sample spaces and closed forms), g++, libm long double."


def exact(mode):
    def run(ctx):
        tree, lib, _ = ctx.library()
        exe = ctx.harness("exact.cc", tree, [lib])
        ctx.explore(exe, mode)
        ctx.assumptions += ["bounds: value alphabets and sample sizes listed in harness/exact.cc", MODEL]
    return run


for _id, _mode, _what in (("C01", "ks", "direct two-sided"), ("C02", "mn", "FFT two-sided"), ("C03", "new", "newer one-sided"), ("C04", "mns", "polynomial one-sided")):
    check(_id, "model_checking", "explicit-state Markov-chain model, exhaustive enumeration of boundary lists, every case replayed on the compiled library",
          "Every enumerated boundary list (all relative orders for small n, structured families for every n up to hundreds and around every algorithmic threshold) is evaluated by the real %s code and compared with the model's reachability probability. Nothing is claimed for boundary values outside the enumerated alphabets. %s" % (_what, MODEL))(exact(_mode))


def rel(mode, *assume):
    def run(ctx):
        tree, lib, _ = ctx.library()
        exe = ctx.harness("rel.cc", tree, [lib])
        r = ctx.explore(exe, mode)
        if r:
            ctx.coverage["rule"] = RULES[mode]
            if mode == "valid": ctx.coverage["valid_cases"], ctx.coverage["invalid_cases"] = r["extra"][0], r["extra"][1]
        ctx.assumptions += list(assume)
    return run


RULES = {
    "agree": "each case sends one boundary list (pair) and its reflection through every applicable algorithm; distinct = distinct (bounds, probability) pairs",
    "mono": "each case is one node of the tightness lattice with all its loosening edges, or one link of a long chain; distinct = distinct (bounds, algorithm, probability)",
    "total": "each case is one call with extreme bounds; distinct = distinct (bounds, algorithm, probability)",
    "valid": "each case is one call with a list over valid and invalid values; distinct = distinct (arguments, function, expected verdict)",
}
check("C05", "exploration", "exhaustive enumeration of bounded boundary shapes, differential oracle between all algorithms and reflections",
      "All lists over a grid for small n, structured families for every n to 220 and around thresholds to 6145, through every algorithm that applies and its reflection; they must agree to 2e-13(n+30).")(rel("agree"))
check("C06", "exploration", "exhaustive exploration of the lattice of boundary lists (every node, every edge), order oracle",
      "Every edge of the tightness lattice over a grid (small n), every single position of longer bands, long chains up to n=2049; probabilities must be ordered up to rounding 2e-13(n+30).")(rel("mono"))
check("C07", "exploration", "exhaustive enumeration over an alphabet of extreme values, crash-isolated execution of the compiled code",
      "All lists over eight extreme values for small n, run-length skeletons over them for larger n; each call must end normally with a finite number in [0,1], 0/1 where forced.")(rel("total"))
check("C08", "exploration", "exhaustive enumeration of vectors over a valid/invalid alphabet against a validity predicate",
      "All vectors over 14 values up to length 4 (pairs up to length 2), every offending position of lists up to 257, all length combinations; accepted if and only if valid.")(rel("valid"))


def c12(ctx):
    tree, lib, _ = ctx.library()
    exe = ctx.harness("hist.cc", tree, [lib])
    if ctx.explore(exe, "hist"):
        ctx.coverage["rule"] = "each case is one call history executed in a process forked before the first call; distinct = distinct histories (calls, order, memory contents)"


check("C12", "exploration", "exhaustive enumeration of call histories (all sequences to depth 4 over 18 calls, 7 memory contents), fresh-process differential oracle",
      "All histories to depth 4 over 18 representative calls; larger histories only as repetitions. Results are compared with the same call in a fresh process, arguments bit for bit, floating-point control state exactly.")(c12)


PROG_RULE = "each case is one run of the program's main on one file / argument vector; distinct = distinct (file, arguments, expected verdict)"
PROG_NOTE = " The programs' main runs inside the explorer (renamed at object level, built by the repository's Makefile); every discrepancy is repeated with the real executable before it counts."


def programs(*modes):
    def run(ctx):
        tree = ctx.make(ctx.copy())
        exes = {}
        for prog, mode in modes:
            if prog not in exes: exes[prog] = ctx.program(prog, tree)
            r = ctx.explore(exes[prog], mode, arg=os.path.join(tree, "bin", prog))
            if r and mode in ("file", "mcfile"):
                ctx.coverage["%s_files_valid_invalid_unspecified" % prog] = r["extra"][:3]
            if r: ctx.coverage["discrepancies_not_confirmed_by_executable"] = ctx.coverage.get("discrepancies_not_confirmed_by_executable", 0) + r["extra"][7]
        ctx.coverage["rule"] = PROG_RULE
    return run


check("C09", "exploration", "exhaustive enumeration of small boundaries files (all texts to length 5, all token/line combinations) against an independent parser and the Markov-chain model",
      "All texts to length 5 over 11 characters, all pairs of lines from 150 line shapes, one defect at every position, lines to 300000 characters; the numbers read are observed through the printed probability (down to one unit in the last place for n=1)." + PROG_NOTE)(programs(("crossprob", "file"), ("crossprob_mc", "mcfile")))
check("C10", "exploration", "exhaustive enumeration of argument vectors and file shapes against a decision table and the Markov-chain model",
      "All argument vectors to length 4 over 8 words, 18 algorithm names x 33 files, all small boundaries through all algorithms; status, explanation and all six digits are judged." + PROG_NOTE)(programs(("crossprob", "cli")))
check("C17", "exploration", "exhaustive enumeration of argument vectors, count strings and file shapes against a decision table",
      "All count strings to length 4 over 11 characters, every count 1..700 with forced outcomes, all argument vectors to length 4 over 6 words." + PROG_NOTE)(programs(("crossprob_mc", "mccli")))


REPO_FLAGS = "-O3 -ffast-math -fwrapv"


def internal(src, mode, fallback_mode, rule, flags=""):
    """An internal class; if a refactoring makes the harness uncompilable, its effect is judged through the public functions."""
    def run(ctx):
        tree, lib, _ = ctx.library()
        try:
            exe = ctx.harness(src, tree, [lib], flags)
        except Broken as e:
            print("note: internal interface changed, judging through the public functions instead")
            ctx.coverage["fallback"] = "internal interface not available: " + str(e)[-300:]
            exe = ctx.harness("exact.cc", tree, [lib])
            for m in fallback_mode: ctx.explore(exe, m)
            return
        ctx.explore(exe, mode)
        ctx.coverage["rule"] = rule
    return run


check("C23", "model_checking", "exhaustive enumeration of request histories on the real convolver object against the defining sum",
      "All request-size histories to depth 3 (4 for maximum sizes to 129) around every threshold for 22 maximum sizes, every size 1..2600 with four input kinds, unit vectors at the thresholds. Internal class; if its interface changes the check falls back to the public two-sided function (model comparison).")(
    internal("conv.cc", "conv", ["mn"], "states = object states after each request, transitions = requests, traces = complete histories executed on the real object"))
check("C24", "exploration", "exhaustive enumeration of table refill histories on the real object against exact weights",
      "All refill histories to depth 2-4 over 13 means x up to 5 ranges x 7 table sizes; every weight in range compared with long double. Internal class; falls back to the public functions if its interface changes.")(
    internal("pmf.cc", "pmf", ["ks", "new"], "each case is one history of table refills (or one mean/count); distinct = distinct histories", REPO_FLAGS))


def c21(ctx):
    tree, lib, _ = ctx.library("-fsanitize-coverage=trace-pc -Wl,--unresolved-symbols=ignore-all")
    exe = ctx.harness("cost.cc", tree, [lib], link=" ".join("-Wl,--wrap=" + f for f in ("fftw_execute", "fftw_execute_dft_r2c", "fftw_execute_dft_c2r", "fftw_execute_dft", "fftw_execute_r2r", "fftw_plan_dft_r2c_1d", "fftw_plan_dft_c2r_1d", "fftw_plan_dft_1d", "fftw_plan_r2r_1d", "fftw_destroy_plan")))
    r = ctx.explore(exe, "cost", stall=150)
    if r:
        ctx.coverage["calls_measured"] = r["extra"][0]
        ctx.coverage["rule"] = "each case is one algorithm x boundary family over a chain of doubling sample sizes; distinct = distinct (algorithm, family, work) points"


check("C21", "exploration", "exhaustive exploration of boundary families x doubling sample sizes with deterministic work and allocation counters",
      "Work = executed basic blocks (compiler instrumentation) + FFT operations reported by FFTW's own plan; memory = peak heap bytes. Growth over every factor >= 4 must stay within 1.5x of the documented class. Only families and sizes listed; constants are not judged.")(c21)


def c13(ctx):
    san = "-fsanitize=address,undefined,float-cast-overflow -fno-sanitize=null -fno-sanitize-recover=all -fno-omit-frame-pointer -g1"
    env = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=0", "UBSAN_OPTIONS": "print_stacktrace=0:halt_on_error=1:abort_on_error=1"}
    # the Makefile's -fwrapv would hide signed overflow from the sanitizer; standard C++ leaves it undefined
    wrap = os.path.join(ctx.scratch, "g++-no-wrapv")
    with open(wrap, "w") as f: f.write('#!/bin/sh\nexec g++ "$@" -fno-wrapv\n')
    os.chmod(wrap, 0o755)
    tree = ctx.make(ctx.copy("asan-tree"), san, cxx=wrap)
    objs, _ = ctx.objects(tree)
    lib = ctx.archive(tree, objs)
    exe = ctx.harness("asan.cc", tree, [lib], "-fsanitize=address,undefined")
    ctx.explore(exe, "lib", label="asan-lib", mem=0, env=env)
    for prog, mode in (("crossprob", "cp"), ("crossprob_mc", "mc")):
        e = ctx.program(prog, tree, "asan_prog.cc", "asan-" + mode, "-fsanitize=address,undefined")
        ctx.explore(e, mode, label="asan-" + mode, mem=0, env=env, stall=900 if ctx.thorough else 240)
    tree, lib, _ = ctx.library(name="plain-tree")
    exe = ctx.harness("guard.cc", tree, [lib])
    ctx.explore(exe, "guard", mem=0)
    ctx.coverage["rule"] = "each case is one library call or program run; distinct = distinct (function, arguments) or (command line, file)"
    ctx.assumptions.append("Memory contract checked by AddressSanitizer/UBSan in the repository's code and by guard pages around every heap block (including those used inside FFTW) in the unmodified optimised build.")


check("C13", "exploration", "exhaustive enumeration of bounded calls, files and command lines, monitored by sanitizers, guard pages and heap accounting",
      "All small lists over valid/invalid values, every size to 180 (300 under guard pages) and around the thresholds to 2049, all texts to length 4 as files, all small argument vectors; a report, a crash, an overwritten guard byte or heap growth over repeated identical calls is a violation. Reads of uninitialised memory are judged by C12.")(c13)


def scripted(mode):
    def run(ctx):
        tree = ctx.copy("scripted-tree")
        shimmed = False
        for h in glob.glob(tree + "/**/tinymt64.h", recursive=True):
            with open(h, "a") as f: f.write("\n" + open(os.path.join(HARNESS, "tinymt_shim.h")).read())
            shimmed = True
        r = None
        if shimmed:
            ctx.make(tree, "-Wl,--unresolved-symbols=ignore-all")
            exe = ctx.program("crossprob_mc", tree, "mc.cc")
            r = ctx.explore(exe, mode, stall=900 if ctx.thorough else 90)
            if ctx.only: return
        if r is None or r["extra"][6]:
            print("note: crossprob_mc does not draw through tinymt64.h any more, judging its estimates instead")
            ctx.coverage["fallback"] = "random generator not reached through tinymt64.h; printed estimates compared with exact probabilities"
            estimates(ctx)
            return
        ctx.coverage["trajectories"], ctx.coverage["ties_skipped"] = r["extra"][0], r["extra"][1]
        ctx.coverage["accepted"], ctx.coverage["rejected"] = r["extra"][2], r["extra"][3]
        ctx.coverage["long_runs_not_understood"] = r["extra"][7]
        if r["extra"][5]: ctx.coverage["note"] = "unknown mapping from draws to points: judged by grid integrals over all draws"
        ctx.coverage["rule"] = "each case is one boundaries file; trajectories = complete draw sequences executed; distinct = distinct (file, draws, verdict)"
    return run


for _id, _mode in (("C14", "ecdf"), ("C15", "poisson")):
    check(_id, "exploration", "stateless exploration of the real program over all sequences of random draws (scripted generator, backtracking), against a reference judge",
          "All draw sequences over 3-9 values (and the extreme draws) x all boundaries files with up to 3 bounds per side over a grid; deterministic paths to n=257 with every bound moved to either side of its point; multi-simulation runs composed of single ones. Draws exactly on a bound (to 1e-11) are not judged.")(scripted(_mode))


CLOCK = ("exit=xp_exit", "time=xp_time", "clock=xp_clock_cpu", "clock_gettime=xp_clock_gettime", "gettimeofday=xp_gettimeofday", "_ZNSt6chrono3_V212system_clock3nowEv=xp_sysclock", "_ZNSt6chrono3_V212steady_clock3nowEv=xp_steadyclock")


def estimates(ctx, label="estimate"):
    tree = ctx.make(ctx.copy("plain-tree"))
    exe = ctx.program("crossprob_mc", tree, "mcrng.cc", "h-estimate", shims=CLOCK)
    r = ctx.explore(exe, "estimate", label=label)
    if label == "estimate": return r
    so = os.path.join(ctx.scratch, "libxpclock.so")
    ctx.sh("gcc -O2 -shared -fPIC -o %s %s/clock.c" % (so, HARNESS))
    ctx.explore(exe, "surroundings", arg=os.path.join(tree, "bin", "crossprob_mc") + ":" + so)
    return r


def c16(ctx):
    estimates(ctx, "estimates")
    tree = ctx.copy("recorded-tree")
    for h in glob.glob(tree + "/**/tinymt64.h", recursive=True):
        with open(h, "a") as f: f.write("\n" + open(os.path.join(HARNESS, "tinymt_record.h")).read())
    try:
        ctx.make(tree, "-Wl,--unresolved-symbols=ignore-all")
        exe = ctx.program("crossprob_mc", tree, "mcrng.cc", "h-stream", shims=CLOCK)
    except Broken as e:
        ctx.coverage["streams"] = "not recorded: the generator's interface changed"
        return
    r = ctx.explore(exe, "stream")
    if r:
        ctx.coverage["streams_recorded"] = r["extra"][0]
        if r["extra"][6]: ctx.coverage["streams"] = "the program does not draw through tinymt64.h; only the printed estimates were judged"
    tree, lib, _ = ctx.library()
    try:
        exe = ctx.harness("tinymt.cc", tree, [lib])
    except Broken:
        ctx.coverage["generator"] = "not compared: the generator's interface changed"
        return
    ctx.explore(exe, "tinymt")
    ctx.coverage["rule"] = "states = generator states, transitions = draws; traces = recorded program runs and generator sequences compared with the model"


check("C16", "model_checking", "explicit enumeration of start seconds and memory contents on the real program with its clock controlled; generator state sequences compared with an independent TinyMT64 model",
      "Windows of consecutive start seconds (8 bases), 14 boundary files, both commands: recorded draws must be the model generator's, distinct between seconds, uniform; printed estimates within 6.5 standard deviations of the exact probability (fixed start seconds: the outcome of the check is deterministic).")(c16)


def pymod(mode, rule):
    def run(ctx):
        tree, d = ctx.extension()
        so = ctx.reference_library()
        ctx.explore([PYTHON, "-B", os.path.join(HARNESS, "pymod.py")], mode, arg=so, env={"PYTHONPATH": d, "MALLOC_ARENA_MAX": "1"})
        ctx.coverage["rule"] = rule
    return run


check("C18", "exploration", "exhaustive enumeration of argument tuples and call histories on the real extension module against the Markov-chain model and an error table, with leak and crash monitors",
      "All small lists x 11 container kinds x 5 element kinds, all lists over 9 valid/invalid values to length 3, 60 kinds of wrong arguments (sequences that raise at every access), histories to depth 3; every case also counts references, Python objects and heap bytes over repeated calls.")(
    pymod("call", "each case is one call (or call history) of the module; distinct = distinct (function, containers, values)"))
check("C19", "model_checking", "explicit-state exploration of operation histories on the real vector against a Python list (every operation pair followed by every operation; every slice from every contents)",
      "All histories to depth 3 (4 thorough) over 66 operations from 2-4 initial contents, all index/slice/step combinations over 19x19x10 values from 7 contents. Iterators kept across modifications are excluded (undefined in C++, as is dereferencing an end iterator).")(
    pymod("vec", "states/transitions = operations applied with the full observable contents compared with the list model; traces = complete histories"))


def c20(ctx):
    tree, d = ctx.extension(flags="-fsanitize-coverage=trace-pc")
    so = ctx.reference_library()
    sched = os.path.join(ctx.scratch, "libxpsched.so")
    ctx.sh("gcc -O2 -shared -fPIC -fno-builtin -ftls-model=initial-exec -o %s %s/pysched.c -ldl -lpthread" % (sched, HARNESS))
    r = ctx.explore([PYTHON, "-B", os.path.join(HARNESS, "pysched.py")], "sched", arg=so, mem=0,
                    env={"PYTHONPATH": d, "LD_PRELOAD": sched, "XP_SCHED": sched, "PYTHONWARNINGS": "ignore"})
    if r: ctx.coverage.update(r["extra"])
    ctx.coverage["rule"] = "states/transitions = scheduling points executed, traces = complete schedules of the real module (each thread's result compared with the same call alone and with the Markov-chain model)"


check("C20", "model_checking", "stateless exploration of all thread schedules of the real extension module (baton scheduler at every sequence access, every bytecode of the module's Python part, and every basic block executed without the interpreter lock) and of all re-entrant calls",
      "All interleavings of two one-sided calls with n=1; preemption bounds 1-4 for larger calls and three threads; every access x every inner call, two levels deep. Switch points are those at which CPython can switch threads; C++ callers using threads without the interpreter lock are not covered (the library makes no such promise).")(c20)


def c11(ctx):
    tree = ctx.make(ctx.copy())
    so = ctx.reference_library()
    pre = os.path.join(ctx.scratch, "libxpfault.so")
    ctx.sh("gcc -O2 -fno-builtin -shared -fPIC -o %s %s/faults.c -ldl" % (pre, HARNESS))
    work = os.path.join(ctx.scratch, "work"); os.makedirs(work)
    r = ctx.explore([PYTHON, "-B", os.path.join(HARNESS, "pyfault.py")], "faults", arg=",".join((os.path.join(tree, "bin"), pre, so)), env={"XP_SCRATCH": work})
    if r: ctx.coverage["outcomes"] = r["extra"]
    ctx.coverage["rule"] = "each case is one scenario (command line, file) with one fault pattern injected into the real executable; distinct = distinct (scenario, pattern)"


check("C11", "exploration", "exhaustive fault injection into the real executables: every allocation, open, pattern of reads, delivery in pieces and output byte at which a run can fail",
      "24 scenarios x every allocation (alone, all later ones, pairs in short runs) x every read pattern to depth 3 over {ok, error, interrupted, 1 byte, half} x every output byte; system-call level faults by interposition, resource limits, full devices and pipes.")(c11)


def c22(ctx):
    tree = ctx.copy()
    src = [os.path.dirname(p) for p in glob.glob(tree + "/**/pickler.py", recursive=True)]
    if len(src) != 1: raise Broken("no pickler.py")
    work = os.path.join(ctx.scratch, "work"); os.makedirs(work)
    r = ctx.explore([PYTHON, "-B", os.path.join(HARNESS, "pystore.py")], "store", arg=src[0], env={"XP_SCRATCH": work})
    if r: ctx.coverage["rule"] = "states/transitions = saves and interruptions, traces = complete histories on the real module, each followed by loads of every name compared with a dictionary model"


check("C22", "model_checking", "exhaustive exploration of save/load histories and of all crash points (every bytecode, every output byte, every length of the written file) on the real store against a dictionary model",
      "All histories to depth 3 (4 thorough) over 12 operations on two names; 24 situations x every interruption point of a save (exception, kill, full device), every length of the written file; the leftovers of an interrupted save collected after the next save. gzip's checksum is trusted as far as it is part of the code under test.")(c22)

"""C22: the benchmark result store (benchmarks/pickler.py) under histories, interruptions and torn writes."""
import copy, gc, importlib.util, itertools, math, os, resource, shutil, signal, sys, tempfile, time
import pyxp

SRC = None
class Bang(BaseException): pass
class Unpicklable:
    def __reduce__(self): raise RuntimeError("cannot be saved")

def fresh(root):
    """a store of its own: the module finds its data directory beside its own file"""
    os.makedirs(root, exist_ok=True)
    for f in os.listdir(SRC):
        if f.endswith(".py") and not os.path.exists(os.path.join(root, f)): shutil.copy(os.path.join(SRC, f), root)
    spec = importlib.util.spec_from_file_location("pickler_%d" % abs(hash(root)), os.path.join(root, "pickler.py"))
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    return m

def files(root): return sorted(os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs if not f.endswith((".py", ".pyc")))
def wipe(root):
    for f in files(root): os.unlink(f)

def eq(a, b):
    if type(a) is not type(b): return False
    if isinstance(a, float): return a == b and math.copysign(1, a) == math.copysign(1, b) or a != a and b != b
    if isinstance(a, dict): return list(a) == list(b) and all(eq(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)): return len(a) == len(b) and all(map(eq, a, b))
    return a == b

def fields(o): return dict(vars(o))

def load(m, name):
    try: return ("ok", fields(m.load(name)))
    except Exception as e: return ("exc", type(e).__name__)

def elsewhere(m, name):
    """load in a process that did not save anything"""
    r, w = os.pipe(); p = os.fork()
    if p == 0:
        try:
            import pickle
            n = fresh(os.path.dirname(m.__file__)); b = pickle.dumps(load(n, name)); 
            while b: b = b[os.write(w, b):]
        finally: os._exit(0)
    os.close(w); b = b""
    while True:
        c = os.read(r, 65536)
        if not c: break
        b += c
    os.close(r); os.waitpid(p, 0)
    import pickle
    return pickle.loads(b) if b else ("exc", "process died")

R = [dict(x=1, y=[0.5, 1.5]), dict(x=2), dict(y=[9.25], z="text", w=None), dict(), dict(x=list(range(300)), data={"data": 3}, metadata=(1, 2))]

def short(v):
    r = repr(v); return r if len(r) < 300 else r[:200] + "..." + r[-60:]

def must(x, got, allowed, what):
    """allowed: list of records (an exception is allowed if None is among them)"""
    x.check()
    if got[0] == "exc":
        if None not in allowed: x.fail("%s: loading raises %s, saved was %s" % (what, got[1], short(allowed)))
    elif not any(a is not None and eq(got[1], a) for a in allowed): x.fail("%s: loading returns %s, saved was %s" % (what, short(got[1]), short(allowed)))

# ---- interruptions ---------------------------------------------------------------------------------------
WATCHED = None
def interrupt(m, f, at, how):
    """runs f, interrupting it at the at-th bytecode of the store's Python code; returns False if it finished before"""
    n = [0]
    def local(fr, ev, a):
        if ev == "opcode":
            n[0] += 1
            if n[0] == at:
                if how == "exit": os._exit(0)
                sys.settrace(None)
                raise Bang()
        return local
    here = os.path.dirname(m.__file__)
    def glob(fr, ev, a):
        fn = fr.f_code.co_filename
        if fn.startswith(here) or fn.endswith(("/gzip.py", "/_compression.py", "/shutil.py", "/tempfile.py", "/pickle.py", "/json/encoder.py")):
            fr.f_trace_opcodes = True; fr.f_trace_lines = False
            return local
        return None
    sys.settrace(glob)
    try: f()
    except Bang: hit = True
    else: hit = n[0] >= at
    finally: sys.settrace(None)
    if COLLECT and hit: gc.collect()        # leftovers of the interrupted save go before the next operation; section 4 lets them stay
    return hit
COLLECT = True

def child(f):
    p = os.fork()
    if p == 0:
        try: f()
        except BaseException: os._exit(1)
        os._exit(0)
    return os.waitpid(p, 0)[1]

def limited(f, n, kill):
    def g():
        signal.signal(signal.SIGXFSZ, signal.SIG_DFL if kill else signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (n, n)); resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        f()
    return child(g)

def snapshot(root): return {f: open(f, "rb").read() for f in files(root)}
def restore(root, s):
    wipe(root)
    for f, b in s.items():
        with open(f, "wb") as h: h.write(b)

def store(x):
    global SRC
    SRC = pyxp.arg; T = pyxp.thorough
    resource.setrlimit(resource.RLIMIT_AS, (2 << 30, 2 << 30))
    root = tempfile.mkdtemp(prefix="w", dir=os.environ["XP_SCRATCH"])
    m = fresh(root)
    if True:                                 # the same bytes in every run: files carry the time they were written
        time.time = lambda: 1600000000.0
        ct = time.ctime; time.ctime = lambda *a: ct(*(a or (1600000000.0,)))
    gc.collect(); gc.freeze()
    # 1. values and names
    vals = [0, 1, -1, 2 ** 70, 0.1, -0.0, float("inf"), float("nan"), 5e-324, True, None, "", "x" * 5000, "\u20ac\n", b"\0\xff", [], [1, [2.5, (3,)]], (), {}, {"a": {"b": [1]}}, {1: 2}, set([1]), frozenset(), 1j, range(3), [0.1] * 2000, list(range(70000))]
    keys = ["x", "d", "self", "data", "metadata", "date", "name", "_x", "__dict", "X", "x1", "kwargs", "f", "keys"]
    for i, v in enumerate(vals):
        for k in keys:
            if not x.next(): continue
            x.desc("save %s=%r" % (k, v)); x.key((k, i)); x.states(1, 2); x.trace()
            r = {k: v}; m.dump("r", **r); must(x, load(m, "r"), [r], "save and load"); must(x, elsewhere(m, "r"), [r], "load elsewhere")
            r = {k: v, "other": i}; m.dump("r", **r); must(x, load(m, "r"), [r], "second save")
            wipe(root)
    names = ["a", "b", "A", "ab", "a.b", "a.pickle", "a.pickle.gz", "a ", " a", "a-b", "a_b", "1", "\u20ac", "a" * 100, ".a", "a..", "a,b", "a=b", "x" * 60 + "1", "x" * 60 + "2", "n=100", "n=10", "n=100_alpha=0.05", "n=100_alpha=0.1", "tmp", "a.tmp", "a~", "a.bak", "a.new", "a.old"]
    for a in names:
        for b in names:
            if a == b or not x.next(): continue
            x.desc("names %r and %r" % (a, b)); x.key((a, b)); x.states(4, 4); x.trace()
            must(x, load(m, a), [None], "nothing saved")
            m.dump(a, **R[0]); must(x, load(m, b), [None], "only the other name saved")
            m.dump(b, **R[2]); must(x, load(m, a), [R[0]], "first name"); must(x, load(m, b), [R[2]], "second name")
            m.dump(a, **R[1]); must(x, load(m, b), [R[2]], "second name"); must(x, load(m, a), [R[1]], "first name")
            must(x, elsewhere(m, b), [R[2]], "second name elsewhere")
            wipe(root)
    # 2. histories against a dictionary model; None in a list of possibilities = may raise
    def save(n, r): return ("save %s %r" % (n, r), n, r, None)
    ops = [save("a", R[0]), save("a", R[1]), save("a", R[2]), save("b", R[0]), save("b", R[3]),
           ("failing save a", "a", dict(p=5, q=Unpicklable(), r=6), "fail"), ("failing save b", "b", dict(x=1, y=Unpicklable()), "fail"),
           ("save a interrupted early", "a", dict(x=77, y=[1]), 25), ("save a interrupted late", "a", dict(x=78, z=1), 400), ("save b interrupted", "b", dict(x=79), 180),
           ("change what load a returned", "a", None, "change"), ("forget module", None, None, "reimport")]
    for depth in ((1, 2, 3) if not T else (1, 2, 3, 4)):
        for h in itertools.product(range(len(ops)), repeat=depth):
            if not x.next(): continue
            x.desc("; ".join(ops[i][0] for i in h)); x.key(h); x.trace()
            wipe(root); st = {"a": [None], "b": [None]}; mm = m = fresh(root)
            for i in h:
                nm, n, r, how = ops[i]; x.states(1, 1)
                if how is None:
                    r = copy.deepcopy(r); mm.dump(n, **r); st[n] = [copy.deepcopy(r)]
                    for v in r.values():
                        if isinstance(v, list): v.append("changed after saving")
                elif how == "fail":
                    try: mm.dump(n, **r); x.fail("%s: succeeded" % nm)
                    except Exception: pass
                    st[n] = st[n] + [None]
                elif how == "change":
                    try:
                        o = mm.load(n)
                        for v in vars(o).values():
                            if isinstance(v, list): v.append(0)
                        o.x = -1
                    except Exception: pass
                elif how == "reimport": mm = fresh(root)
                else:
                    done = not interrupt(mm, lambda: mm.dump(n, **r), how, "raise")
                    st[n] = [r] if done else st[n] + [r, None]
                for q in "ab": must(x, load(mm, q), st[q], "%s after %s" % (q, nm))
            for q in "ab": must(x, elsewhere(mm, q), st[q], "%s in another process" % q)
    wipe(root); m = fresh(root)
    # 3. every interruption point of a save
    big = dict(x=[i * 0.37 for i in range(4000)], y="end")
    cases = [(old, new, other) for old in (None, R[0], R[4], big) for new in (R[1], R[4], big) for other in (None, R[2])]
    for old, new, other in cases:
        sh = "previous %s, new %s, other name %s" % tuple("none" if r is None else "record with " + ",".join(r) for r in (old, new, other))
        def setup():
            wipe(root)
            if old is not None: m.dump("a", **old)
            if other is not None: m.dump("b", **other)
        def verdict(what, finished):
            for f in (load, elsewhere) if T else (load,):
                must(x, f(m, "a"), [new] if finished else [old, new, None], what); must(x, f(m, "b"), [other], what)
            x.states(1, 1); x.trace()
            m.dump("a", **R[0]); must(x, load(m, "a"), [R[0]], what + ", then saved again"); must(x, load(m, "b"), [other], what + ", then saved again")
        total = None
        for how in ("raise", "exit"):
            for at in range(1, 20000):
                if total is None:
                    setup(); lo, hi = 1, 1
                    while interrupt(m, lambda: m.dump("a", **new), hi, "raise"): hi *= 2; setup()
                    while lo < hi:
                        mid = (lo + hi) // 2; setup()
                        if interrupt(m, lambda: m.dump("a", **new), mid, "raise"): lo = mid + 1
                        else: hi = mid
                    total = lo                                  # first point that is not reached
                if at > total: break
                if not x.next(): continue
                x.desc("save %s at bytecode %d: %s" % ("interrupted" if how == "raise" else "killed", at, sh)); x.key((sh, how, at))
                setup()
                if how == "raise": hit = interrupt(m, lambda: m.dump("a", **new), at, "raise")
                else: child(lambda: interrupt(m, lambda: m.dump("a", **new), at, "exit")); hit = at < total
                verdict("interrupted at bytecode %d" % at, not hit)
        # every amount of output that fits before the device is full / the process is killed
        size = None
        for kill in (True, False):
            for n in range(0, 100000):
                if size is None:
                    setup(); a = snapshot(root); m.dump("a", **new); b = snapshot(root)
                    size = max([len(v) for f, v in b.items() if a.get(f) != v] + [0]) + 2
                if n > size: break
                if n > 200 and n < size - 200 and n % 97 and not T: continue
                if not x.next(): continue
                x.desc("save with room for %d bytes (%s): %s" % (n, "killed" if kill else "error", sh)); x.key((sh, kill, n))
                setup(); st = limited(lambda: m.dump("a", **new), n, kill)
                verdict("room for %d bytes" % n, os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0)
        # torn files after a finished save: every length
        for n in range(0, size + 1):
            if n > 200 and n < size - 200 and n % 97 and not T: continue
            if not x.next(): continue
            x.desc("written file cut to %d bytes: %s" % (n, sh)); x.key((sh, "cut", n))
            setup(); a = snapshot(root); m.dump("a", **new); b = snapshot(root)
            for f, v in b.items():
                if a.get(f) == v or n > len(v): continue
                with open(f, "wb") as h: h.write(v[:n])
                verdict("cut to %d bytes" % n, n == len(v))
                restore(root, b)
    # 4. leftovers of an interrupted save that are collected only after the next save
    global COLLECT
    for old in (None, R[0]):
        for new in (R[1], R[4]):
            for at in range(1, 3000):
                if not x.next(): continue
                x.desc("save a interrupted at bytecode %d, a saved again, leftovers collected" % at); x.key(("stale", repr(old), repr(new), at)); x.states(3, 3); x.trace()
                def go(early):
                    global COLLECT
                    wipe(root)
                    if old is not None: m.dump("a", **old)
                    COLLECT = early; hit = interrupt(m, lambda: m.dump("a", p=1, q=[2] * 50), at, "raise"); COLLECT = True
                    m.dump("a", **new); first = load(m, "a"); gc.collect()
                    return hit, first, load(m, "a")
                gc.disable()
                try:
                    hit, first, late = go(False); must(x, first, [new], "saved again")
                    if late[0] == "exc" or eq(late[1], dict(p=1, q=[2] * 50)):
                        _, f2, l2 = go(True); must(x, f2, [new], "leftovers collected before saving again"); must(x, l2, [new], "leftovers collected before saving again")
                        x.known("leftover-writer", "a load after the interrupted save's leftovers were collected gives %s" % short(late[1]))
                    else: must(x, late, [new], "leftovers collected")
                finally: gc.enable()
                if not hit: x.count("points_beyond_the_end")

if __name__ == "__main__":
    pyxp.main({"store": store})

"""C18 (call), C19 (vec): the Python module on enumerated inputs and histories."""
import array, collections, ctypes, decimal, fractions, gc, itertools, os, sys
import pyxp
import crossprob
V = crossprob.VectorDouble
NAN, INF = float("nan"), float("inf")

# ---- reference ---------------------------------------------------------------------------
_ref = None
def ref(b, B):
    global _ref
    if _ref is None:
        _ref = ctypes.CDLL(pyxp.arg).xp_ref; _ref.restype = ctypes.c_double
    A = lambda v: (ctypes.c_double * max(1, len(v)))(*v)
    return _ref(A(b), len(b), A(B), len(B))

ONE = {"ecdf1_new_b": True, "ecdf1_new_B": False, "ecdf1_mns2016_b": True, "ecdf1_mns2016_B": False}
def exact(fn, args):
    if fn == "ecdf2": return ref(args[0], args[1])
    return ref(args[0], []) if ONE[fn] else ref([], args[0])
def is_valid(v): return all(x == x and 0 <= x <= 1 for x in v) and all(x <= y for x, y in zip(v, v[1:]))
def finite(x): return isinstance(x, float) and x == x and abs(x) != INF

# ---- containers ---------------------------------------------------------------------------
class Seq:
    def __init__(self, d): self.d = list(d)
    def __len__(self): return len(self.d)
    def __getitem__(self, i): return self.d[i]
class AbcSeq(collections.abc.Sequence):
    def __init__(self, d): self.d = list(d)
    def __len__(self): return len(self.d)
    def __getitem__(self, i): return self.d[i]
class MyList(list): pass
class MyFloat(float): pass
class MyInt(int): pass
class Computed:
    """a sequence whose elements are created on access"""
    def __init__(self, d): self.d = list(d)
    def __len__(self): return len(self.d)
    def __getitem__(self, i):
        if i >= len(self.d): raise IndexError(i)
        return float(repr(self.d[i]))
class OwnList(list):
    """a list whose items are not those of the list it inherits from"""
    def __init__(self, d): super().__init__([0.0625] * (len(d) + 2)); self.d = list(d)
    def __len__(self): return len(self.d)
    def __getitem__(self, i): return self.d[i]
    def __iter__(self): return iter(self.d)
class OwnTuple(tuple):
    def __new__(cls, d): t = super().__new__(cls, [0.0625] * (len(d) + 2)); t.d = list(d); return t
    def __len__(self): return len(self.d)
    def __getitem__(self, i): return self.d[i]
    def __iter__(self): return iter(self.d)
class MyVector(V): pass
def spread(d, step):
    """every step-th item of a buffer"""
    a = array.array("d", [0.03125] * (max(1, len(d)) * abs(step)))
    m = memoryview(a)[::step]
    for i, q in enumerate(d): m[i] = q
    return m[:len(d)]
def single(d):
    """a buffer of single-precision numbers, if they can hold these values"""
    a = array.array("f", d)
    return a if all(p == q or p != p for p, q in zip(a, d)) else array.array("d", d)
def whole(d): return array.array("q", [int(q) for q in d]) if all(q == q and abs(q) < INF and q == int(q) for q in d) else array.array("d", d)
KINDS = {"list subclass with its own items": OwnList, "tuple subclass with its own items": OwnTuple, "VectorDouble subclass": MyVector, "strided memoryview": lambda d: spread(d, 2), "reversed memoryview": lambda d: spread(d, -1), "memoryview with gaps of 3, backwards": lambda d: spread(d, -3),
         "single-precision array": single, "integer array": whole, "ctypes array": lambda d: (ctypes.c_double * len(d))(*d), "ctypes float array": lambda d: (ctypes.c_float * len(d))(*d) if all(ctypes.c_float(q).value == q for q in d) else (ctypes.c_double * len(d))(*d), "list": list, "tuple": tuple, "VectorDouble": V, "user sequence": Seq, "abc.Sequence": AbcSeq, "list subclass": MyList, "deque": collections.deque,
         "array": lambda d: array.array("d", d), "UserList": collections.UserList, "computed": Computed, "memoryview": lambda d: memoryview(array.array("d", d))}
ELEMS = {"float": float, "int if integral": lambda x: int(x) if x == x and abs(x) < INF and x == int(x) else x, "float subclass": MyFloat, "bool if 0 or 1": lambda x: bool(x) if x in (0, 1) else x, "int subclass": lambda x: MyInt(x) if x in (0, 1) else x}
def content(o): return list(o) if not isinstance(o, (Seq, AbcSeq, Computed, OwnList, OwnTuple)) else list(o.d)

# ---- leaks ---------------------------------------------------------------------------------
class MI(ctypes.Structure): _fields_ = [(n, ctypes.c_size_t) for n in "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()]
_libc = ctypes.CDLL(None); _mi = _libc.mallinfo2; _mi.restype = MI
def heap():
    m = _mi(); return m.uordblks + m.hblkhd, sys.getallocatedblocks()
def leak(call):
    """bytes / Python blocks left behind per call, or None"""
    def rep(n):
        for _ in range(n):
            try: call()
            except Exception: pass
    rep(3); a = heap(); rep(8); b = heap()
    if b[0] - a[0] < 8 and b[1] - a[1] < 8: return None
    gc.collect(); rep(40); a = heap(); rep(200); gc.collect(); b = heap()
    if b[0] - a[0] < 200 * 8 and b[1] - a[1] < 200: return None
    rep(200); c = heap()
    if c[0] - b[0] < 200 * 8 and c[1] - b[1] < 200: return None
    return "%.1f bytes and %.1f Python objects are left behind by every such call" % ((c[0] - b[0]) / 200, (c[1] - b[1]) / 200)

def show(fn, args):
    def s(o):
        t = type(o).__name__
        try: c = content(o) if hasattr(o, "__len__") and not isinstance(o, (dict, str)) else o
        except Exception: c = "..."
        r = repr(c); return "%s(%s)" % (t, r if len(r) < 300 else r[:200] + "...")
    return "%s(%s)" % (fn, ", ".join(s(a) for a in args))

CANARY = ("ecdf2", ([0.1, 0.2], [0.6, 0.9], True))
_canary = None

def judge(x, fn, args, want, checkleak=True, checkargs=True, call=lambda f, *a: f(*a)):
    """want: float, 'runtime' (RuntimeError), 'error' (any exception), 'any' (no crash; a number must be finite)"""
    global _canary
    f = getattr(crossprob, fn)
    before = [content(a) if checkargs and hasattr(a, "__len__") and not isinstance(a, (str, bytes, dict)) else None for a in args]
    rc = [sys.getrefcount(a) for a in args]
    try: r, e = call(f, *args), None
    except Exception as ex: r, e = None, ex
    x.check()
    if isinstance(want, float):
        if e is not None: x.fail("raised %s: %s" % (type(e).__name__, str(e)[:200]))
        if not isinstance(r, float): x.fail("returned %r" % (r,))
        if not abs(r - want) <= 1e-11 * (30 + max(len(b) if b is not None else 0 for b in before + [None])): x.fail("returned %.17g, exact probability %.17g" % (r, want))
    elif want == "runtime":
        if e is None: x.fail("returned %r instead of raising RuntimeError" % (r,))
        if not isinstance(e, RuntimeError): x.fail("raised %s instead of RuntimeError" % type(e).__name__)
        if not str(e).strip(): x.fail("RuntimeError without a message")
    elif want == "error":
        if e is None: x.fail("returned %r instead of raising an exception" % (r,))
    e = None
    after = [content(a) if b is not None else None for a, b in zip(args, before)]
    if repr(after) != repr(before): x.fail("the arguments were changed to %s" % (after,))
    rc2 = [sys.getrefcount(a) for a in args]
    if checkargs and rc2 != rc: x.fail("reference counts of the arguments went from %s to %s" % (rc, rc2))
    if checkleak:
        l = leak(lambda: f(*args))
        if l: x.fail(l)
    c = crossprob.ecdf2(*CANARY[1])
    if _canary is None: _canary = c
    if abs(c - 0.64) > 1e-12 and abs(c - ref(*CANARY[1][:2])) > 1e-12: x.fail("a later call returns %r" % c)
    return r

def mono(n, g): return [list(t) for t in itertools.combinations_with_replacement(g, n)]

def call(x):
    thorough = pyxp.thorough
    G = [0.0, 0.15, 0.375, 0.75, 1.0]
    # 1. the exact probability, whatever the containers and element types
    for n in range(4 if not thorough else 5):
        for v in mono(n, G):
            for fn in ONE:
                for kn, K in KINDS.items():
                    for en, E in ELEMS.items():
                        if en != "float" and kn not in ("list", "tuple", "user sequence", "list subclass with its own items"): continue
                        if not x.next(): continue
                        a = K([E(q) for q in v])
                        x.desc("%s, %s of %s" % (show(fn, (a,)), kn, en)); x.key((fn, kn, en, tuple(v)))
                        judge(x, fn, (a,), exact(fn, (v,)))
    for n in range(4):
        g = G if n < 3 or thorough else [0.0, 0.3, 0.7, 1.0]
        for b in mono(n, g):
            for B in mono(n, g):
                for fft in (False, True):
                    kinds = [("list", "list"), ("tuple", "VectorDouble"), ("user sequence", "list"), ("VectorDouble", "user sequence"), ("computed", "deque")]
                    for k1, k2 in kinds if n < 3 else kinds[(len(b) + int(10 * sum(b) + 3 * sum(B))) % 5:][:1]:
                        if not x.next(): continue
                        a = (KINDS[k1](b), KINDS[k2](B), fft)
                        x.desc(show("ecdf2", a)); x.key(("ecdf2", k1, k2, tuple(b), tuple(B), fft))
                        judge(x, "ecdf2", a, exact("ecdf2", (b, B)))
    # all pairs of container types
    for b, B in (([0.0, 0.375], [0.75, 1.0]), ([0.375], [0.75]), ([0.0, 0.0, 0.25], [0.25, 1.0, 1.0])):
        for k1 in KINDS:
            for k2 in KINDS:
                for fft in (False, True):
                    if not x.next(): continue
                    a = (KINDS[k1](b), KINDS[k2](B), fft); x.desc("%s: %s and %s" % (show("ecdf2", a), k1, k2)); x.key(("pair", k1, k2, len(b), fft))
                    judge(x, "ecdf2", a, exact("ecdf2", (b, B)))
    # one object as both arguments
    for v in mono(2, G):
        for kn, K in KINDS.items():
            if not x.next(): continue
            a = K(v); x.desc("same object twice: " + show("ecdf2", (a, a, True))); x.key(("same", kn, tuple(v)))
            judge(x, "ecdf2", (a, a, True), exact("ecdf2", (v, v)))
    # 2. larger samples (block lengths, FFT)
    sizes = list(range(4, 70)) + [99, 100, 101, 127, 128, 129, 150, 200, 257, 300] + ([400, 513, 700] if thorough else [])
    for n in sizes:
        lo = [max(0.0, (i + 1) / n - 0.9 / n ** 0.5) for i in range(n)]; hi = [min(1.0, i / n + 0.8 / n ** 0.5) for i in range(n)]
        for kn in ("list", "VectorDouble", "user sequence"):
            for fn in list(ONE) + ["ecdf2"]:
                if n > 150 and fn == "ecdf2" and kn != "list": continue
                if not x.next(): continue
                K = KINDS[kn]
                a = (K(lo), K(hi), n > 60) if fn == "ecdf2" else (K(lo if ONE[fn] else hi),)
                x.desc("%s n=%d" % (fn, n)); x.key((fn, n, kn))
                judge(x, fn, a, exact(fn, a if fn != "ecdf2" else (lo, hi)), checkleak=n <= 70)
    # 3. invalid bounds raise RuntimeError, valid ones do not
    A = [0.0, 0.5, 1.0, -0.25, 1.5, NAN, INF, -INF, 0.25]
    for n in range(4 if not thorough else 5):
        for w in itertools.product(A, repeat=n):
            w = list(w)
            for fn in list(ONE):
                if n >= 3 and not thorough and fn in ("ecdf1_new_B", "ecdf1_mns2016_b"): continue
                for kn in ("list", "VectorDouble", "user sequence") if n < 3 else ("list",):
                    if not x.next(): continue
                    a = (KINDS[kn](w),); x.desc(show(fn, a)); x.key((fn, kn, repr(w)))
                    judge(x, fn, a, exact(fn, (w,)) if is_valid(w) else "runtime", checkleak=n < 3)
    A2 = [0.25, 0.75, -0.25, 1.5, NAN]
    for n in range(3):
        for m in range(3):
            for b in itertools.product(A2, repeat=n):
                for B in itertools.product(A2, repeat=m):
                    for fft in (False, True):
                        if not x.next(): continue
                        a = (list(b), tuple(B), fft); x.desc(show("ecdf2", a)); x.key(("ecdf2", repr(a)))
                        judge(x, "ecdf2", a, exact("ecdf2", (list(b), list(B))) if n == m and is_valid(b) and is_valid(B) else "runtime")
    # 4. wrong types
    class Boom(Exception): pass
    def raising(n, at, what="get", exc=Boom):
        class R:
            def __len__(s):
                if what == "len": raise exc("len")
                if what == "neglen": return -1
                if what == "strlen": return "2"
                if what == "hugelen": return 1 << 62
                return n
            def __getitem__(s, i):
                if what in ("get", "hugelen") and i == at: raise exc("get")
                if what == "none" and i == at: return None
                return 0.5
        return R()
    zoo = {"None": lambda: None, "int": lambda: 3, "float": lambda: 0.5, "dict": lambda: {0: 0.5}, "set": lambda: {0.5}, "generator": lambda: (q for q in [0.5]), "object": object, "function": lambda: judge, "class": lambda: list,
           "str": lambda: "ab", "complex": lambda: 1j, "iterator": lambda: iter([0.5]), "vector iterator": lambda: V([0.5]).iterator(), "nested list": lambda: [[0.5]], "list of None": lambda: [None], "list of str": lambda: ["0.5"],
           "list of complex": lambda: [0.5j], "list of objects": lambda: [object()], "huge int": lambda: [10 ** 400], "str at end": lambda: [0.1, 0.2, "0.3"], "None in the middle": lambda: [0.1, None, 0.3], "self-containing": lambda: (lambda l: l.append(l) or l)([]),
           "len raises": lambda: raising(2, 0, "len"), "len negative": lambda: raising(2, 0, "neglen"), "len is str": lambda: raising(2, 0, "strlen"), "huge len": lambda: raising(2, 3, "hugelen"), "element None": lambda: raising(3, 1, "none"),
           "len raises MemoryError": lambda: raising(2, 0, "len", MemoryError), "module": lambda: sys, "list of lists and numbers": lambda: [0.1, [0.2]], "no __len__": lambda: type("N", (), {"__getitem__": lambda s, i: 0.5})()}
    for n in (1, 2, 3):
        for at in range(n):
            for exc in (Boom, IndexError, KeyError, TypeError, ValueError, StopIteration, MemoryError, ZeroDivisionError):
                zoo["%s at element %d of %d" % (exc.__name__, at, n)] = lambda n=n, at=at, exc=exc: raising(n, at, "get", exc)
    for zn, Z in zoo.items():
        for fn in ONE:
            if not x.next(): continue
            x.desc("%s(%s)" % (fn, zn)); x.key((fn, zn))
            judge(x, fn, (Z(),), "error", checkargs=False, checkleak="huge" not in zn)
        for pos in range(3):
            for other in ([0.1], V([0.1]), Seq([0.1])):
                if not x.next(): continue
                a = [other, [0.5], True]; a[pos] = Z()
                x.desc("ecdf2 with argument %d: %s, other %s" % (pos + 1, zn, type(other).__name__)); x.key(("ecdf2", pos, zn, type(other).__name__))
                judge(x, "ecdf2", tuple(a), "any" if pos == 2 and zn in ("int", "float") else "error", checkargs=False, checkleak="huge" not in zn)
    for an, a in {"Fraction": [fractions.Fraction(1, 2)], "Decimal": [decimal.Decimal("0.5")], "empty str": "", "bytes": b"\0\1", "with __float__": [type("F", (), {"__float__": lambda s: 0.5})()]}.items():
        for fn in ONE:
            if not x.next(): continue
            x.desc("%s(%s)" % (fn, an)); x.key((fn, an)); judge(x, fn, (a,), "any", checkargs=False)
    # 5. number of arguments, keywords
    vals = [[0.1], [0.5], True, 3, None]
    for fn, need in list({f: 1 for f in ONE}.items()) + [("ecdf2", 3)]:
        for n in range(5):
            if n == need or not x.next(): continue
            a = tuple(vals[:n]); x.desc(show(fn, a)); x.key((fn, "args", n)); judge(x, fn, a, "error", checkargs=False)
        if x.next():
            x.desc(fn + " with unknown keyword"); x.key((fn, "kw"))
            try: getattr(crossprob, fn)(*vals[:need], nosuch=1); bad = True
            except TypeError: bad = False
            x.check()
            if bad: x.fail("unknown keyword accepted")
    # 5b. the arguments by the names of their parameters, in every order
    names = {"ecdf2": ("b", "B", "use_fft")}
    for fn in ONE: names[fn] = (fn[-1],)
    for fn, ns in names.items():
        for b, B in (([0.0, 0.375], [0.75, 1.0]), ([0.1] * 30, [0.9] * 30), ([0.4], [0.5]), ([0.3, 0.2], [0.6, 0.9]), ([0.1, NAN], [0.5, NAN])):
            for kn in ("list", "tuple", "VectorDouble", "user sequence"):
                for fft in (False, True) if fn == "ecdf2" else (None,):
                    for o in itertools.permutations(range(len(ns))):
                        for pos in range(len(ns)):
                            if o[:pos] != tuple(range(pos)) or not x.next(): continue
                            K = KINDS[kn]; a = (K(b), K(B), fft) if fn == "ecdf2" else (K(b if ONE[fn] else B),)
                            x.desc("%s, %s by name" % (show(fn, a), [ns[i] for i in o[pos:]])); x.key((fn, "names", repr(b), kn, fft, o, pos))
                            lists = (b, B) if fn == "ecdf2" else (b if ONE[fn] else B,)
                            want = exact(fn, lists) if all(is_valid(q) for q in lists) else "runtime"
                            judge(x, fn, a, want, checkleak=False, call=lambda f, *a: f(*a[:pos], **{ns[i]: a[i] for i in o[pos:]}))
    # 5c. long sequences: every kind of container, and a bad item at a position
    for n in (10, 64, 65, 129, 257, 1025) if not thorough else (10, 16, 17, 32, 33, 50, 63, 64, 65, 100, 101, 127, 128, 129, 255, 256, 257, 513, 1000, 1001, 1024, 1025, 2049):
        lo = [0.0] * (n // 2) + [0.0625] * (n - n // 2 - 1) + [0.5]; hi = [0.75] * (n // 2) + [1.0] * (n - n // 2)
        for fn in list(ONE) + ["ecdf2"]:
            if n > 600 and fn.startswith("ecdf1_mns"): continue
            for kn, K in KINDS.items():
                for en, E in ELEMS.items():
                    if en != "float" and kn not in ("list", "tuple", "user sequence"): continue
                    if not x.next(): continue
                    le, he = [E(q) for q in lo], [E(q) for q in hi]
                    a = (K(le), K(he), True) if fn == "ecdf2" else (K(le if ONE[fn] else he),)
                    x.desc("%s, %d items, %s of %s" % (fn, n, kn, en)); x.key((fn, n, kn, en, "long"))
                    judge(x, fn, a, exact(fn, (lo, hi) if fn == "ecdf2" else (lo if ONE[fn] else hi,)), checkleak=n <= 129)
            for at in sorted({0, 1, 7, 15, 16, 31, 32, 63, 64, 99, 100, 127, 128, 255, 256, 999, 1000, n // 2, n - 2, n - 1}):
                if at >= n: continue
                for bad in (None, "0.5", [0.5], 1j, NAN, INF, -INF, -0.5, 1.5, 1 << 2000):
                    for kn in ("list", "tuple", "user sequence"):
                        if not x.next(): continue
                        l = list(lo); l[at] = bad; K = KINDS[kn]
                        a = (list(lo), K(l), False) if fn == "ecdf2" else (K(l),)
                        x.desc("%s, %d items, item %d is %r (%s)" % (fn, n, at, bad if not isinstance(bad, int) else "2**2000", kn)); x.key((fn, n, kn, at, str(type(bad)), repr(bad)[:20]))
                        judge(x, fn, a, "runtime" if isinstance(bad, float) else "error", checkleak=False)
    # 5d. sequences longer than 15 and 16 bits can count; only the last (first) bounds matter, so that the probability has a closed form
    def closed(n, lo, hi):    # Pr[max >= lo, min <= hi]
        return 1 - lo ** n - (1 - hi) ** n + (lo - hi) ** n
    for n in (5000, 32767, 32768, 33000, 65535, 65536, 65537, 70000) + ((100003, 131073) if thorough else ()):
        for lo, hi in ((1 - 0.7 / n, 1.0), (0.0, 1.2 / n), (1 - 1.3 / n, 0.9 / n)):
            for kn in ("list", "tuple", "VectorDouble", "user sequence", "array", "memoryview", "deque", "abc.Sequence"):
                if not x.next(): continue
                K = KINDS[kn]; b = [0.0] * n; B = [1.0] * n; b[-1] = lo; B[0] = hi
                a = (K(b), K(B), True); x.desc("ecdf2 on two sequences of %d numbers (%s), the last lower bound is %.17g and the first upper bound %.17g" % (n, kn, lo, hi)); x.key(("many", n, lo, hi, kn))
                judge(x, "ecdf2", a, closed(n, lo, hi), checkleak=False)
        for at in (0, 1, n // 2, 32767, 32768, 65535, 65536, n - 2, n - 1):
            if at >= n: continue
            for bad in (None, "0.5", NAN, -0.5, 1.5):
                for kn in ("list", "tuple", "user sequence"):
                    for fn in ("ecdf1_new_b", "ecdf2"):
                        if not x.next(): continue
                        b = [0.5] * n; b[at] = bad; K = KINDS[kn]; a = (K(b),) if fn == "ecdf1_new_b" else ([0.0] * n, K(b), True)
                        x.desc("%s on %d numbers, item %d is %r (%s)" % (fn, n, at, bad, kn)); x.key((fn, "many", n, kn, at, repr(bad)))
                        judge(x, fn, a, "runtime" if isinstance(bad, float) else "error", checkleak=False)
    # 6. histories of calls: results do not depend on earlier calls
    al = [("ecdf2", ([0.1, 0.2], [0.6, 0.9], True)), ("ecdf2", ([0.1, 0.2], [0.6, 0.9], False)), ("ecdf1_new_b", ([0.1, 0.3, 0.3],)), ("ecdf1_mns2016_B", (tuple([0.05 * i + 0.2 for i in range(17)]),)), ("ecdf1_new_B", (V([0.4, 0.8]),)),
          ("ecdf1_mns2016_b", ([1.0],)), ("ecdf2", ([], [], True)), ("ecdf1_new_b", ([0.5, 0.4],)), ("ecdf2", ([0.5], [0.4, 0.6], True)), ("ecdf1_new_B", (None,)), ("ecdf2", ([0.5], ["x"], True)), ("ecdf1_mns2016_b", (Seq([0.1, NAN]),)), ("ecdf1_new_b", (raising(2, 1),)),
          ("ecdf2", ([0.004 * i for i in range(150)], [min(1.0, 0.2 + 0.006 * i) for i in range(150)], True))]
    def want(fn, a):
        try: b = [list(q) for q in a if not isinstance(q, bool)]
        except Exception: return "error"
        try:
            if not all(is_valid(q) for q in b) or (fn == "ecdf2" and len(b[0]) != len(b[1])): return "error"
        except TypeError: return "error"
        return exact(fn, b)
    wants = None
    for d in range(1, 4 if not thorough else 5):
        for h in itertools.product(range(len(al)), repeat=d):
            if not x.next(): continue
            if wants is None: wants = [want(*c) for c in al]
            x.desc("history " + "; ".join(show(*al[i]) for i in h)); x.key(h)
            for i in h: judge(x, al[i][0], al[i][1], wants[i], checkleak=False, checkargs=False)

# ---- C19 ------------------------------------------------------------------------------------
def run(f, o):
    try: return ("ok", f(o))
    except Exception as e: return ("exc", type(e).__name__)
def same(a, b): return len(a) == len(b) and all(type(q) is float and str(float(p)) == str(q) for p, q in zip(a, b))   # distinguishes 0.0 from -0.0, not NaN payloads
def delete(o, i): del o[i]
def put(o, i, q): o[i] = q

def observe(x, l, v):
    """everything that can be read off the vector must agree with the list"""
    c = list(v)
    if not same(l, c): x.fail("contents %r, a list holds %r" % (c, l))
    if len(v) != len(l) or v.size() != len(l) or bool(v) != bool(l) or v.empty() != (not l): x.fail("length, size or truth value wrong for %r" % l)
    if v.capacity() < len(l): x.fail("capacity below size")
    if [v[i] for i in range(len(l))] != l and not any(q != q for q in l): x.fail("indexing gives %r" % [v[i] for i in range(len(l))])
    if l and not any(q != q for q in l):
        if [v[i - len(l)] for i in range(len(l))] != l: x.fail("negative indexing differs from the list")
        if v.front() != l[0] or v.back() != l[-1]: x.fail("front or back differs from the list")
        if list(reversed(v)) != l[::-1]: x.fail("reversed() differs from the list")
        if v.begin().value() != l[0] or v.rbegin().value() != l[-1]: x.fail("begin or rbegin differs from the list")

def step(x, name, lo, vo, l, v):
    """applies one operation to both; returns False if it raised"""
    r, q = run(lo, l), run(vo, v)
    x.check(); x.states(1, 1)
    if r[0] != q[0]: x.fail("%s: list %s, vector %s" % (name, r if r[0] == "exc" else "succeeds", q if q[0] == "exc" else "succeeds with %r" % (list(q[1]) if isinstance(q[1], V) else q[1],)))
    if r[0] == "ok":
        a, b = r[1], q[1]
        if isinstance(a, list):
            if not isinstance(b, (V, tuple, list)) or not same(a, list(b)): x.fail("%s gives %r, list gives %r" % (name, list(b) if b is not None else b, a))
            if isinstance(b, V): observe(x, a, b)
        elif a is not None and not (a == b or (a != a and b != b)): x.fail("%s gives %r, list gives %r" % (name, b, a))
    observe(x, l, v)
    return r[0] == "ok"

def l_resize(l, n, q=0.0): l[n:] = [q] * (n - len(l))
def l_assign(l, n, q): l[:] = [q] * n
def at(v, i): return v.begin() + i if False else advance(v.begin(), i)
def advance(it, n):
    for _ in range(n): it.incr()
    return it
def l_insert(l, i, *q):
    if len(q) == 1: l.insert(i, q[0])
    else: l[i:i] = [q[1]] * q[0]
def l_erase(l, i, j=None): del l[i:(i + 1 if j is None else j)]

HUGE = 1 << 62
def l_huge(l): raise MemoryError()

def ops(size):
    """(name, on list, on vector) for operations usable in histories"""
    R = []
    A = lambda n, f, g=None: R.append((n, f, g or f))
    A("append(7)", lambda l: l.append(7.0), lambda v: v.append(7.0))
    A("push_back(8)", lambda l: l.append(8.0), lambda v: v.push_back(8))
    A("append(nan)", lambda l: l.append(NAN))
    A("append(None)", lambda l: [][0], lambda v: v.append(None))
    A("append('x')", lambda l: [][0], lambda v: v.append("x"))
    A("pop()", lambda l: l.pop())
    A("pop_back()", lambda l: (l.pop(), None)[1], lambda v: v.pop_back())
    A("clear()", lambda l: l.clear())
    for i in (0, 1, -1, 2, -3): A("v[%d]" % i, lambda l, i=i: l[i])
    for i in (0, 1, -1, 2, -3): A("v[%d]=9" % i, lambda l, i=i: put(l, i, 9.0))
    A("v[0]=None", lambda l: [][0], lambda v: put(v, 0, None))
    for i in (0, -1, 1): A("del v[%d]" % i, lambda l, i=i: delete(l, i))
    for s in (slice(1, None), slice(None, None, -1), slice(0, 2), slice(None, None, 2), slice(-1, None), slice(5, 9)): A("v[%s:%s:%s]" % (s.start, s.stop, s.step), lambda l, s=s: l[s])
    for s in (slice(0, 1), slice(1, None), slice(None, None, 2), slice(None, None, -1), slice(2, 1)): A("del v[%s:%s:%s]" % (s.start, s.stop, s.step), lambda l, s=s: delete(l, s))
    for s, q in ((slice(0, 1), [3.0, 4.0]), (slice(1, 1), [5.0]), (slice(None, None, 2), [6.0]), (slice(0, 2), []), (slice(9, 9), [2.0]), (slice(None, None, -1), [1.0, 2.0])):
        A("v[%s:%s:%s]=%r" % (s.start, s.stop, s.step, q), lambda l, s=s, q=q: put(l, s, q), lambda v, s=s, q=q: put(v, s, V(q)))
    A("v[0:1]=[None]", lambda l: [][0], lambda v: put(v, slice(0, 1), [None]))
    A("v[:]=v", lambda l: put(l, slice(None), l)); A("v[1:1]=v", lambda l: put(l, slice(1, 1), l)); A("v[1:2]=v", lambda l: put(l, slice(1, 2), l) if len(l) < 200 else None, lambda v: put(v, slice(1, 2), v) if len(v) < 200 else None)
    for n in (0, 1, 3): A("resize(%d)" % n, lambda l, n=n: l_resize(l, n), lambda v, n=n: v.resize(n))
    A("resize(2, 4)", lambda l: l_resize(l, 2, 4.0), lambda v: v.resize(2, 4.0)); A("resize(5, .5)", lambda l: l_resize(l, 5, 0.5), lambda v: v.resize(5, 0.5))
    for n in (0, 2): A("assign(%d, 6)" % n, lambda l, n=n: l_assign(l, n, 6.0), lambda v, n=n: v.assign(n, 6.0))
    A("assign(-1, 6)", lambda l: [][0], lambda v: v.assign(-1, 6.0))
    A("reserve(50)", lambda l: None, lambda v: v.reserve(50)); A("reserve(0)", lambda l: None, lambda v: v.reserve(0))
    A("resize(2**62)", l_huge, lambda v: v.resize(HUGE)); A("assign(2**62)", l_huge, lambda v: v.assign(HUGE, 1.0)); A("reserve(2**62)", l_huge, lambda v: v.reserve(HUGE))
    A("insert(begin, 2**62, 1)", l_huge, lambda v: v.insert(v.begin(), HUGE, 1.0))
    A("insert(begin, 1.5)", lambda l: (l_insert(l, 0, 1.5), None)[1], lambda v: (v.insert(v.begin(), 1.5), None)[1])
    A("insert(end, 2.5)", lambda l: (l.append(2.5), None)[1], lambda v: (v.insert(v.end(), 2.5), None)[1])
    A("insert(end, 2, 3.5)", lambda l: l_insert(l, len(l), 2, 3.5), lambda v: v.insert(v.end(), 2, 3.5))
    A("erase(begin, end)", lambda l: (l.clear(), None)[1], lambda v: (v.erase(v.begin(), v.end()), None)[1])
    A("erase(begin)", lambda l: l_erase(l, 0) if l else None, lambda v: (v.erase(v.begin()), None)[1] if v.size() else None)
    A("swap([10, 11])", lambda l: put(l, slice(None), [10.0, 11.0]), lambda v: v.swap(V([10.0, 11.0])))
    A("swap(v)", lambda l: None, lambda v: v.swap(v)); A("swap(None)", lambda l: [][0], lambda v: v.swap(None))
    return R

def vec(x):
    thorough = pyxp.thorough
    conts = [[], [1.0], [1.0, 2.0], [1.0, 2.0, 3.0], [1.0, 2.0, 3.0, 4.0], [0.5, 0.5, -0.0, NAN, INF], [float(i) for i in range(9)]]
    # 1. every index / slice from every contents
    I = [-99, -10, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 9, 10, 99, 1 << 31, (1 << 32) + 1, 1 - (1 << 32), None, sys.maxsize, -sys.maxsize - 1]
    S = [None, -99, -3, -2, -1, 0, 1, 2, 3, 99, 1 << 32, (1 << 32) + 1]
    for c in conts:
        for i in I:
            for j in I:
                if not x.next(): continue
                x.desc("vector %r, slices [%s:%s:*]" % (c, i, j)); x.key((repr(c), i, j))
                for s in S:
                    sl = slice(i, j, s)
                    l, v = list(c), V(c); step(x, "v[%s:%s:%s]" % (i, j, s), lambda o: o[sl], lambda o: o[sl], l, v)
                    l, v = list(c), V(c); step(x, "del v[%s:%s:%s]" % (i, j, s), lambda o: delete(o, sl), lambda o: delete(o, sl), l, v)
                    l, v = list(c), V(c); step(x, "v[%s:%s:%s]=v" % (i, j, s), lambda o: put(o, sl, o), lambda o: put(o, sl, o), l, v)
                    for m in range(5):
                        q = [20.0 + k for k in range(m)]
                        for K in (V, list, tuple) if s in (None, 2, -1) else (V,):
                            l, v = list(c), V(c); step(x, "v[%s:%s:%s]=%r" % (i, j, s, q), lambda o: put(o, sl, q), lambda o: put(o, sl, K(q)), l, v)
        for i in I[:-3] + [q * (1 << e) + d for e in (8, 16, 31, 32, 33, 62) for q in (1, -1) for d in (-2, -1, 0, 1, 2)] + [(1 << 63) + d for d in (-1, 0, 1, 2)] + [-(1 << 63) + d for d in (-1, 0, 1)] + [(1 << 64) + d for d in (-1, 0, 1)] + [sys.maxsize, -sys.maxsize - 1, True, False, 1.5, "a", None, 10 ** 30]:
            if not x.next(): continue
            x.desc("vector %r, index %r" % (c, i)); x.key((repr(c), repr(i), "ix"))
            for nm, f in (("v[i]", lambda o: o[i]), ("v[i]=4.5", lambda o: put(o, i, 4.5)), ("v[i]=3", lambda o: put(o, i, 3.0 if isinstance(o, list) else 3)), ("del v[i]", lambda o: delete(o, i))):
                l, v = list(c), V(c); step(x, nm + " with i=%r" % (i,), f, f, l, v)
            for bad in (None, "x", [1.0], 1j):
                l, v = list(c), V(c); step(x, "v[%r]=%r" % (i, bad), lambda o: [][0], lambda o: put(o, i, bad), l, v)
    # 2. construction
    srcs = [(c, K) for c in conts for K in (list, tuple, V, Seq, AbcSeq, collections.deque, lambda d: array.array("d", d), Computed)]
    for c, K in srcs:
        if not x.next(): continue
        x.desc("construct from %r" % c); x.key((repr(c), getattr(K, "__name__", "f")))
        src = K(c); v = V(src); observe(x, list(c), v); x.check()
        v.append(1.0)
        if content(src) != list(c) and not any(q != q for q in c): x.fail("changing a copy changes its source")
        w = V(v); v.clear(); observe(x, list(c) + [1.0], w)
        it = iter(V(c)); gc.collect(); junk = [V(c) for _ in range(50)]
        if not same(list(c), list(it)): x.fail("iterating over a temporary vector gives other elements")
    for n in range(0, 40):
        if not x.next(): continue
        x.desc("construct %d elements" % n); x.key(("n", n))
        observe(x, [0.0] * n, V(n)); observe(x, [2.5] * n, V(n, 2.5)); x.check(2)
    for bad in (-1, None, "ab", 1.5, [None], ["x"], {}, object(), HUGE, (HUGE, 1.0), (1, 2, 3), (-1, 1.0), (2, None), ([1.0], 2.0), (q for q in [1.0])):
        if not x.next(): continue
        a = bad if isinstance(bad, tuple) else (bad,); x.desc("VectorDouble%r" % (a,)); x.key(repr(a))
        try: V(*a); ok = True
        except Exception: ok = False
        x.check()
        if ok: x.fail("accepted")
    # 3. all operation histories up to a depth
    O = ops(0)
    starts = [[], [1.0, 2.0]] if not thorough else [[], [1.0], [1.0, 2.0], [1.0, 2.0, 3.0]]
    depth = 3 if not thorough else 4
    for st in starts:
        for a in range(len(O)):
            for b in range(len(O)):
                if not x.next(): continue
                x.desc("vector %r: %s; %s; then every operation" % (st, O[a][0], O[b][0])); x.key((repr(st), a, b))
                for rest in itertools.product(range(len(O)), repeat=depth - 2):
                    l, v = list(st), V(st)
                    for k in (a, b) + rest:
                        x.text = "vector %r: %s" % (st, "; ".join(O[i][0] for i in (a, b) + rest))
                        step(x, O[k][0], O[k][1], O[k][2], l, v)
                    x.trace()
    # 4. insert / erase at every position, swap, two vectors
    for c in conts:
        for i in range(len(c) + 1):
            if not x.next(): continue
            x.desc("vector %r, position %d" % (c, i)); x.key((repr(c), i, "pos"))
            l, v = list(c), V(c); step(x, "insert(begin+%d, 7)" % i, lambda o: l_insert(o, i, 7.0), lambda o: (o.insert(advance(o.begin(), i), 7.0), None)[1], l, v)
            for n in range(4):
                l, v = list(c), V(c); step(x, "insert(begin+%d, %d, 7)" % (i, n), lambda o: l_insert(o, i, n, 7.0), lambda o: (o.insert(advance(o.begin(), i), n, 7.0), None)[1], l, v)
            if i < len(c): l, v = list(c), V(c); step(x, "erase(begin+%d)" % i, lambda o: l_erase(o, i), lambda o: (o.erase(advance(o.begin(), i)), None)[1], l, v)
            for j in range(i, len(c) + 1):
                l, v = list(c), V(c); step(x, "erase(begin+%d, begin+%d)" % (i, j), lambda o: l_erase(o, i, j), lambda o: (o.erase(advance(o.begin(), i), advance(o.begin(), j)), None)[1], l, v)
        for d in conts:
            if not x.next(): continue
            x.desc("swap %r with %r" % (c, d)); x.key((repr(c), repr(d), "swap"))
            v, w = V(c), V(d); v.swap(w); observe(x, list(d), v); observe(x, list(c), w); x.check(2)
            v.append(5.0); observe(x, list(c), w); observe(x, list(d) + [5.0], v)
    # 4b. resize and assign from every size to every size, fresh and with room left by an earlier, larger content
    for n in list(range(12)) + [31, 32, 33, 127, 128, 129]:
        for m in list(range(12)) + [31, 32, 33, 127, 128, 129]:
            if not x.next(): continue
            x.desc("resize and assign from %d to %d elements" % (n, m)); x.key((n, m, "resize"))
            for mk in (lambda q: V(q), lambda q: (lambda v: (v.resize(200, 3.25), v.resize(len(q)), put(v, slice(None), V(q)), v)[-1])(V(q)), lambda q: (lambda v: (v.reserve(300), v)[-1])(V(q))):
                c = [1.0 + k for k in range(n)]
                l, v = list(c), mk(c); step(x, "resize(%d)" % m, lambda o: l_resize(o, m), lambda o: o.resize(m), l, v)
                l, v = list(c), mk(c); step(x, "resize(%d, 7.5)" % m, lambda o: l_resize(o, m, 7.5), lambda o: o.resize(m, 7.5), l, v)
                l, v = list(c), mk(c); step(x, "assign(%d, 7.5)" % m, lambda o: l_assign(o, m, 7.5), lambda o: o.assign(m, 7.5), l, v)
                l, v = list(c), mk(c); step(x, "v[:]=%d elements" % m, lambda o: put(o, slice(None), [0.25] * m), lambda o: put(o, slice(None), [0.25] * m), l, v)
                if n: l, v = list(c), mk(c); step(x, "v[n//2:]=%d elements" % m, lambda o: put(o, slice(n // 2, None), [0.25 + k for k in range(m)]), lambda o: put(o, slice(n // 2, None), V([0.25 + k for k in range(m)])), l, v)
    # 4c. long vectors: grown and shrunk one step at a time, all slices around the boundaries
    def same_long(l, v): return len(v) == len(l) and v.size() == len(l) and list(v) == l
    GROW = {"append": (lambda l, q: l.append(q), lambda v, q: v.append(q)), "push_back": (lambda l, q: l.append(q), lambda v, q: v.push_back(q)), "insert(begin)": (lambda l, q: l.insert(0, q), lambda v, q: v.insert(v.begin(), q)),
            "insert(end, 2)": (lambda l, q: l.extend([q, q]), lambda v, q: v.insert(v.end(), 2, q)), "v[len:]=": (lambda l, q: l.append(q), lambda v, q: put(v, slice(len(v), None), [q])), "v[1:1]=": (lambda l, q: put(l, slice(1, 1), [q]), lambda v, q: put(v, slice(1, 1), V([q]))),
            "resize": (lambda l, q: l.append(q), lambda v, q: v.resize(len(v) + 1, q)), "reserve, append": (lambda l, q: l.append(q), lambda v, q: (v.reserve(2 * len(v)), v.append(q))), "copy, append": (lambda l, q: l.append(q), lambda v, q: (v.swap(V(v)), v.append(q)))}
    SHRINK = {"pop": (lambda l: l.pop(), lambda v: v.pop()), "pop_back": (lambda l: (l.pop(), None)[1], lambda v: v.pop_back()), "del v[-1]": (lambda l: delete(l, -1), lambda v: delete(v, -1)), "del v[0]": (lambda l: delete(l, 0), lambda v: delete(v, 0)), "del v[-1:]": (lambda l: delete(l, slice(-1, None)), lambda v: delete(v, slice(-1, None))),
              "erase(begin)": (lambda l: delete(l, 0), lambda v: (v.erase(v.begin()), None)[1]), "v[1:2]=[]": (lambda l: put(l, slice(1, 2) if len(l) > 1 else slice(0, 1), []), lambda v: put(v, slice(1, 2) if len(v) > 1 else slice(0, 1), [])), "resize": (lambda l: delete(l, -1), lambda v: v.resize(len(v) - 1)), "del v[::2]": (lambda l: delete(l, slice(None, None, 2)), lambda v: delete(v, slice(None, None, 2))),
              "erase(begin, begin+3)": (lambda l: delete(l, slice(0, 3)), lambda v: (v.erase(v.begin(), v.begin() + min(3, len(v))), None)[1])}
    for top in (40, 300) if not thorough else (40, 300, 1100):
        for gn, (gl, gv) in GROW.items():
            for sn, (sl, sv) in SHRINK.items():
                for back in (0, top // 2):
                    if not x.next(): continue
                    x.desc("%s to %d elements, %s down to %d, and the same again" % (gn, top, sn, back)); x.key((gn, sn, top, back))
                    l, v = [], V(); q = 0.0
                    for again in range(2):
                        while len(l) < top:
                            q += 0.5; gl(l, q); gv(v, q); x.states(1, 1)
                            if not same_long(l, v): x.fail("after %s to %d elements the vector holds %d: %s" % (gn, len(l), len(v), [i for i, (c, d) in enumerate(zip(l, list(v))) if c != d][:5]))
                        while len(l) > back:
                            r, t = sl(l), sv(v); x.states(1, 1)
                            if r != t: x.fail("%s returns %r, a list %r" % (sn, t, r))
                            if not same_long(l, v): x.fail("after %s to %d elements the vector holds %d: %s" % (sn, len(l), len(v), [i for i, (c, d) in enumerate(zip(l, list(v))) if c != d][:5]))
                        x.check()
                    observe(x, l, v)
    for n in (15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1024, 4097, 65537):
        P = sorted({0, 1, 2, 8, 16, 17, 63, 64, 65, n // 2, n - 2, n - 1, n, n + 1, -1, -2, -n // 2, -n, -n - 1}) if n < 5000 else [0, 1, n // 2, n - 1, n, -1, -n]
        c = [0.25 * k for k in range(n)]
        for i in P + [None]:
            if not x.next(): continue
            x.desc("%d elements, slices from %s" % (n, i)); x.key((n, i, "long slices"))
            for j in P + [None]:
                for st in (None, 2, 3, 7, 64, n // 2, n - 1, n, -1, -2, -7, -(n - 1), -n):
                    if n > 300 and st not in (None, 2, -1, n - 1, -7): continue
                    sl = slice(i, j, st); want = c[sl]
                    v = V(c); x.check(); r = v[sl]
                    if list(r) != want or not same_long(c, v): x.fail("v[%s:%s:%s] of %d elements is wrong" % (i, j, st, n))
                    l = list(c); del l[sl]; delete(v, sl)
                    if not same_long(l, v): x.fail("del v[%s:%s:%s] of %d elements is wrong" % (i, j, st, n))
                    for m in {len(want), 0, 1, n + 3}:
                        if n > 300 and m != len(want): continue
                        new = [-1.0 - k for k in range(m)]
                        l, v = list(c), V(c)
                        a, b = run(lambda o: put(o, sl, new), l), run(lambda o: put(o, sl, V(new)), v)
                        if a[0] != b[0] or not same_long(l, v): x.fail("v[%s:%s:%s]=%d elements (of %d) is wrong" % (i, j, st, m, n))
        if not x.next(): continue
        x.desc("%d elements, the rest" % n); x.key((n, "long rest")); x.check()
        for K in (list, tuple, V, Seq, AbcSeq, collections.deque, lambda d: array.array("d", d), Computed):
            if not same_long(c, V(K(c))): x.fail("constructed from %d elements it differs" % n)
        v = V(c)
        if n < 5000: observe(x, c, v)
        w = V([1.0]); w.swap(v)
        if not same_long(c, w) or not same_long([1.0], v): x.fail("swap of %d elements with one" % n)
        it = w.begin() + (n - 1)
        if it.value() != c[-1] or it.distance(w.end()) != 1 or w.begin().distance(it) != n - 1: x.fail("an iterator moved by %d is wrong" % (n - 1))
        w.clear()
        if not same_long([], w): x.fail("clear of %d elements" % n)
    # 5. no operation leaks
    for nm, _, f in O:
        for st in starts:
            if "2**62" in nm: continue
            if not x.next(): continue
            x.desc("%s on %r, repeated" % (nm, st)); x.key((nm, repr(st), "leak")); x.check()
            l = leak(lambda: f(V(st)))
            if l: x.fail(l)
    # 5b. iterators over an unchanged vector: every short history of moves that a position in the list can make
    MV = [("+", d) for d in (0, 1, 2, 3)] + [("-", d) for d in (0, 1, 2)] + [("+=", 1), ("-=", 1), ("+=", 2), ("incr", 1), ("incr", 2), ("decr", 1), ("decr", 2), ("advance", 2), ("advance", -1), ("advance", 0), ("next", 0), ("previous", 0), ("copy", 0)]
    def move(x, it, p, l, op, d, closed):
        """returns the iterator and the position after one move, or None when the move must be refused"""
        n = len(l)
        to = p + {"+": d, "-": -d, "+=": d, "-=": -d, "incr": d, "decr": -d, "advance": d, "next": 1, "previous": -1, "copy": 0}[op]
        inside = 0 <= to <= n
        if not inside and not closed: return None
        try:
            if op == "+": r = it + d
            elif op == "-": r = it - d
            elif op == "+=": r = it; r += d
            elif op == "-=": r = it; r -= d
            elif op == "next":
                q = it.next(); r = it
                if inside and not same([l[p]], [q]): x.fail("next() gives %r at position %d of %r" % (q, p, l))
            elif op == "previous":
                q = it.previous(); r = it
                if inside and not same([l[p - 1]], [q]): x.fail("previous() gives %r at position %d of %r" % (q, p, l))
            elif op == "copy": r = it.copy()
            else: getattr(it, op)(d); r = it
        except (StopIteration, TypeError) as e:
            if inside: x.fail("%s %d from position %d of %r raises %s" % (op, d, p, l, type(e).__name__))
            return None
        if not inside: x.fail("%s %d from position %d of %r does not raise" % (op, d, p, l)); return None
        return r, to
    kinds = [("begin", lambda v: v.begin(), 0, 1, False), ("end", lambda v: v.end(), None, 1, False), ("rbegin", lambda v: v.rbegin(), 0, -1, False), ("rend", lambda v: v.rend(), None, -1, False), ("iterator", lambda v: v.iterator(), 0, 1, True), ("iter", lambda v: iter(v), 0, 1, True)]
    for n in range(0, 6):
        for kn, mk, start, way, closed in kinds:
            for h in itertools.product(range(len(MV)), repeat=2 if not thorough else 3):
                if not x.next(): continue
                x.desc("%d elements, %s(), moves %s" % (n, kn, "; ".join("%s %d" % MV[i] for i in h))); x.key((n, kn, h))
                l = [1.5 + k for k in range(n)]; v = V(l); l = l[::way]
                it = mk(v); p = n if start is None else start; ref = [v.begin() + k for k in range(n + 1)] if way == 1 else [v.rbegin() + k for k in range(n + 1)]; ok = True
                for last in range(len(MV)):
                    it2, p2 = mk(v), p
                    for m in h + (last,):
                        r = move(x, it2, p2, l, MV[m][0], MV[m][1], closed)
                        x.states(1, 1)
                        if r is None: break
                        if MV[m][0] in "+-" or MV[m][0] == "copy":
                            # the original has not moved
                            if it2.distance(r[0]) != r[1] - p2: x.fail("distance %d after %s %d" % (it2.distance(r[0]), MV[m][0], MV[m][1]))
                        it2, p2 = r
                        if p2 < n:
                            if not same([l[p2]], [it2.value()]): x.fail("value() gives %r at position %d of %r" % (it2.value(), p2, l))
                        elif closed:
                            try: it2.value(); x.fail("value() at the end does not raise")
                            except StopIteration: pass
                        for q in range(n + 1):
                            if (it2 == ref[q]) != (p2 == q) or (it2 != ref[q]) != (p2 != q) or it2.equal(ref[q]) != (p2 == q): x.fail("position %d compares wrongly with position %d" % (p2, q))
                            if ref[q] - it2 != q - p2 or it2 - ref[q] != p2 - q or it2.distance(ref[q]) != q - p2: x.fail("distance from position %d to %d is %d" % (p2, q, ref[q] - it2))
                    x.check()
        for ka, ma, *_ in kinds:
            for kb, mb, *_ in kinds:
                if not x.next(): continue
                x.desc("%d elements, %s() with %s()" % (n, ka, kb)); x.key((n, ka, kb)); x.check()
                v = V([1.0] * n); a, b = ma(v), mb(v)
                other = ("r" == ka[0]) != ("r" == kb[0])
                if other and (a == b or not (a != b)): x.fail("iterators of different kinds compare equal")
                if other:
                    for f in (lambda: a - b, lambda: a.distance(b), lambda: a.equal(b)):
                        try: f(); x.fail("iterators of different kinds have a distance")
                        except Exception: pass
                for bad in (None, "x", 1.5, [1.0]):
                    if a == bad or not (a != bad): x.fail("iterator equals %r" % (bad,))
                    try: a + bad; x.fail("iterator + %r accepted" % (bad,))
                    except Exception: pass
        if x.next():
            x.desc("%d elements, refused moves leak nothing" % n); x.key((n, "refused")); x.check()
            v = V([1.0] * n)
            def refused():
                it = v.iterator()
                for f in (lambda: it + 99, lambda: it - 99, lambda: it - None):
                    try: f()
                    except TypeError: pass
            q = leak(refused)
            if q: x.fail(q)
    # 6. long vectors
    for n in (100, 1000, 4097):
        for k in range(6):
            if not x.next(): continue
            x.desc("long vector %d/%d" % (n, k)); x.key((n, k))
            l = [float(i % 97) for i in range(n)]; v = V(l)
            for s in (slice(k, n - k, k + 1), slice(None, None, -k - 1), slice(n // 2, None), slice(-k - 1, None)):
                step(x, "long slice", lambda o: o[s], lambda o: o[s], l, v)
            for s in (slice(k, n - k, k + 2), slice(n // 2, n // 2 + k)): step(x, "long delete", lambda o: delete(o, s), lambda o: delete(o, s), l, v)
            step(x, "long insert", lambda o: put(o, slice(5, 5 + k), l[:50]), lambda o: put(o, slice(5, 5 + k), V(l[:50])), l, v) if False else None
            for i in range(200): l.append(float(i)); v.append(float(i))
            observe(x, l, v); x.check()

if __name__ == "__main__":
    pyxp.main({"call": call, "vec": vec})

"""C20: all interleavings of concurrent calls and all re-entrant calls of the real extension module."""
import ctypes, itertools, os, sys, threading, time
import pyxp
import crossprob
import pymod
V = crossprob.VectorDouble
LIB = ctypes.CDLL(os.environ["XP_SCHED"])
P = LIB.xp_point
WRAPPER = crossprob.__file__
CALLBACK, OPCODE, LOCKFREE = 1, 2, 3


class S:
    """a sequence that reports every access as a scheduling point"""
    def __init__(self, d): self.d = d
    def __len__(self): P(CALLBACK); return len(self.d)
    def __getitem__(self, i): P(CALLBACK); return self.d[i]

class F(float):
    """an element whose destruction is a scheduling point"""
    def __del__(self): P(CALLBACK)

class D(S):
    def __getitem__(self, i): P(CALLBACK); return F(self.d[i])


def outcome(fn, args):
    try: return ("ok", getattr(crossprob, fn)(*args))
    except Exception as e: return ("exc", type(e).__name__, str(e))

def agree(got, want):
    if got[0] != want[0]: return False
    if got[0] == "exc": return got == want
    return type(got[1]) is float and abs(got[1] - want[1]) <= 1e-13 * abs(want[1]) + 1e-15

class Call:
    def __init__(self, fn, *args): self.fn, self.args = fn, args
    def make(self, K=S): return tuple(K(a) if isinstance(a, list) else a for a in self.args)
    def alone(self): return outcome(self.fn, tuple(list(a) if isinstance(a, list) else a for a in self.args))
    def __repr__(self): return "%s(%s)" % (self.fn, ", ".join(map(repr, self.args)))

ONE = ("ecdf1_new_b", "ecdf1_new_B", "ecdf1_mns2016_b", "ecdf1_mns2016_B")

def alphabet(n):
    """valid calls of every function with different results, and failing ones"""
    g = lambda a, b: [round(a + (b - a) * i / max(1, n), 3) for i in range(n)]
    r = [Call(f, g(0.1 + 0.07 * k, 0.8 + 0.05 * k)) for k, f in enumerate(ONE)]
    r += [Call("ecdf2", g(0.05, 0.5), g(0.6, 0.9), False), Call("ecdf2", g(0.1, 0.4), g(0.7, 1.0), True)]
    return r

def failing(n):
    d = [0.9] * (n - 1) + [1.5]
    return [Call("ecdf1_new_b", d), Call("ecdf1_mns2016_B", d), Call("ecdf2", [0.2] * n, d, True), Call("ecdf2", [0.1] * n, [0.9] * (n + 1), False), Call("ecdf1_new_B", [0.1] * (n - 1) + [None])]

# ---- controlled execution -----------------------------------------------------------------------------
def reference(x, c):
    """result of the call on its own; it must also be the right probability"""
    w = c.alone()
    if w[0] == "ok" and not abs(w[1] - pymod.exact(c.fn, c.args)) <= 1e-12: x.fail("%r alone gives %r, exact %r" % (c, w[1], pymod.exact(c.fn, c.args)))
    if w != c.alone(): x.fail("%r gives different results when repeated alone" % c)
    return w

def opcode_trace(frame, event, arg):
    if frame.f_code.co_filename != WRAPPER: return None
    frame.f_trace_opcodes = True; frame.f_trace_lines = False
    def local(f, ev, a):
        if ev == "opcode": P(OPCODE)
        return local
    return local

class Pool:
    """persistent worker threads; run() executes one schedule"""
    def __init__(self, n):
        self.jobs, self.res = [None] * n, [None] * n
        self.go = [threading.Semaphore(0) for _ in range(n)]
        for t in range(n): threading.Thread(target=self.loop, args=(t,), daemon=True).start()
    def loop(self, t):
        while True:
            self.go[t].acquire()
            (call, args, trace) = self.jobs[t]
            LIB.xp_begin(t)
            if trace: sys.settrace(opcode_trace)
            r = outcome(call.fn, args)
            if trace: sys.settrace(None)
            del args; self.jobs[t] = None; self.res[t] = r
            LIB.xp_end()
    def run(self, calls, args, plan, trace):
        n = len(calls)
        k = plan[-1][0] + 1 if plan else 0          # plan: ((point, choice), ...), all other choices 0
        p = (ctypes.c_int * max(1, k))()
        for i, c in plan: p[i] = c
        LIB.xp_plan(p, k, n)
        for t in range(n): self.jobs[t] = (calls[t], args[t], trace); self.res[t] = None
        for t in range(n): self.go[t].release()
        freed = LIB.xp_run(40)
        k = LIB.xp_points(); b = [ctypes.create_string_buffer(k + 1) for _ in range(4)]
        pcs = (ctypes.c_size_t * (k + 1))()
        LIB.xp_trace(*b, pcs)
        return freed, [x.raw[:k] for x in b], self.res[:n], pcs

def order(who):
    """points executed by each thread in turn"""
    r = []
    for w, g in itertools.groupby(who): r.append("thread %d x%d" % (w, len(list(g))))
    return ", ".join(r)

def tell(x, calls, who): x.text = "%s; points executed: %s" % (", ".join(str(c)[:600] for c in calls), order(who)[:1500])

pool = None
MOST = 400
def explore(x, calls, K=S, trace=False, bound=None):
    """all schedules of the calls with at most `bound` preemptions"""
    global pool, MOST
    if pyxp.thorough: MOST = 4000
    if pool is None: pool = Pool(3)
    wants = [reference(x, c) for c in calls]
    x.key((repr(calls), getattr(K, "__name__", "f"), trace, bound))
    todo, n, blocked = [()], 0, 0
    while todo:
        plan = todo.pop()
        for attempt in range(4):
            args = [c.make(K) for c in calls]
            freed, (opts, chosen, kinds, who), res, pcs = pool.run(calls, args, plan, trace)
            if freed or not plan or (len(opts) > plan[-1][0] and all(chosen[i] == c for i, c in plan)): break
        else:           # the points up to the preemption were not the same ones as before
            x.count("schedules_that_could_not_be_repeated")
            for c, w, r in zip(calls, wants, res):
                if not agree(r, w): tell(x, calls, who); x.fail("%r gives %r, alone it gives %r" % (c, r, w))
            continue
        n += 1; x.states(len(opts), len(opts)); x.trace(); x.check(len(calls)); x.count("schedules")
        x.beat()
        if freed:       # the code excludes other threads itself
            x.count("schedules_with_a_blocked_thread"); blocked += 1
            if blocked > 40: x.count("calls_left_after_40_blocked_schedules"); break
        x.count("points_without_interpreter_lock", LIB.xp_gil_free())
        pass
        if LIB.xp_overlap(): tell(x, calls, who); x.fail("two calls are inside FFTW's planner at the same time (it is not thread-safe)")
        for c, w, r in zip(calls, wants, res):
            if not agree(r, w): tell(x, calls, who); x.fail("%r gives %r, alone it gives %r" % (c, r, w))
        free = LIB.xp_gil_free()
        lim, first = bound, plan[-1][0] + 1 if plan else 0
        if free: lim = 2 if len(opts) <= 40 else 1      # many more points: one preemption (two in short runs)
        preempted = sum(1 for i, c in plan if kinds[i] != 0)
        if lim is None or preempted < lim:
            places = range(first, len(opts))
            if free and len(opts) > MOST:               # at the first, second and last passage of every place in the code
                at = {}
                for i in places:
                    v = at.setdefault(pcs[i], [])
                    if len(v) > MOST // 200: v[-1] = i
                    else: v.append(i)
                places = sorted(i for v in at.values() for i in v)
                x.count("runs_preempted_at_every_place_but_not_every_passage")
        else:                                           # only where a thread has ended
            places, i = [], kinds.find(b"\0", first)
            while i >= 0: places.append(i); i = kinds.find(b"\0", i + 1)
        for i in places:
            for alt in range(chosen[i] + 1, opts[i]): todo.append(plan + ((i, alt),))
        if x.deadline and x.only is None and time.time() > x.deadline: x.capped = True; raise pyxp.Stop()
    return n

# ---- re-entrant calls -----------------------------------------------------------------------------------
class Nest:
    """a sequence that performs `action` on its i-th access"""
    def __init__(self, d, at, action): self.d, self.at, self.action, self.n = d, at, action, 0
    def hit(self):
        self.n += 1
        if self.n - 1 == self.at: self.action()
    def __len__(self): self.hit(); return len(self.d)
    def __getitem__(self, i): self.hit(); return self.d[i]

def accesses(c, pos):
    s = Nest(c.args[pos], -1, None); outcome(c.fn, tuple(s if i == pos else a for i, a in enumerate(c.args))); return s.n

def nest(x, outer, pos, at, inner, kind):
    wo, wi = reference(x, outer), reference(x, inner)
    got = []
    def action(): got.append(outcome(inner.fn, inner.make({"sequence": PlainSeq, "list": list, "vector": V}[kind])))
    def quiet():
        r = outcome(outer.fn, tuple(Nest(a, at, action) if i == pos else a for i, a in enumerate(outer.args)))
        return r
    r = quiet(); x.check(2)
    x.states(2, 1); x.trace()
    if len(got) > 1: x.fail("accessed more than once")
    for g in got:
        if not agree(g, wi): x.fail("the inner call %r gives %r, alone %r" % (inner, g, wi))
    if not agree(r, wo): x.fail("the outer call gives %r, alone %r" % (r, wo))

class PlainSeq:
    def __init__(self, d): self.d = d
    def __len__(self): return len(self.d)
    def __getitem__(self, i): return self.d[i]

def sched(x):
    T = pyxp.thorough
    A = {n: alphabet(n) for n in (1, 2, 3, 5)}
    Fl = {n: failing(n) for n in (1, 2)}
    V2 = V
    # 1. re-entrant calls at every access of every argument
    calls = A[1] + A[2] + Fl[2] + A[5]
    for o in calls:
        for pos in range(len(o.args)):
            if not isinstance(o.args[pos], list): continue
            k = None
            for i in calls + Fl[1]:
                if not x.next(): continue
                if k is None: k = accesses(o, pos)
                x.desc("%r calls %r while its argument %d is read" % (o, i, pos)); x.key((repr(o), pos, repr(i)))
                for at in range(k):
                    for kind in ("sequence", "list", "vector"):
                        if kind == "vector" and None in i.args[0]: continue
                        x.text = "%r calls %r on access %d of argument %d (%s)" % (o, i, at, pos, kind)
                        nest(x, o, pos, at, i, kind)
    # two levels deep
    for a, b, c in itertools.product(A[1] + Fl[1][:2], repeat=3):
        if not x.next(): continue
        x.desc("%r calls %r calls %r" % (a, b, c)); x.key((repr(a), repr(b), repr(c)))
        wa, wb, wc = reference(x, a), reference(x, b), reference(x, c)
        for i in range(accesses(a, 0)):
            for j in range(accesses(b, 0)):
                got = []
                def inner(): got.append((c, wc, outcome(c.fn, c.make(list))))
                def mid(): got.append((b, wb, outcome(b.fn, (Nest(b.args[0], j, inner),) + b.args[1:])))
                got.append((a, wa, outcome(a.fn, (Nest(a.args[0], i, mid),) + a.args[1:]))); x.check(3); x.states(3, 2); x.trace()
                for q, w, g in got:
                    if not agree(g, w): x.fail("%r gives %r, alone %r (accesses %d, %d)" % (q, g, w, i, j))
    # many levels deep
    for d in range(3, 13 if not T else 40):
        for off, calls in [(o, A[1] + Fl[1][:4]) for o in range(10)] + [(o, A[2] + Fl[2]) for o in range(11)]:
            if not x.next(): continue
            chain = [calls[(off + k) % len(calls)] for k in range(d)]
            x.desc("%d calls inside one another: %r ..." % (d, chain[:3])); x.key((d, off, len(calls)))
            want = [reference(x, c) for c in chain]; acc = [accesses(c, 0) for c in chain]
            for at in (0, 1, 2, 99):
                got = [None] * d
                def level(k):
                    c = chain[k]
                    if k == d - 1: got[k] = outcome(c.fn, c.make(list)); return
                    got[k] = outcome(c.fn, (Nest(c.args[0], min(at, acc[k] - 1), lambda: level(k + 1)),) + c.args[1:])
                level(0); x.check(d); x.states(d, d - 1); x.trace()
                for c, w, g in zip(chain, want, got):
                    if g is None or not agree(g, w): x.fail("%r in %d nested calls gives %r, alone %r" % (c, d, g, w))
    # many threads, all of them stopped at their k-th access, then finishing in either order
    crowd = None
    for n in (4, 5, 6, 8, 12):
        for off, calls in [(o, A[1] + Fl[1]) for o in range(11)] + [(o, A[2] + Fl[2]) for o in range(11)] + [(0, [c]) for c in A[1] + A[2] + Fl[2]]:
            if not x.next(): continue
            team = [calls[(off + k) % len(calls)] for k in range(n)]
            x.desc("%d threads: %r ..." % (n, team[:3])); x.key((n, off, repr(calls[0]), len(calls)))
            if crowd is None: crowd = Pool(12)
            want = [reference(x, c) for c in team]; acc = [sum(accesses(c, k) for k in range(len(c.args)) if isinstance(c.args[k], list)) for c in team]
            for at in range(1, max(acc) + 1):
                for policy in (0, 1):
                    plan, i = [], 0
                    for t in range(n - 1):
                        i += min(at, acc[t]); plan.append((i, t + 1))
                    args = [c.make(S) for c in team]
                    LIB.xp_policy(policy); freed, (opts, chosen, kinds, who), res, pcs = crowd.run(team, args, tuple(plan), False); LIB.xp_policy(0)
                    x.states(len(opts), len(opts)); x.trace(); x.check(n); x.count("schedules"); x.beat()
                    if LIB.xp_overlap(): x.fail("two calls are inside FFTW's planner at the same time (it is not thread-safe)")
                    if freed: x.count("schedules_with_a_blocked_thread")
                    for c, w, r in zip(team, want, res):
                        if not agree(r, w): x.fail("%r in one of %d threads gives %r, alone %r (all stopped at access %d)" % (c, n, r, w, at))
    # 2. two threads, all interleavings at sequence accesses
    one = lambda n: [c for c in A[n] if c.fn != "ecdf2"]; two = lambda n: [c for c in A[n] if c.fn == "ecdf2"]
    def pairs(L, K=S, trace=False, bound=None, name=""):
        for p in L:
            if not x.next(): continue
            x.desc("threads %r %s" % (list(p), name)); explore(x, list(p), K, trace, bound)
    P2 = itertools.product
    pairs(P2(one(1), one(1)))
    pairs(P2(one(1), Fl[1] + two(1)), bound=4 if not T else 6)
    pairs(P2(one(1), one(2)), bound=3 if not T else 5)
    pairs(P2(A[2] + Fl[2], A[2] + Fl[2]), bound=2 if not T else 3)
    pairs(P2(A[2], A[3] + A[5]), bound=2)
    pairs(P2(A[1] + Fl[1], A[1] + Fl[1]), K=D, bound=2, name="(elements with destructors)")
    # at every bytecode of the module's Python part, with lists and vectors
    for K in (list, V2):
        for n in (1, 2, 5): pairs(P2([c for c in A[n]], A[n]), K=K, trace=True, bound=2 if not T else 3, name="at every bytecode")
    pairs(P2(A[1], A[2]), trace=True, bound=2, name="at every bytecode and access")
    # 3. three threads
    for p in itertools.product(A[1], repeat=3):
        if not x.next(): continue
        x.desc("threads %r" % (list(p),)); explore(x, list(p), bound=1 if not T else 2)
    # 4. larger computations (several blocks, FFT convolutions), one preemption
    probe = [Call("ecdf2", [0.1], [0.9], True), Call("ecdf1_mns2016_b", [0.1])]
    free = 0
    for c in probe:
        if pool is None: break
        pool.run([c], [c.make(list)], (), False); free += LIB.xp_gil_free()
    for m, n in ((140, 150), (18, 20), (40, 41), (700, 3)):
        for a in alphabet(m):
            for b in alphabet(n):
                if not x.next(): continue
                if free and (m == 700 or m > 20 and (False in a.args + b.args or "mns" in a.fn + b.fn)): continue    # too many points outside the interpreter lock
                x.desc("threads %s(n=%d), %s(n=%d) (lists)" % (a.fn, m, b.fn, n)); explore(x, [a, b], K=list, trace=True, bound=1)
                if m != n: explore(x, [b, a], K=list, trace=True, bound=1)

if __name__ == "__main__":
    pyxp.main({"sched": sched})

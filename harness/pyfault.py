"""C11: the real executables under every single fault (and bounded combinations) of their environment."""
import ctypes, errno, fcntl, itertools, os, resource, select, signal, struct, sys, tempfile, termios, time
import pyxp

BIN, PRELOAD, REF, TMP = None, None, None, None
HARMLESS = {errno.EINTR, 1001, 1002}

def ref(b, B):
    f = ctypes.CDLL(REF).xp_ref; f.restype = ctypes.c_double
    A = lambda v: (ctypes.c_double * max(1, len(v)))(*v)
    return f(A(b), len(b), A(B), len(B))

class Run:
    def __init__(self, rc, sig, out): self.rc, self.sig, self.out = rc, sig, out
    def __repr__(self): return "%s, stdout %r" % ("signal %d" % self.sig if self.sig else "exit %d" % self.rc, self.out[:200])

def path(name): return os.path.join(TMP, name)

def run(x, argv, faults=(), watch=None, fsize=None, default_xfsz=False, out=None, count=None, no_stdin=False, feed=None, preload=True, sigpipe=False):
    """out: None = a file; 'closed', 'full', 'readonly', 'broken' = broken kinds of standard output"""
    env = {"PATH": os.environ.get("PATH", ""), "XP_TIME": "1700000000"}
    if preload: env["LD_PRELOAD"] = PRELOAD
    if faults: env["XP_FAULT"] = ":".join("%s:%d:%d:%d" % f for f in faults)
    if watch: env["XP_WATCH"] = watch
    if count: env["XP_COUNT"] = count
    o = path("out"); acts = [(os.POSIX_SPAWN_OPEN, 2, os.devnull, os.O_WRONLY, 0)]
    acts.append((os.POSIX_SPAWN_CLOSE, 0) if no_stdin else (os.POSIX_SPAWN_OPEN, 0, os.devnull, os.O_RDONLY, 0))
    extra = []
    if out == "closed": acts.append((os.POSIX_SPAWN_CLOSE, 1))
    elif out == "full": acts.append((os.POSIX_SPAWN_OPEN, 1, "/dev/full", os.O_WRONLY, 0))
    elif out == "readonly": acts.append((os.POSIX_SPAWN_OPEN, 1, os.devnull, os.O_RDONLY, 0))
    elif out == "broken":
        r, w = os.pipe(); os.close(r); acts.append((os.POSIX_SPAWN_DUP2, w, 1)); extra.append(w)
    elif isinstance(out, int):          # a non-blocking pipe with room for `out` bytes only
        r, w = os.pipe(); fcntl.fcntl(w, fcntl.F_SETPIPE_SZ, 4096); os.set_blocking(w, False)
        if out < 4096: os.write(w, b"." * (4096 - out))
        acts.append((os.POSIX_SPAWN_DUP2, w, 1)); extra += [w, r]
    else: acts.append((os.POSIX_SPAWN_OPEN, 1, o, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600))
    if fsize is not None: resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, resource.RLIM_INFINITY))
    try: pid = os.posix_spawn(argv[0], argv, env, file_actions=acts, setsigdef=[signal.SIGXFSZ] * default_xfsz + [signal.SIGPIPE] * sigpipe)
    finally:
        if fsize is not None: resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    for fd in extra[:1]: os.close(fd)
    if feed: feed(pid)
    pf = os.pidfd_open(pid); p = select.poll(); p.register(pf, select.POLLIN)
    done = p.poll(30000); os.close(pf)
    if not done: os.kill(pid, signal.SIGKILL)
    _, st = os.waitpid(pid, 0)
    got = b""
    if isinstance(out, int):
        got = os.read(extra[1], 8192)[4096 - out if out < 4096 else 0:]; os.close(extra[1])
    elif out is None: got = open(o, "rb").read()
    if not done: x.fail("does not terminate within 30 s: %s %s" % (argv, faults))
    x.check()
    return Run(os.WEXITSTATUS(st) if os.WIFEXITED(st) else None, os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0, got)

def judge(x, r, good, harmless, what):
    if r.rc == 0 and r.out != good.out: x.fail("%s: %r, without fault %r" % (what, r, good))
    if harmless and r.rc != 0: x.fail("%s (harmless): %r, without it %r" % (what, r, good))
    if r.rc == 0: x.count("survived")
    elif r.sig: x.count("ended_by_signal")
    else: x.count("reported_failure")

# ---- scenarios ------------------------------------------------------------------------------------------
def fmt(v): return ",".join("%.17g" % t for t in v)
def ramp(n, a, b): return [a + (b - a) * i / max(1, n - 1) for i in range(n)]

def scenarios():
    S = []
    def add(prog, words, b, B, tail="\n", pad=""):
        S.append((prog, words, fmt(b) + (pad if b else "") + "\n" + fmt(B) + (pad if B else "") + tail, b, B))
    for a in ("ecdf2-ks2001", "ecdf2-mn2017"):
        add("crossprob", [a], [0.1, 0.2], [0.8, 0.9]); add("crossprob", [a], [], [0.5, 0.7], ""); add("crossprob", [a], [0.3], [], "\n")
        add("crossprob", [a], ramp(40, 0.0, 0.9), ramp(40, 0.1, 1.0))
    for a in ("ecdf1-new", "ecdf1-mns2016"):
        add("crossprob", [a], [], [0.5, 0.7]); add("crossprob", [a], [0.1, 0.2, 0.6], []); add("crossprob", [a], ramp(30, 0.0, 0.7), [])
    add("crossprob", ["ecdf2-mn2017"], ramp(200, 0.0, 0.95), ramp(200, 0.12, 1.0))
    add("crossprob", ["ecdf1-new"], [], ramp(200, 0.1, 1.0)); add("crossprob", ["ecdf1-new"], ramp(900, 0.0, 0.95), [], pad=" " * 9000)
    add("crossprob", ["ecdf2-mn2017"], [0.5, 0.5], [0.4, 0.9]); add("crossprob", ["ecdf1-mns2016"], [0.0], [])
    for c in ("ecdf", "poisson"):
        add("crossprob_mc", [c, "50"], [0.1, 0.2], [0.8, 0.9]); add("crossprob_mc", [c, "7"], [], [0.5, 0.7], ""); add("crossprob_mc", [c, "300"], ramp(30, 0.0, 0.7), [])
        add("crossprob_mc", [c, "100"], ramp(600, 0.0, 0.9), ramp(600, 0.1, 1.0))
    return S

def show(s): return "%s %s, file %r" % (s[0], " ".join(s[1]), s[2] if len(s[2]) < 80 else s[2][:60] + "... (%d bytes)" % len(s[2]))

def argv(s, file): return [os.path.join(BIN, s[0]), s[1][0], file] + s[1][1:]

def baseline(x, s, file):
    """the fault-free run; it must itself be right"""
    g = run(x, argv(s, file), watch=file, count=path("count"))
    if g.rc != 0: x.fail("without any fault: %r" % g)
    c = list(map(int, open(path("count")).read().split()))
    if s[0] == "crossprob":
        want = ref(s[3], s[4])
        try: v = float(g.out)
        except ValueError: x.fail("without any fault: %r" % g)
        if not abs(v - want) <= 1e-9 + 1e-5 * abs(want): x.fail("without any fault: %r, exact %r" % (g, want))
    else:
        try: v = float(g.out)
        except ValueError: x.fail("without any fault: %r" % g)
        k = v * int(s[1][1])
        if not (0 <= v <= 1 and abs(k - round(k)) < 2e-3 * max(1, k)): x.fail("without any fault: %r is not a fraction of %s" % (g, s[1][1]))
    if not g.out.endswith(b"\n") or g.out.count(b"\n") != 1: x.fail("without any fault: %r is not one line" % g)
    return g, c

def feeder(x, pieces, fifo):
    """writes the pieces one at a time, each after the previous one was consumed"""
    def feed(pid):
        fd = None; end = time.time() + 20
        while time.time() < end:
            try: fd = os.open(fifo, os.O_WRONLY | os.O_NONBLOCK); break
            except OSError as e:
                if e.errno != errno.ENXIO: raise
                if os.waitid(os.P_PID, pid, os.WEXITED | os.WNOHANG | os.WNOWAIT): return
                time.sleep(0.0003)
        if fd is None: x.fail("does not open its input file")
        buf = ctypes.c_int()
        try:
            for p in pieces:
                while p:
                    try: p = p[os.write(fd, p):]
                    except BlockingIOError: time.sleep(0.0003)
                    while struct.unpack("i", fcntl.ioctl(fd, termios.FIONREAD, b"\0\0\0\0"))[0] and time.time() < end:
                        if os.waitid(os.P_PID, pid, os.WEXITED | os.WNOHANG | os.WNOWAIT): return
                        time.sleep(0.0002)
        except BrokenPipeError: pass
        finally: os.close(fd)
    return feed

def faults(x):
    global BIN, PRELOAD, REF, TMP
    BIN, PRELOAD, REF = pyxp.arg.split(",")
    T = pyxp.thorough
    TMP = tempfile.mkdtemp(prefix="w", dir=os.environ["XP_SCRATCH"])
    signal.signal(signal.SIGPIPE, signal.SIG_IGN)
    S = scenarios(); made = {}
    def prepare(i):
        if i not in made:
            f = path("bounds%d" % i)
            with open(f, "w") as h: h.write(S[i][2])
            made[i] = (f,) + baseline(x, S[i], f)
        return made[i]
    for i, s in enumerate(S):
        small = len(s[2]) < 60
        # fault-free
        if x.next():
            x.desc("no fault: " + show(s)); x.key((i, "none")); file, g, c = prepare(i)
            again = run(x, argv(s, file), preload=True, watch=file)
            if again.rc != 0 or again.out != g.out: x.fail("two identical runs differ: %r, %r" % (g, again))
            x.count("allocations", c[2]); x.count("reads", c[1])
        # opening the file
        for e in (errno.ENOENT, errno.EACCES, errno.EMFILE, errno.ENFILE, errno.EIO, errno.ENOMEM, errno.EINTR, errno.ENXIO, errno.EISDIR, errno.ELOOP):
            for k in (1, 2, 3):
                if not x.next(): continue
                x.desc("open %d fails with %s: %s" % (k, errno.errorcode[e], show(s))); x.key((i, "open", e, k)); file, g, c = prepare(i)
                for last in (k, 1 << 20): judge(x, run(x, argv(s, file), [("o", e, k, last)], watch=file), g, False, "open failure")
        # reading it: every pattern of results of the first reads
        kinds = (0, errno.EIO, errno.EINTR, 1001, 1002, errno.EAGAIN)
        depth = (4 if T else 3)
        for pat in itertools.product(kinds, repeat=depth):
            if not any(pat): continue
            if not x.next(): continue
            x.desc("reads %s: %s" % (pat, show(s))); x.key((i, "read", pat)); file, g, c = prepare(i)
            fl = [("r", k, j + 1, j + 1) for j, k in enumerate(pat) if k]
            judge(x, run(x, argv(s, file), fl, watch=file), g, all(k in HARMLESS for k in pat if k), "reads %s" % (pat,))
        for k, n in ((1001, 1), (1002, 1), (errno.EINTR, 50), (errno.EIO, 0), (errno.EBADF, 0), (errno.ESTALE, 0), (errno.EISDIR, 0)):
            for frm in list(range(1, 12)) + [20, 50]:
                if not x.next(): continue
                x.desc("reads from number %d: %s x%d: %s" % (frm, k, n, show(s))); x.key((i, "reads", k, frm)); file, g, c = prepare(i)
                last = 1 << 20 if n != 50 else frm + 50
                judge(x, run(x, argv(s, file), [("r", k, frm, last)], watch=file), g, k in HARMLESS, "reads from %d" % frm)
                # an error in the middle of byte-wise reading: every position
        if small:
            for p in range(1, len(s[2]) + 2):
                for e in (errno.EIO, errno.EINTR):
                    if not x.next(): continue
                    x.desc("byte-wise reading, %s at byte %d: %s" % (errno.errorcode[e], p, show(s))); x.key((i, "byte", e, p)); file, g, c = prepare(i)
                    judge(x, run(x, argv(s, file), [("r", e, p, p), ("r", 1001, 1, 1 << 20)], watch=file), g, e == errno.EINTR, "error at byte %d" % p)
        # a pipe delivering the file in pieces
        L = len(s[2]); cuts = range(1, L) if small else sorted({1, 7, 4095, 4096, 4097, 8191, 8192, 8193, L // 2, L - 2, L - 1} & set(range(1, L)))
        for p in [()] + [(a,) for a in cuts] + ([(a, b) for a in cuts for b in cuts if a < b and (T or b - a < 3)] if small else []):
            if not x.next(): continue
            x.desc("pipe delivering pieces at %s: %s" % (p, show(s))); x.key((i, "pipe", p)); file, g, c = prepare(i)
            fifo = path("fifo")
            if not os.path.exists(fifo): os.mkfifo(fifo)
            d = s[2].encode(); q = (0,) + p + (L,)
            judge(x, run(x, argv(s, fifo), feed=feeder(x, [d[q[j]:q[j + 1]] for j in range(len(q) - 1)], fifo)), g, True, "pieces")
        # memory
        n = None
        for k in range(1, 200000):
            if n is not None and k > n: break
            if n is None and k > 400:          # number of allocations needed only for the long ones
                n = prepare(i)[2][2] + 2
                if k > n: break
            if not x.next(): continue
            file, g, c = prepare(i)
            if k > c[2] + 2: continue
            x.desc("allocation %d fails: %s" % (k, show(s))); x.key((i, "mem", k))
            judge(x, run(x, argv(s, file), [("m", 0, k, k)], watch=file), g, False, "allocation %d fails" % k)
            judge(x, run(x, argv(s, file), [("m", 0, k, 1 << 30)], watch=file), g, False, "allocations from %d fail" % k)
            if c[2] < 60 or T:
                for l in range(k + 1, min(c[2] + 1, k + 60)):
                    judge(x, run(x, argv(s, file), [("m", 0, k, k), ("m", 0, l, l)], watch=file), g, False, "allocations %d and %d fail" % (k, l))
        # writing the result
        for kind in ("closed", "full", "readonly", "broken"):
            for no_stdin in (False, True):
                for sp in (False, True):
                    if not x.next(): continue
                    x.desc("standard output %s: %s" % (kind, show(s))); x.key((i, "out", kind, no_stdin, sp)); file, g, c = prepare(i)
                    r = run(x, argv(s, file), out=kind, no_stdin=no_stdin, sigpipe=sp, preload=no_stdin)
                    if r.rc == 0: x.fail("exits 0 although its standard output is %s" % kind)
        for lim in range(0, 24):
            if not x.next(): continue
            x.desc("at most %d bytes of output: %s" % (lim, show(s))); x.key((i, "limit", lim)); file, g, c = prepare(i)
            for dflt in (False, True):
                r = run(x, argv(s, file), fsize=lim, default_xfsz=dflt)
                judge(x, r, g, lim >= len(g.out), "limited to %d bytes" % lim)
            r = run(x, argv(s, file), out=lim)
            judge(x, r, g, lim >= len(g.out), "pipe with room for %d bytes" % lim)
            if lim < len(g.out):
                for k in (1, 2): judge(x, run(x, argv(s, file), [("m", 0, c[2] - k, c[2] + 9)], watch=file, fsize=lim), g, False, "limited to %d bytes, last allocations fail" % lim)
    # files that cannot be read at all
    for s in S:
        for f in (TMP, "/proc/self/mem", path("missing"), path("missing/x"), "", "/dev/null", path("x" * 300)):
            if not x.next(): continue
            x.desc("%s %s on %s" % (s[0], s[1], f)); x.key((s[0], s[1][0], f))
            r = run(x, argv(s, f))
            if r.rc == 0: x.fail("unreadable or empty file %r: %r" % (f, r))

if __name__ == "__main__":
    pyxp.main({"faults": faults})

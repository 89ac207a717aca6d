"""Explorer for Python code: same protocol, sharding and confirmation rules as xp.hpp."""
import json, mmap, os, signal, struct, sys, time, traceback


class Stop(Exception): pass


class X:
    def __init__(self, shard, workers, slot, only=None, upto=None, deadline=0):
        self.shard, self.workers, self.slot, self.only, self.upto, self.deadline = shard, workers, slot, only, upto, deadline
        self.idx, self.cases, self.checks_, self.states_, self.trans, self.traces = -1, 0, 0, 0, 0, 0
        self.keys, self.samples, self.text, self.extra = set(), [], "", {}
        self.failed = None
        self.capped = False

    def next(self):
        self.idx += 1
        if self.only is not None:
            if self.idx > self.only: raise Stop()
            if self.idx != self.only: return False
        else:
            if self.upto is not None and self.idx > self.upto: raise Stop()
            if self.idx % self.workers != self.shard: return False
        self.slot.seek(0); self.slot.write(struct.pack("q", self.idx))
        self.cases += 1
        if self.deadline and self.only is None and self.cases % 16 == 0 and time.time() > self.deadline:
            self.capped = True; raise Stop()
        return True

    def desc(self, text):
        self.text = text[:3000]
        b = self.text.encode("utf-8", "replace")[:4000]
        self.slot.seek(8); self.slot.write(struct.pack("i", len(b)) + b)
        if self.cases & (self.cases - 1) == 0: self.samples.append(self.text)

    def beat(self):
        """progress within a long case"""
        self.slot.seek(8192); self.slot.write(struct.pack("d", time.time()))

    def check(self, n=1): self.checks_ += n
    def key(self, k): self.keys.add(hash(k) & ((1 << 61) - 1))
    def states(self, s, t): self.states_ += s; self.trans += t
    def trace(self): self.traces += 1
    def count(self, name, n=1): self.extra[name] = self.extra.get(name, 0) + n

    def known(self, key, why):
        """a failure that KNOWN_FINDINGS may list under this key"""
        if key in os.environ.get("XP_KNOWN", "").split(","): self.count("known:" + key)
        else: self.fail(why)

    def fail(self, why):
        self.failed = why
        raise Stop()

    def result(self):
        return dict(idx=self.idx, cases=self.cases, checks=self.checks_, states=self.states_, transitions=self.trans, traces=self.traces,
                    keys=list(self.keys), samples=self.samples[-3:], text=self.text, failed=self.failed, capped=self.capped, extra=self.extra)


def child(body, x, path):
    code = 0
    try:
        os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
        try: body(x)
        except Stop: pass
        except BaseException as e:
            x.failed = "unexpected exception in the explored code: " + "".join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:]
        with open(path, "w") as f: json.dump(x.result(), f)
    except BaseException:
        traceback.print_exc(); code = 9
    sys.stderr.flush()
    os._exit(code)


def died(st):
    if os.WIFSIGNALED(st): return "process died: signal %d (%s)" % (os.WTERMSIG(st), signal.strsignal(os.WTERMSIG(st)))
    return "process ended unexpectedly with status %d" % os.WEXITSTATUS(st)


def replay(body, out, single, at, workers, limit):
    slot = mmap.mmap(-1, 1 << 14); path = out + ".replay"
    if os.path.exists(path): os.remove(path)
    x = X(at % workers, workers, slot, only=at if single else None, upto=None if single else at)
    p = os.fork()
    if p == 0: child(body, x, path)
    t, last = time.time(), -1
    while True:
        r, st = os.waitpid(p, os.WNOHANG)
        if r: break
        i = (slot[:8], slot[8192:8200])
        if i != last: last, t = i, time.time()
        if time.time() - t > limit:
            os.kill(p, 9); os.waitpid(p, 0)
            return "does not terminate within %d s" % limit, text(slot)
        time.sleep(0.003)
    if not os.path.exists(path): return died(st), text(slot)
    d = json.load(open(path))
    return d["failed"], d["text"] or text(slot)


def text(slot):
    n = struct.unpack("i", slot[8:12])[0]
    return slot[12:12 + n].decode("utf-8", "replace")


def main(modes):
    a = sys.argv[1:]
    mode = a[0]; o = dict(tier="quick", workers="8", stall="60", deadline="0", arg="", out="", mem="0")
    rep = None; i = 1
    while i < len(a):
        if a[i] == "--replay": rep = (a[i + 1], int(a[i + 2])); i += 3
        else: o[a[i][2:]] = a[i + 1]; i += 2
    global thorough, arg
    thorough, arg = o["tier"] in ("full", "thorough"), o["arg"]
    import pyxp; pyxp.thorough, pyxp.arg = thorough, arg
    body, out, workers, stall = modes[mode], o["out"], int(o["workers"]), float(o["stall"])
    if rep:
        why, d = replay(body, out, rep[0] == "single", rep[1], workers, 4 * stall)
        print("case %d: %s\n%s" % (rep[1], d, "FAILS: " + why if why else "passes"))
        sys.exit(1 if why else 0)
    t0 = time.time()
    slots = [mmap.mmap(-1, 1 << 14) for _ in range(workers)]
    paths = ["%s.w%d" % (out, w) for w in range(workers)]
    pids = []
    for w in range(workers):
        if os.path.exists(paths[w]): os.remove(paths[w])
        x = X(w, workers, slots[w], deadline=t0 + float(o["deadline"]) if float(o["deadline"]) else 0)
        p = os.fork()
        if p == 0: child(body, x, paths[w])
        pids.append(p)
    beat, last, alive, cand, res = [time.time()] * workers, [-1] * workers, set(range(workers)), [], []
    while alive:
        for w in list(alive):
            r, st = os.waitpid(pids[w], os.WNOHANG)
            i = struct.unpack("q", slots[w][:8])[0]
            if r:
                alive.discard(w)
                if os.path.exists(paths[w]):
                    d = json.load(open(paths[w])); res.append(d)
                    if d["failed"]: cand.append((d["idx"], d["failed"]))
                else: cand.append((i, died(st)))
                continue
            if cand and i > min(cand)[0]:       # a smaller case failed already
                os.kill(pids[w], 9); os.waitpid(pids[w], 0); alive.discard(w); continue
            now = (i, slots[w][8192:8200])
            if now != last[w]: last[w], beat[w] = now, time.time()
            if time.time() - beat[w] > stall:
                os.kill(pids[w], 9); os.waitpid(pids[w], 0); alive.discard(w); cand.append((i, "no progress"))
        time.sleep(0.003)
    viol, unconfirmed = None, 0
    for idx, why in sorted(cand):
        for single in (True, False):
            w, d = replay(body, out, single, idx, workers, 4 * stall)
            if w: viol = dict(idx=idx, mode="single" if single else "prefix", why=w, desc=d); break
        if viol: break
        unconfirmed += 1
        sys.stderr.write("unconfirmed candidate at case %d: %s\n" % (idx, why[:600]))
    keys = set()
    for d in res: keys.update(d["keys"])
    ex = {}
    for d in res:
        for k, v in d["extra"].items(): ex[k] = ex.get(k, 0) + v
    r = dict(capped=sum(d["capped"] for d in res), cases=sum(d["cases"] for d in res), total=max([d["idx"] for d in res] or [0]), distinct=len(keys),
             checks=sum(d["checks"] for d in res), states=sum(d["states"] for d in res), transitions=sum(d["transitions"] for d in res), traces=sum(d["traces"] for d in res),
             oracle_validations=0, wall_s=round(time.time() - t0, 2), unconfirmed=unconfirmed, extra=ex, samples=[s for d in res[:3] for s in d["samples"][-1:]])
    if viol: r["violation"] = viol
    json.dump(r, open(out, "w"))
    sys.exit(1 if viol else 3 if unconfirmed else 0)

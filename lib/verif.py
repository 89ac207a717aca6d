"""Driver shared by all checks: scratch copy, build, exploration, evidence, verdict."""
import atexit, glob, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("XP_REPO", "/repo")     # the override is for trying changes on scratch copies
INC = "-include iterator -include limits"
PYTHON = "/usr/bin/python3"
HARNESS = os.path.join(VERIF, "harness")
ENV = {"PATH": "/usr/bin:/bin:/usr/sbin:/sbin", "LC_ALL": "C.UTF-8", "PYTHONDONTWRITEBYTECODE": "1",
       "PYTHONNOUSERSITE": "1", "HOME": "/nonexistent"}
if os.environ.get("XP_SHOW"): ENV["XP_SHOW"] = "1"


# checks whose quick tier explores the larger of the two regular bounds (it takes less than two minutes)
FULL = {"C01", "C02", "C03", "C06", "C08", "C09", "C10", "C12", "C18", "C23", "C24"}


class Broken(Exception):
    """The check itself cannot give an answer."""


class Violation(Exception):
    def __init__(self, why, desc="", replay=None):
        super().__init__(why)
        self.why, self.desc, self.replay = why, desc, replay


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.thorough = tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) and shutil.disk_usage("/dev/shm").free > (1 << 30) else None
        self.scratch = tempfile.mkdtemp(prefix="vp-%s-" % prop, dir=base)
        os.chmod(self.scratch, 0o755)
        atexit.register(shutil.rmtree, self.scratch, True)
        self.runs = []          # results of explorations
        self.coverage = {}      # additional measured coverage
        self.samples = []
        self.assumptions = []
        self.only = None        # replay restriction

    # ---- building -------------------------------------------------------------------------
    def sh(self, cmd, cwd=None, env=None, timeout=600, ok=True, **kw):
        e = dict(ENV)
        if env: e.update(env)
        try:
            r = subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, env=e, timeout=timeout,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
        except subprocess.TimeoutExpired:
            raise Broken("timed out: %s" % (cmd,))
        if ok and r.returncode != 0:
            raise Broken("failed (%d): %s\n%s" % (r.returncode, cmd, r.stdout.decode(errors="replace")[-6000:]))
        return r

    def copy(self, name="tree"):
        d = os.path.join(self.scratch, name)
        shutil.copytree(REPO, d, symlinks=True,
                        ignore=lambda p, n: [x for x in n if p == REPO and x in (".git", "build", "bin", "_build")])
        return d

    def make(self, tree, extra="", cxx="g++", env=None):
        """Builds both programs with the repository's own Makefile; extra flags come with the compiler."""
        self.sh(["make", "-j8", "CXX=%s %s %s" % (cxx, INC, extra), "all"], cwd=tree, env=env)
        return tree

    def objects(self, tree):
        """(objects without main, {program: object defining its main})"""
        lib, mains = [], {}
        for o in sorted(glob.glob(tree + "/build/**/*.o", recursive=True)):
            out = self.sh(["nm", o]).stdout.decode()
            if re.search(r" T main$", out, re.M):
                mains[os.path.basename(o)[:-2]] = o
            else:
                lib.append(o)
        return lib, mains

    def archive(self, tree, objs, name="liball.a"):
        a = os.path.join(tree, name)
        self.sh(["ar", "rcs", a] + objs)
        return a

    def harness(self, src, tree, objs, flags="", name=None, libs="-lfftw3 -lm -ldl -lpthread", cxx="g++", link=""):
        """flags: compiling and linking; link: linking only; fast-math flags in `flags` are not passed to the linker."""
        exe = os.path.join(self.scratch, name or os.path.basename(src)[:-3])
        self.sh("%s -std=c++17 -O2 -march=native -Wall %s -I%s -I%s/src -c -o %s.o %s" % (cxx, INC + " " + flags, HARNESS, tree, exe, os.path.join(HARNESS, src)))
        self.sh("%s %s %s -o %s %s.o %s %s" % (cxx, flags.replace("-ffast-math", ""), link, exe, exe, " ".join(objs), libs))
        return exe

    def library(self, extra="", name="tree"):
        tree = self.make(self.copy(name), extra)
        lib, mains = self.objects(tree)
        return tree, self.archive(tree, lib), mains

    def program(self, prog, tree, src="prog.cc", name=None, flags="", shims=("exit=xp_exit", "time=xp_time")):
        """Links src with the objects of one program; its main is called target_main."""
        lib, mains = self.objects(tree)
        if prog not in mains: raise Broken("no object defines the main of " + prog)
        d = os.path.join(self.scratch, "renamed-" + (name or prog)); os.makedirs(d)
        ren = []
        for o in lib + [mains[prog]]:
            r = os.path.join(d, os.path.basename(o))
            self.sh(["objcopy"] + [a for s in shims for a in ("--redefine-sym", s)] + ["--redefine-sym", "main=target_main", o, r])
            ren.append(r)
        a = os.path.join(d, "lib.a")
        self.sh(["ar", "rcs", a] + ren[:-1])
        return self.harness(src, tree, [ren[-1], a], flags, name=name or ("h-" + prog))

    def extension(self, name="py-tree", flags=""):
        """Builds the Python extension with the repository's setup.py; returns (tree, directory to import from)."""
        tree = self.copy(name)
        self.sh([PYTHON, "setup.py", "-q", "build", "--build-base", tree + "/xpb"], cwd=tree,
                env={"CC": "gcc", "CXX": "g++", "CFLAGS": INC + " " + flags})
        d = glob.glob(tree + "/xpb/lib*")
        if len(d) != 1: raise Broken("setup.py built no module: %s" % d)
        return tree, d[0]

    def reference_library(self):
        so = os.path.join(self.scratch, "libxpref.so")
        self.sh("g++ -std=c++17 -O2 -shared -fPIC -I%s -o %s %s/refso.cc" % (HARNESS, so, HARNESS))
        return so

    # ---- exploring ------------------------------------------------------------------------
    def explore(self, exe, mode, label=None, workers=8, stall=60, deadline=None, mem=3000, arg=None, env=None, cwd=None):
        label = label or mode
        if self.only and self.only.get("label") != label:
            return None
        out = os.path.join(self.scratch, label + ".json")
        if deadline is None: deadline = 3000 if self.thorough else 420
        cmd = (exe if isinstance(exe, list) else [exe]) + [mode, "--out", out, "--tier", "full" if self.tier == "quick" and self.prop in FULL else self.tier, "--workers", str(workers), "--stall", str(stall), "--mem", str(mem)]
        if arg: cmd += ["--arg", arg]
        if self.only:
            cmd += ["--replay", self.only["mode"], str(self.only["idx"])]
        else:
            cmd += ["--deadline", str(deadline)]
        known = known_findings(self.prop)
        e = dict(ENV, XP_KNOWN=",".join(known))
        if env: e.update(env)
        run = lambda: subprocess.run(cmd, cwd=cwd or self.scratch, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL)
        r = run()
        if r.returncode == 3 and not self.only:
            # a failure that neither the case alone nor its prefix reproduces (an overloaded machine): explore everything again
            print("note: %s: a failure could not be reproduced, exploring again\n%s" % (label, r.stderr.decode(errors="replace")[-800:]))
            self.coverage["explored_again"] = self.coverage.get("explored_again", 0) + 1
            r = run()
        if self.only:
            print(r.stdout.decode(errors="replace"))
            if r.returncode == 1: raise Violation("replayed", "", self.only)
            return None
        if r.stderr.strip():
            sys.stderr.write(r.stderr.decode(errors="replace")[-300000:])
        if not os.path.exists(out):
            raise Broken("%s: no result (exit %d)\n%s" % (label, r.returncode, r.stderr.decode(errors="replace")[-3000:]))
        res = json.load(open(out))
        res["label"] = label
        self.runs.append(res)
        self.samples += res["samples"]
        for k in known:
            if isinstance(res.get("extra"), dict) and res["extra"].get("known:" + k):
                print("KNOWN-FINDING: property=%s %s %s" % (self.prop, k, known[k]))
        if r.returncode == 1:
            v = res["violation"]
            raise Violation(v["why"], v["desc"], {"property": self.prop, "label": label, "mode": v["mode"], "idx": v["idx"]})
        if r.returncode != 0:
            raise Broken("%s: exit %d" % (label, r.returncode))
        if res["capped"]:
            print("note: %s stopped at its time limit after %d cases" % (label, res["cases"]))
        return res

    def total(self, k):
        return sum(r[k] for r in self.runs)

    def evidence(self, level, violations):
        c = {}
        if self.runs:
            if level == "model_checking":
                c["states"] = self.total("states")
                c["transitions"] = self.total("transitions")
                c["traces_validated_against_impl"] = self.total("traces")
            else:
                c["evaluations"] = self.total("cases")
                c["distinct_nontrivial"] = self.total("distinct")
            c["oracle_comparisons"] = self.total("checks")
            if self.total("oracle_validations"): c["model_self_validations"] = self.total("oracle_validations")
            c["exhaustive"] = not any(r["capped"] for r in self.runs) and not violations
            c["explorations"] = [{k: r[k] for k in ("label", "cases", "distinct", "capped", "wall_s")} | ({"largest_error_over_tolerance": r["worst"]} if r.get("worst") else {}) for r in self.runs]
        c["samples"] = [s for s in self.samples if s][:8]
        c.update(self.coverage)
        d = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": c,
             "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": violations}
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        p = VERIF + "/evidence/%s.json" % self.prop
        with open(p + ".tmp", "w") as f: json.dump(d, f, indent=1)
        os.rename(p + ".tmp", p)
        return d


def known_findings(prop):
    """{key: text} - unrepaired genuine defects, see KNOWN_FINDINGS."""
    r = {}
    for l in open(VERIF + "/KNOWN_FINDINGS"):
        m = re.match(r"KNOWN-FINDING: property=(\S+) (\S+) (.*)", l)
        if m and m.group(1) == prop: r[m.group(2)] = m.group(3).strip()
    return r

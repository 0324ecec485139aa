"""Shared machinery of the checks: building from /repo, running monitors, verdicts, evidence."""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
CORES = os.cpu_count() or 8

GXX, CLANGXX = "g++", "clang++"
# The flags the project itself uses on x86-64.
DEFAULT = [GXX, "-std=c++11", "-msse", "-O3", "-fPIC"]
# The oracle side is always compiled like this, whatever is under test.
ORACLE = [GXX, "-std=gnu++11", "-O2", "-ffp-contract=off", "-g0"]


class CheckError(Exception):
    """The check could not come to a verdict."""


def sh(cmd, cwd=None, env=None, timeout=1200, limit=False):
    if limit and shutil.which("prlimit"):
        # Code that never stops writing or allocating must not fill the machine. A sanitizer
        # reserves its shadow at once, so only the size of files is limited there.
        free = cmd[0] == "valgrind" or any(k.endswith("SAN_OPTIONS") for k in env or {})
        cmd = ["prlimit", "--core=0", "--fsize=%d" % (1 << 30)] + ([] if free else ["--data=%d" % (14 << 30)]) + ["--"] + list(cmd)
    e = dict(os.environ, LC_ALL="C", PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    for k in ("CFLAGS", "CXXFLAGS", "LDFLAGS", "LD_PRELOAD", "CPATH", "CPLUS_INCLUDE_PATH"):
        e.pop(k, None)
    if env:
        e.update(env)
    with tempfile.TemporaryFile() as out, tempfile.TemporaryFile() as err:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=out, stderr=err, stdin=subprocess.DEVNULL, timeout=timeout)
        text = []
        for f in (out, err):
            f.seek(0)
            text.append(f.read(256 << 20).decode("utf-8", "replace"))
    return p.returncode, text[0], text[1]


def sh_build(cmd, cwd=None):
    rc, out, err = sh(cmd, cwd=cwd)
    if rc != 0:
        raise CheckError("build command failed: %s\n%s" % (" ".join(cmd), err[-4000:]))


def parallel(jobs):
    """Run callables at once; the first exception is raised."""
    with ThreadPoolExecutor(max_workers=CORES) as ex:
        fs = [ex.submit(j) for j in jobs]
        return [f.result() for f in fs]


def cached_object(src, flags):
    """Object of a monitor source that does not depend on /repo, cached by content."""
    h = hashlib.sha256()
    for f in sorted(os.listdir(HARNESS)):
        if f.endswith(".h") or f == src:
            h.update(f.encode())
            with open(os.path.join(HARNESS, f), "rb") as fd:
                h.update(fd.read())
    h.update(" ".join(flags).encode())
    d = os.path.join(BUILD, "obj")
    os.makedirs(d, exist_ok=True)
    o = os.path.join(d, "%s-%s.o" % (src.replace(".", "_"), h.hexdigest()[:16]))
    if not os.path.exists(o):
        tmp = o + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
        sh_build(flags + ["-I" + HARNESS, "-c", os.path.join(HARNESS, src), "-o", tmp])
        os.replace(tmp, o)
    return o


NUM = re.compile(r"(?<![\w.])(0[xX][0-9a-fA-F]+|(?:\d+\.\d*|\.\d+|\d+)(?:[eE][+-]?\d+)?)")


def harvest_literals(paths):
    """Numeric literals of the code under test, and the whole numbers among them: inputs only, nothing is judged by them."""
    import struct
    vals, ints = set(), set()
    for p in paths:
        try:
            with open(p, errors="replace") as f:
                t = f.read()
        except OSError:
            continue
        t = re.sub(r"/\*.*?\*/", " ", t, flags=re.S)
        t = re.sub(r"//[^\n]*", " ", t)
        for m in NUM.findall(t):
            if m[:2] in ("0x", "0X"):
                v = int(m, 16)
                ints.add(v & ((1 << 64) - 1))
                if v < 1 << 32:
                    f = struct.unpack("<f", struct.pack("<I", v))[0]
                    vals.add(f)
                    vals.add(struct.unpack("<d", struct.pack("<Q", v << 32))[0])
                if v < 1 << 64:
                    vals.add(struct.unpack("<d", struct.pack("<Q", v))[0])
                vals.add(float(v & ((1 << 64) - 1)))
            else:
                v = float(m)
                vals.add(v)
                if v == int(v) if v == v and abs(v) < 1e19 else False:
                    n = int(m) if m.isdigit() else int(v)
                    ints.add(n & ((1 << 64) - 1))
                    if 2000 < n < 1 << 32:
                        vals.add(struct.unpack("<f", struct.pack("<I", n))[0])
                    if 1 << 32 <= n < 1 << 64:
                        vals.add(struct.unpack("<d", struct.pack("<Q", n))[0])
    return sorted(v for v in vals if v == v and abs(v) != float("inf")), sorted(ints)


class Check:
    def __init__(self, pid, tier, seed):
        self.id, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.dir = os.path.join(BUILD, pid)
        if os.path.isdir(self.dir):
            shutil.rmtree(self.dir)
        os.makedirs(self.dir)
        self.counts, self.cells, self.maxes, self.samples, self.viols = {}, {}, {}, [], []
        self.runs = []
        self.hung = None
        self.assumptions = []
        self.notes = {}
        self.rule = "distinct (entry point, sign, exponent, leading mantissa bits) cells reached"

    def path(self, *a):
        return os.path.join(self.dir, *a)

    # ---- building -------------------------------------------------------------------
    def generate(self, preload=False, sub="gen"):
        d = self.path(sub)
        os.makedirs(d, exist_ok=True)
        sh_build(["python3", "-B", os.path.join(REPO, "src/signatures_generator.py"), "-o", d] + (["-p"] if preload else []))
        return os.path.join(d, "vdtMath_signatures.cc")

    def literals(self, *dirs):
        files = [os.path.join(REPO, d, f) for d in ("include",) + dirs for f in sorted(os.listdir(os.path.join(REPO, d))) if f.endswith((".h", ".cpp"))]
        files.append(os.path.join(REPO, "src/signatures_generator.py"))
        v, n = harvest_literals(files)
        p = self.path("literals.txt")
        new = "%s.%d" % (p, threading.get_ident())
        with open(new, "w") as f:
            f.write("\n".join([repr(x) for x in v] + ["i%d" % x for x in n]))
        os.replace(new, p)
        self.notes["literals harvested as inputs"] = len(v)
        return p

    def library(self, name, flags):
        """Objects of the library under test for one configuration."""
        gen = self.path("gen", "vdtMath_signatures.cc")
        if not os.path.exists(gen):
            self.generate()
        o1, o2 = self.path(name + "-sig.o"), self.path(name + "-table.o")
        inc = ["-I" + os.path.join(REPO, "include"), "-I" + HARNESS]
        return [
            (lambda: sh_build(flags + inc + ["-c", gen, "-o", o1])),
            (lambda: sh_build(flags + inc + ["-c", os.path.join(HARNESS, "table.cpp"), "-o", o2])),
        ], [o1, o2]

    def monitor(self, name, sources, flags=DEFAULT, oracle=ORACLE, link=("-lquadmath", "-pthread"), linker=None):
        """Link monitor objects (oracle side) with the library built with `flags`."""
        jobs, objs = self.library(name, list(flags))
        mon = []
        def comp(src):
            mon.append(cached_object(src, list(oracle)))
        parallel(jobs + [(lambda s=s: comp(s)) for s in sources])
        exe = self.path(name)
        lk = linker or [flags[0]] + [f for f in flags if f.startswith("-fsanitize")]
        sh_build(lk + sorted(mon) + objs + ["-o", exe] + list(link))
        return exe

    def direct(self, name, source, flags, link=("-pthread",), diag=True, extra=()):
        """A monitor that includes headers of the library (diagnostic classes)."""
        exe = self.path(name)
        inc = ["-I" + os.path.join(REPO, "include"), "-I" + HARNESS]
        if diag:
            inc.insert(0, "-I" + os.path.join(REPO, "include/diagnostic"))
        sh_build(list(flags) + inc + [os.path.join(HARNESS, source)] + list(extra) + ["-o", exe] + list(link))
        return exe

    # ---- running --------------------------------------------------------------------
    def run(self, cmd, label=None, timeout=600, env=None, cwd=None, crash_key=None, ok=(0,)):
        """Run a monitor and take in what it observed. Returns (rc, stdout, stderr)."""
        label = label or os.path.basename(cmd[0])
        rc, out, err = self.tool(cmd, label, timeout=timeout, env=env, cwd=cwd)
        if rc is None:
            return None, "", ""
        done = False
        for line in out.splitlines():
            if not line.startswith('{"k":'):
                continue
            try:
                o = json.loads(line)
            except ValueError:
                continue
            k = o["k"]
            if k == "count":
                self.counts[o["name"]] = self.counts.get(o["name"], 0) + o["n"]
            elif k == "cell":
                self.cells[o["name"]] = self.cells.get(o["name"], 0) + o["n"]
            elif k == "max":
                if o["name"] not in self.maxes or self.maxes[o["name"]]["value"] < o["v"]:
                    self.maxes[o["name"]] = {"value": o["v"], "at": o["at"]}
            elif k == "sample":
                self.samples.append(o["text"])
            elif k == "viol":
                self.violation(o["key"], o["text"], "%s --replay=%s" % (" ".join(cmd), o["replay"]))
            elif k == "done":
                done = True
        self.runs.append(label)
        if rc not in ok:
            if rc < 0 and -rc in (signal.SIGSEGV, signal.SIGBUS, signal.SIGFPE, signal.SIGILL, signal.SIGABRT, signal.SIGTRAP, signal.SIGXFSZ):
                self.violation(crash_key or "crash " + label, "monitor of the running code was killed by %s: %s" %
                               (signal.Signals(-rc).name, (err or out)[-600:]), " ".join(cmd))
            else:
                raise CheckError("%s ended with %s\n%s\n%s" % (label, rc, out[-1500:], err[-1500:]))
        elif rc == 0 and not done:
            raise CheckError("%s did not run to its end\n%s\n%s" % (label, out[-1500:], err[-1500:]))
        return rc, out, err

    def tool(self, cmd, label, timeout=300, env=None, cwd=None):
        """Run a program twice if it does not end in time; a second time without an end is a violation."""
        if self.quick:
            timeout = min(timeout, 240)  # two runs and what came before fit into the time of a check
        for attempt in (1, 2):
            if self.hung and attempt == 1:
                raise CheckError("not run after %s hung: %s" % (self.hung, label))
            try:
                return sh(cmd, env=env, cwd=cwd, timeout=timeout, limit=True)
            except subprocess.TimeoutExpired:
                pass
        self.hung = label
        self.violation("hang " + label, "%s did not end within %d s in two runs" % (os.path.basename(cmd[0]), timeout), " ".join(cmd))
        return None, "", ""

    def count(self, name, n):
        self.counts[name] = self.counts.get(name, 0) + n

    def cell(self, name, n):
        self.cells[name] = self.cells.get(name, 0) + n

    def violation(self, key, text, replay):
        self.viols.append({"key": key, "text": text, "replay": replay})

    # ---- verdict --------------------------------------------------------------------
    def known(self):
        keys = []
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for line in f:
                m = re.match(r"known: property=(\S+) key=\"([^\"]+)\" (.*)", line.strip())
                if m and m.group(1) == self.id:
                    keys.append((m.group(2), m.group(3)))
        return keys

    def finish(self):
        known = self.known()
        seen, fresh = {}, []
        for v in self.viols:
            for key, text in known:
                if v["key"] == key:
                    seen[key] = text
                    break
            else:
                fresh.append(v)
        evals = sum(self.counts.values())
        distinct = sum(self.cells.values())
        if not self.viols and (evals == 0 or distinct == 0):
            raise CheckError("the monitors observed nothing")
        for key, text in known:
            if key in seen:
                print("KNOWN-FINDING: property=%s %s" % (self.id, text))
        ev = {
            "property": self.id, "tier": self.tier, "seed": self.seed, "level": "exploration",
            "coverage": {
                "evaluations": evals, "distinct_nontrivial": distinct, "rule": self.rule,
                "samples": self.samples[:40],
                "observed": dict(sorted(self.counts.items())),
                "distinct_by_class": dict(sorted(self.cells.items())),
                "extremes": dict(sorted(self.maxes.items())),
                "monitors_run": self.runs,
            },
            "wall_s": round(time.time() - self.t0, 2),
            "violations": [{"key": v["key"], "what": v["text"]} for v in fresh],
            "assumptions": self.assumptions,
            "known_findings_seen": sorted(seen),
            "notes": self.notes,
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", self.id + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)
        if not fresh:
            print("OK property=%s evaluations=%d distinct=%d wall=%.1fs" % (self.id, evals, distinct, time.time() - self.t0))
            return 0
        rd = os.path.join(VERIF, "replay")
        os.makedirs(rd, exist_ok=True)
        told = {}
        for n, v in enumerate(fresh):
            if v["key"] in told:
                continue
            told[v["key"]] = 1
            rp = os.path.join(rd, "%s-%d.txt" % (self.id, len(told)))
            with open(rp, "w") as f:
                f.write("property: %s\nkey: %s\nwhat: %s\nseed: %d tier: %s\nreplay: %s\n" %
                        (self.id, v["key"], v["text"], self.seed, self.tier, v["replay"]))
                for w in fresh:
                    if w is not v and w["key"] == v["key"]:
                        f.write("also: %s\n      %s\n" % (w["text"], w["replay"]))
            print("VIOLATION property=%s replay=%s" % (self.id, rp))
            print("  %s" % v["text"][:500])
            if len(told) >= 20:
                break
        return 1


def main(pid, fn):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    c = None
    try:
        c = Check(pid, tier, seed & 0x7fffffffffffffff)
        fn(c)
        return c.finish()
    except Exception as e:  # anything unexpected is an error of the check, not a verdict
        if not isinstance(e, CheckError):
            import traceback
            traceback.print_exc()
        print("CHECK-ERROR property=%s %s" % (pid, e if isinstance(e, CheckError) else repr(e)))
        known = [k for k, _ in c.known()] if c else []
        if c and any(v["key"] not in known for v in c.viols):
            return c.finish()  # what was observed before stays observed
        return 2

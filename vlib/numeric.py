"""C11-C18: special values, symmetries, purity, arrays, footprint, undefined behaviour, exceptions, builds."""
import re
from .core import *

THR = "--threads=%d" % CORES


def common(c, lits, chunks, stride=None):
    a = ["--seed=%d" % c.seed, "--chunks=%d" % chunks, THR]
    if lits:
        a.append("--lits=" + lits)
    if stride:
        a.append("--stride=%d" % stride)
    return a


def special(c):
    lits = c.literals()
    exe = c.monitor("special", ["special.cpp"])
    c.run([exe] + common(c, lits, 4000 if c.quick else 60000, 1), timeout=400 if c.quick else 5000)
    c.assumptions = ["default build: " + " ".join(DEFAULT)]


def landmarks(c):
    exe = c.monitor("land", ["land.cpp"])
    c.run([exe] + common(c, None, 4000 if c.quick else 400000, 61 if c.quick else 1), timeout=400 if c.quick else 5000)
    c.rule = "distinct landmark (function, argument) and distinct (sign, exponent, leading mantissa bits) of tiny arguments"
    c.assumptions = ["default build: " + " ".join(DEFAULT)]


def symmetry(c):
    lits = c.literals()
    exe = c.monitor("sym", ["sym.cpp"])
    c.run([exe] + common(c, lits, 2000 if c.quick else 20000, 4 if c.quick else 1), timeout=400 if c.quick else 5000)
    c.assumptions = ["default build: " + " ".join(DEFAULT)]


def long_arrays(c, mode):
    exe = c.monitor("huge", ["huge.cpp"])
    c.run([exe, "--mode=" + mode] + common(c, None, 1 if c.quick else 2), label="long arrays", timeout=200 if c.quick else 5000)


def arrays(c):
    lits = c.literals()
    try:
        exe = c.monitor("arr", ["arr.cpp"])
    except CheckError as e:
        missing = sorted(set(re.findall(r"undefined reference to `vdt::(\w+)\(", str(e))))
        if not missing:
            raise
        for m in missing:
            c.violation("missing " + m, "the array function %s is declared but not provided by the library" % m, str(e))
        return
    c.run([exe] + common(c, lits, 1000 if c.quick else 20000), timeout=400 if c.quick else 5000)
    long_arrays(c, "values")
    c.rule = "distinct (entry point, size class, relative alignment) shapes of calls"
    c.assumptions = ["default build: " + " ".join(DEFAULT)]


def cpu(*need):
    with open("/proc/cpuinfo") as f:
        m = re.search(r"^flags\s*:(.*)$", f.read(), re.M)
    have = set(m.group(1).split()) if m else set()
    return all(n in have for n in need)


def sanitizer_reports(c, err, tool, label, cmd):
    """Reports of a sanitizer on stderr become violations keyed by kind and function of /repo."""
    for rep in re.split(r"(?m)^=+\n|^(?==+\d+==)", err):
        m = re.search(r"(?:WARNING|ERROR): %s: ([^\n(]+)" % tool, rep)
        if not m:
            continue
        kind = re.sub(r" on (unknown )?address.*", "", m.group(1)).strip()
        fr = re.search(r"#\d+ (?:0x[0-9a-f]+ in )?(.*?) (%s/include/[^\s:]+|\S*vdtMath_signatures\.cc)(?::\d+)?" % re.escape(REPO), rep)
        where = re.sub(r"\(.*", "", fr.group(1)) if fr else "?"
        c.violation("%s in %s [%s]" % (kind, where, label), "%s reports %s: %s" % (tool, kind, rep[:900]), " ".join(cmd))


def footprint(c):
    q = c.quick
    cfgs = [("gcc", DEFAULT, 40), ("clang", [CLANGXX, "-std=c++11", "-O3", "-fPIC"], 12), ("O0", [GXX, "-std=c++11", "-O0"], 4)]
    if cpu("avx2", "fma"):
        cfgs.append(("avx2", [GXX, "-std=c++11", "-O3", "-mavx2", "-mfma"], 12))
    if cpu("avx512f"):
        cfgs.append(("avx512", [GXX, "-std=c++11", "-O3", "-mavx512f", "-mprefer-vector-width=512"], 12))
        cfgs.append(("clang-avx512", [CLANGXX, "-std=c++11", "-O3", "-mavx512f", "-mprefer-vector-width=512"], 12))
    jobs = []
    for name, flags, chunks in cfgs:
        exe = c.monitor("foot-" + name, ["foot.cpp"], flags=flags, linker=[GXX])
        for t in "df":
            cmd = [exe, "--only=" + t, "--cfg=" + name] + common(c, None, chunks if q else chunks * 20)
            jobs.append((lambda cmd=cmd, n=name, t=t: c.run(cmd, label="guard pages %s %s" % (n, t), timeout=400 if q else 5000)))
    asan = [GXX, "-std=c++11", "-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer"]
    exe = c.monitor("heap", ["foot.cpp"], flags=asan, linker=[GXX, "-fsanitize=address"])

    def heap():
        cmd = [exe, "--mode=heap", "--cfg=asan"] + common(c, None, 200 if q else 4000)
        rc, out, err = c.run(cmd, label="address sanitizer", env={"ASAN_OPTIONS": "exitcode=66:detect_leaks=0:abort_on_error=0"}, timeout=400 if q else 5000, ok=(0, 66))
        if rc == 66:
            sanitizer_reports(c, err, "AddressSanitizer", "asan", cmd)
    parallel(jobs + [heap])
    long_arrays(c, "footprint")
    c.rule = "distinct (entry point, size, placement against the guard pages) shapes of calls"
    c.notes["builds"] = [n for n, _, _ in cfgs] + ["asan"]


def purity(c):
    q = c.quick
    lits = c.literals()
    jobs, objs = c.library("lib", DEFAULT)
    parallel(jobs)
    so = c.path("libundertest.so")
    sh_build([GXX, "-shared"] + objs + ["-o", so, "-Wl,-z,now"])
    mon = cached_object("pure.cpp", ORACLE)
    exe = c.path("pure")
    sh_build([GXX, mon, "-o", exe, "-L" + c.dir, "-lundertest", "-Wl,-rpath," + c.dir, "-Wl,-z,now", "-lquadmath", "-pthread"])
    c.run([exe] + common(c, lits, 20000 if q else 300000), label="purity", timeout=400 if q else 5000)
    tsan = [GXX, "-std=gnu++11", "-O1", "-g", "-fsanitize=thread"]
    race = c.monitor("race", ["race.cpp"], flags=tsan, oracle=tsan, linker=[GXX, "-fsanitize=thread"])
    cmd = [race] + common(c, lits, 4000 if q else 60000)
    rc, out, err = c.run(cmd, label="thread sanitizer", env={"TSAN_OPTIONS": "exitcode=66:halt_on_error=0"}, timeout=400 if q else 5000, ok=(0, 66))
    if rc == 66:
        n = len(c.viols)
        sanitizer_reports(c, err, "ThreadSanitizer", "tsan", cmd)
        if len(c.viols) == n:
            raise CheckError("ThreadSanitizer failed without a report\n" + err[-2000:])
    c.rule = "distinct entry points, modes and thread counts in the workload"
    c.assumptions = ["default build for results and state; ThreadSanitizer build at -O1 for races"]


def exceptions(c):
    lits = c.literals()
    exe = c.monitor("fpe", ["fpe.cpp"], oracle=ORACLE + ["-frounding-math"])
    c.run([exe] + common(c, lits, 3000 if c.quick else 30000, 8 if c.quick else 1), timeout=400 if c.quick else 5000)
    c.assumptions = ["default build: " + " ".join(DEFAULT)]


ALL = "fast_exp,fast_log,fast_sin,fast_cos,fast_tan,fast_asin,fast_acos,fast_atan,fast_tanh,fast_isqrt,fast_approx_isqrt,fast_inv,fast_approx_inv,fast_atan2"
# name, flags, needed by the processor, whether the quick tier runs it in full (the others: fewer arguments)
CONFIGS = [
    ("gcc O0", [GXX, "-std=c++11", "-O0"], (), 1),
    ("gcc O1 c++14", [GXX, "-std=c++14", "-O1"], (), 0),
    ("gcc O2 c++17 sse4.2", [GXX, "-std=c++17", "-O2", "-msse4.2"], ("sse4_2",), 1),
    ("gcc O3 c++20 avx", [GXX, "-std=c++20", "-O3", "-mavx", "-DNDEBUG"], ("avx",), 0),
    ("gcc O3 avx2", [GXX, "-std=c++11", "-O3", "-mavx2"], ("avx2",), 0),
    ("gcc O3 avx2 fma", [GXX, "-std=c++11", "-O3", "-mavx2", "-mfma"], ("avx2", "fma"), 0),
    ("gcc O3 gnu++17 avx2 fma", [GXX, "-std=gnu++17", "-O3", "-mavx2", "-mfma"], ("avx2", "fma"), 1),
    ("gcc O3 avx512", [GXX, "-std=gnu++20", "-O3", "-mavx512f", "-mavx512dq", "-mfma", "-mprefer-vector-width=512"], ("avx512f", "avx512dq", "fma"), 1),
    ("gcc Os PIC", [GXX, "-std=c++11", "-Os", "-fPIC"], (), 1),
    ("gcc O3 native", [GXX, "-std=gnu++11", "-O3", "-march=native"], (), 0),
    ("clang O0", [CLANGXX, "-std=c++11", "-O0"], (), 0),
    ("clang O1", [CLANGXX, "-std=c++14", "-O1"], (), 0),
    ("clang O2 c++17", [CLANGXX, "-std=c++17", "-O2"], (), 1),
    ("clang O3 c++20 avx2", [CLANGXX, "-std=c++20", "-O3", "-mavx2"], ("avx2",), 0),
    ("clang O3 avx2 fma", [CLANGXX, "-std=c++11", "-O3", "-mavx2", "-mfma"], ("avx2", "fma"), 1),
    ("clang O3 avx512", [CLANGXX, "-std=c++20", "-O3", "-mavx512f", "-mavx512dq", "-mfma", "-mprefer-vector-width=512"], ("avx512f", "avx512dq", "fma"), 0),
    ("clang Os", [CLANGXX, "-std=c++11", "-Os"], (), 1),
    ("gcc O1 gnu++20 sse4.1", [GXX, "-std=gnu++20", "-O1", "-msse4.1"], ("sse4_1",), 0),
    ("gcc O2 gnu++14 avx fma PIC", [GXX, "-std=gnu++14", "-O2", "-mavx", "-mfma", "-fPIC"], ("avx", "fma"), 0),
    ("clang O0 gnu++20 PIC", [CLANGXX, "-std=gnu++20", "-O0", "-fPIC", "-DNDEBUG"], (), 0),
    ("clang O2 gnu++14 sse4.1", [CLANGXX, "-std=gnu++14", "-O2", "-msse4.1"], ("sse4_1",), 0),
    ("clang O3 gnu++17 avx", [CLANGXX, "-std=gnu++17", "-O3", "-mavx"], ("avx",), 0),
]


def configurations(c):
    q = c.quick
    lits = c.literals()
    cfgs = [x for x in CONFIGS if cpu(*x[2])]
    cached_object("acc.cpp", ORACLE)
    c.generate()
    exes = parallel([(lambda n=n, f=f: c.monitor("acc-" + n.replace(" ", "_").replace("+", "p"), ["acc.cpp"], flags=f, linker=[GXX])) for n, f, _, _ in cfgs])
    for (n, f, _, full), exe in zip(cfgs, exes):
        for form in ("scalar", "array"):
            cmd = [exe, "--id=" + ALL, "--form=" + form, "--cfg=%s %s" % (n, form), "--seed=%d" % (c.seed * 100 + len(c.runs)), "--chunks=%d" % (1500 if not q else 80 if full else 20),
                   "--stride=%d" % (16 if not q else 256 if full else 1024), THR, "--lits=" + lits]
            c.run(cmd, label="%s %s" % (n, form), timeout=300 if q else 3000)
    c.notes["builds"] = [n for n, _, _, _ in cfgs]
    c.rule = "distinct (build, entry point, sign, exponent, leading mantissa bits) cells reached"
    c.notes["builds not run"] = [x[0] for x in CONFIGS if x not in cfgs]


def undefined(c):
    from . import diag
    q = c.quick
    lits = c.literals()
    c.generate()
    ub = ["-O1", "-g", "-fsanitize=undefined,float-cast-overflow", "-fno-sanitize=vptr,float-divide-by-zero", "-fsanitize-recover=all"]
    msan = [CLANGXX, "-std=c++11", "-O1", "-g", "-fsanitize=memory", "-fno-omit-frame-pointer"]
    def build_msan():
        return c.monitor("msan", ["msan.cpp"], flags=msan, oracle=msan, link=())
    exes = parallel([lambda: c.monitor("ub-gcc", ["ub.cpp"], flags=[GXX, "-std=c++11"] + ub, linker=[GXX]),
                     lambda: c.monitor("ub-clang", ["ub.cpp"], flags=[CLANGXX, "-std=c++11"] + ub, linker=[GXX]), build_msan])
    for n, exe in zip(("gcc", "clang"), exes):
        c.run([exe] + common(c, lits, 3000 if q else 60000), label="undefined operations " + n, timeout=400 if q else 5000)
    cmd = [exes[2], "--seed=%d" % c.seed, "--chunks=%d" % (8000 if q else 200000)]
    rc, out, err = c.run(cmd, label="memory sanitizer", env={"MSAN_OPTIONS": "exit_code=66"}, timeout=400 if q else 5000, ok=(0, 66))
    if rc == 66:
        n = len(c.viols)
        sanitizer_reports(c, err, "MemorySanitizer", "msan", cmd)
        if len(c.viols) == n:
            raise CheckError("MemorySanitizer failed without a report\n" + err[-2000:])
    diag.sanitized(c)
    c.rule = "distinct (build, entry point, sign, exponent, leading mantissa bits) cells of the instrumented functions, and distinct situations of the diagnostic classes"


def modes(c):
    lits = c.literals()
    exe = c.monitor("mode", ["mode.cpp"], oracle=ORACLE + ["-frounding-math"])
    c.run([exe] + common(c, lits, 2500 if c.quick else 60000, 1021 if c.quick else 61), timeout=400 if c.quick else 5000)
    c.assumptions = ["default build: " + " ".join(DEFAULT), "modes set in the control register of the vector unit around the calls only"]


# Limits of the statement: instructions per evaluation, and per array call.
WORK_ONE, WORK_CALL = 250, 1000


def counted_parts(out, pattern):
    """(fields of the label, instructions) of every part of a workload counted by callgrind."""
    label = None
    with open(out) as f:
        for line in f:
            m = re.match("desc: Trigger: Client Request: " + pattern, line)
            if m:
                label = m.groups()
                continue
            m = re.match(r"(?:summary|totals): (\d+)", line)
            if m and label:
                yield label, int(m.group(1))
                label = None


def work(c):
    lits = c.literals()
    exe = c.monitor("work", ["work.cpp"])

    def count(seed, n):
        out = c.path("instructions-%d.txt" % n)
        cmd = ["valgrind", "-q", "--tool=callgrind", "--callgrind-out-file=" + out, "--combine-dumps=yes", "--instr-atstart=no", "--collect-atstart=no",
               exe, "--seed=%d" % seed, "--chunks=%d" % (60 if c.quick else 400), "--lits=" + lits]
        rc, _, err = c.run(cmd, label="instruction counts %d" % n, timeout=150 if c.quick else 1500)
        return cmd, out if rc == 0 else None
    runs = parallel([(lambda n=n: count(c.seed * 1000 + n, n)) for n in range(4 if c.quick else 16)])
    shapes, total = set(), 0
    for cmd, out in runs:
        if out is None:
            continue
        seen = 0
        for (kind, fn, n, arg), ir in counted_parts(out, r"([SA]) (\S+) (\d+) (.*)"):
            n, seen = int(n), seen + 1
            limit = WORK_ONE * n + (WORK_CALL if kind == "A" else 0)
            c.count("evaluations with counted instructions", max(n, 1))
            shapes.add((fn, n, ir))
            per = ir / max(n, 1)
            if n and (kind == "S" or n >= 64):
                k = "instructions per evaluation, " + fn
                if k not in c.maxes or c.maxes[k]["value"] < per:
                    c.maxes[k] = {"value": round(per, 1), "at": "%d evaluation(s), %s" % (n, arg)}
            if ir > limit:
                c.violation(fn, "%s executed %d instructions for %d argument(s) (%s), limit %d" % (fn, ir, n, arg, limit), " ".join(cmd))
        total += seen
    want = c.counts.get("labelled parts of the workload", 0)
    if total != want:
        raise CheckError("%d of %d parts of the workload were counted" % (total, want))
    c.cell("(function, size, instructions)", len(shapes))
    c.rule = "distinct (function, number of elements, number of instructions executed)"
    c.assumptions = ["default build: " + " ".join(DEFAULT), "instructions counted by callgrind on the real library code, libm included"]
    for k in sorted(c.maxes)[:6]:
        c.samples.append("%s: at most %s (%s)" % (k, c.maxes[k]["value"], c.maxes[k]["at"]))


# Builds whose loops are vectorised, and whether those of asin and acos are.
VECTOR = [
    ("gcc fast-math", [GXX, "-std=c++11", "-O3", "-mavx2", "-mfma", "-ffast-math"], True),
    ("gcc no-trapping-math", [GXX, "-std=c++11", "-O3", "-mavx2", "-mfma", "-fno-trapping-math"], False),
    ("clang fast-math", [CLANGXX, "-std=c++11", "-O3", "-mavx2", "-mfma", "-ffast-math"], True),
    ("clang", [CLANGXX, "-std=c++11", "-O3", "-mavx2", "-mfma"], False),
]
# Limits of the statement: instructions per element (double, float), and per call.
VEC_FULL, VEC_LIGHT, VEC_CALL = (22, 10), (9, 4), 1000


def vectorised(c):
    if not cpu("avx2", "fma"):
        raise CheckError("the processor has no AVX2 or no FMA")
    lits = c.literals()
    cached_object("vec.cpp", ORACLE)
    c.generate()

    def build(name, flags):
        jobs, objs = c.library(name, flags)
        objs.append(c.path(name + "-loops.o"))
        jobs.append(lambda: sh_build(flags + ["-I" + os.path.join(REPO, "include"), "-I" + HARNESS, "-c", os.path.join(HARNESS, "vec_loops.cpp"), "-o", objs[2]]))
        parallel(jobs)
        exe = c.path(name)
        sh_build([GXX, cached_object("vec.cpp", ORACLE)] + objs + ["-o", exe, "-lquadmath", "-pthread"])
        return exe

    def count(name, flags):
        exe = build("vec-" + name.replace(" ", "-"), flags)
        out = c.path("instructions-%s.txt" % name.replace(" ", "-"))
        cmd = ["valgrind", "-q", "--tool=callgrind", "--callgrind-out-file=" + out, "--combine-dumps=yes", "--instr-atstart=no", "--collect-atstart=no",
               exe, "--seed=%d" % c.seed, "--chunks=%d" % (6 if c.quick else 60), "--lits=" + lits]
        rc, _, err = c.run(cmd, label="vectorised " + name, timeout=200 if c.quick else 1500)
        return cmd, out if rc == 0 else None
    runs = parallel([(lambda n=n, f=f: count(n, f)) for n, f, _ in VECTOR])
    shapes, total = set(), 0
    for (name, _, whole), (cmd, out) in zip(VECTOR, runs):
        if out is None:
            continue
        for (fn, kind, prec, n, arg), ir in counted_parts(out, r"V (\S+) (\w+)-(\w+) (\d+) (.*)"):
            n, total = int(n), total + 1
            if kind == "branches" and not whole:
                c.count("parts without a limit", 1)
                continue
            c.count("elements computed by counted instructions", n)
            limit = (VEC_LIGHT if kind == "light" else VEC_FULL)[prec == "float"]
            how = arg.split("-")[0]
            shapes.add((name, fn, prec, how, round(ir / n, 1)))
            k = "instructions per element, %s %s, %s" % (fn, prec, name)
            if k not in c.maxes or c.maxes[k]["value"] < ir / n:
                c.maxes[k] = {"value": round(ir / n, 2), "at": "%d elements, %s" % (n, arg)}
            if ir > limit * n + VEC_CALL:
                c.violation("%s %s %s [%s]" % (fn, prec, how, name), "%s (%s, %s) executed %d instructions for %d elements, limit %d" % (fn, prec, arg, ir, n, limit * n + VEC_CALL), " ".join(cmd))
    want = c.counts.get("labelled parts of the workload", 0)
    if total != want:
        raise CheckError("%d of %d parts of the workload were counted" % (total, want))
    c.cell("(build, function, precision, kind of loop, instructions per element)", len(shapes))
    c.rule = "distinct (build, function, precision, kind of loop, instructions per element)"
    c.notes["builds"] = {n: " ".join(f) for n, f, _ in VECTOR}
    for k in sorted(c.maxes)[:6]:
        c.samples.append("%s: at most %s (%s)" % (k, c.maxes[k]["value"], c.maxes[k]["at"]))


FASTMATH = [
    ("gcc Ofast", [GXX, "-std=c++11", "-msse", "-Ofast"], (), 1),
    ("gcc O2", [GXX, "-std=c++17", "-O2", "-ffast-math"], (), 1),
    ("gcc Ofast avx2 fma", [GXX, "-std=c++11", "-Ofast", "-mavx2", "-mfma"], ("avx2", "fma"), 1),
    ("gcc Ofast native", [GXX, "-std=gnu++17", "-Ofast", "-march=native"], (), 0),
    ("gcc Ofast avx512", [GXX, "-std=gnu++20", "-Ofast", "-mavx512f", "-mavx512dq", "-mprefer-vector-width=512"], ("avx512f", "avx512dq"), 1),
    ("gcc Os", [GXX, "-std=c++11", "-Os", "-ffast-math"], (), 0),
    ("clang O3", [CLANGXX, "-std=c++11", "-O3", "-ffast-math"], (), 1),
    ("clang O2 avx2 fma", [CLANGXX, "-std=c++17", "-O2", "-ffast-math", "-mavx2", "-mfma"], ("avx2", "fma"), 1),
    ("clang O3 native", [CLANGXX, "-std=c++17", "-O3", "-ffast-math", "-march=native"], (), 0),
    ("gcc O0 c++20", [GXX, "-std=c++20", "-O0", "-ffast-math"], (), 0),
    ("gcc O1 c++14 sse4.1", [GXX, "-std=c++14", "-O1", "-ffast-math", "-msse4.1"], ("sse4_1",), 0),
    ("clang O0", [CLANGXX, "-std=c++20", "-O0", "-ffast-math"], (), 0),
    ("clang O1 avx", [CLANGXX, "-std=c++14", "-O1", "-ffast-math", "-mavx"], ("avx",), 0),
    ("clang Os", [CLANGXX, "-std=gnu++11", "-Os", "-ffast-math", "-DNDEBUG"], (), 0),
]


def fast_math(c):
    q = c.quick
    lits = c.literals()
    cfgs = [x for x in FASTMATH if cpu(*x[2])]
    cached_object("fastmath.cpp", ORACLE)
    c.generate()
    exes = parallel([(lambda n=n, f=f: c.monitor("fm-" + n.replace(" ", "_"), ["fastmath.cpp"], flags=f, linker=[GXX])) for n, f, _, _ in cfgs])
    for (n, f, _, full), exe in zip(cfgs, exes):
        c.run([exe] + common(c, lits, (2000 if full else 300) if q else 20000, (509 if full else 4093) if q else 31) + ["--cfg=" + n], label=n, timeout=300 if q else 5000)
    c.notes["builds"] = [n for n, _, _, _ in cfgs]
    c.notes["builds not run"] = [x[0] for x in FASTMATH if x not in cfgs]
    c.rule = "distinct (build, entry point, sign, exponent, leading mantissa bits) cells reached"

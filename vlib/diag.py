"""C22-C29: diagnostic classes, and the part of C16 that concerns them."""
import re
from .core import *

FLAGS = [GXX, "-std=gnu++11", "-O2", "-msse", "-w"]
THR = "--threads=%d" % CORES


def build(c, name="diag", flags=FLAGS, lib_flags=DEFAULT):
    jobs, objs = c.library(name + "-lib", list(lib_flags))
    parallel(jobs[:1])
    return c.direct(name, "diag.cpp", flags, link=("-lquadmath", "-pthread"), extra=objs[:1])


def args(c, mode, chunks, stride=None, threads=THR):
    d = c.path("files-" + mode)
    os.makedirs(d, exist_ok=True)
    return ["--mode=" + mode, "--seed=%d" % c.seed, "--chunks=%d" % chunks, "--dir=" + d, threads, "--lits=" + c.literals("include/diagnostic", "progs")] + (["--stride=%d" % stride] if stride else [])


#        chunks quick, thorough; stride quick, thorough
BOUNDS = {
    "C22": (4000, 100000, None, None), "C23": (3000, 30000, 16, 1), "C24": (1200, 15000, None, None), "C25": (600, 8000, None, None),
    "C26": (500, 6000, None, None), "C27": (3000, 40000, None, None), "C28": (2000, 40000, None, None), "C29": (1000, 10000, None, None),
    "C39": (400, 6000, None, None),
}
RULES = {
    "C22": "distinct (precision, bit difference, leading bits of both numbers)", "C23": "distinct (kind of value, leading bits)",
    "C24": "distinct (precision, size class, magnitude of the limits)", "C25": "distinct (precision, size class) and (precision, form)",
    "C26": "distinct (precision, size class, largest difference, distribution of differences)",
    "C27": "distinct (magnitude, carry) of timer readings and (precision, form, style of times, size class, repetition class) of measurements",
    "C28": "distinct sequences of argument kinds", "C29": "distinct table entries",
    "C39": "distinct (form of output, precision, size class) and instruction sets of builds",
}


def simple(c):
    exe = build(c)
    b = BOUNDS[c.id]
    cmd = [exe] + args(c, c.id, b[0] if c.quick else b[1], b[2] if c.quick else b[3])
    rc, out, err = c.run(cmd, label=c.id, timeout=400 if c.quick else 5000)
    c.rule = RULES[c.id]
    return exe, cmd, out


def pools(c):
    exe = build(c)
    b = BOUNDS[c.id]
    cmd = [exe] + args(c, c.id, b[0] if c.quick else b[1])
    # the same pools in two other processes
    others = []
    for i in range(2):
        d = c.path("files-other%d" % i)
        os.makedirs(d)
        others.append([a if not a.startswith("--dir=") else "--dir=" + d for a in cmd])
    limit = 400 if c.quick else 5000
    large = [exe] + args(c, "C24large", 1)
    res = parallel([lambda: c.run(cmd, label=c.id, timeout=limit)] +
                   [(lambda i=i: c.tool(others[i], "pools", timeout=limit, env={"VERIF_ANYTHING": "x" * (i * 1000 + 1)})) for i in range(2)] +
                   [lambda: c.run(large, label="C24 large pools", timeout=limit)])
    h = []
    for rc, out, err in res[:3]:
        m = re.search(r"^POOLHASH (\w+)$", out, re.M)
        h.append(m.group(1) if m else None)
    c.rule = RULES[c.id]
    for i in (1, 2):
        rc, out, err = res[i]
        if h[0] is None or rc is None:
            continue
        if rc != 0 or not h[i]:
            raise CheckError("second process ended with %s\n%s" % (rc, err[-1000:]))
        c.count("processes compared", 1)
        if h[i] != h[0]:
            c.violation("pools in another process", "the same limits, sizes and seeds gave other numbers in another process (%s, %s)" % (h[0], h[i]), " ".join(cmd))


SETS = [("SSE2", "sse2", ()), ("SSE3", "sse3", ("pni",)), ("SSE4.1", "sse4.1", ("sse4_1",)), ("AVX", "avx", ("avx",))]


def listings(c):
    from .numeric import cpu
    simple(c)
    src = c.path("sets.cpp")
    with open(src, "w") as f:
        f.write('#include "vdtdiag_helper.h"\nint main() { vdth::print_instructions_info(); return 0; }\n')
    for k in range(len(SETS)):
        if not cpu(*SETS[k][2]):
            continue
        exe = c.path("sets%d" % k)
        sh_build([GXX, "-std=c++11", "-O1", "-w", "-march=x86-64", "-m" + SETS[k][1], "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "include/diagnostic"), src, "-o", exe])
        rc, out, err = c.tool([exe], "instruction sets")
        got = re.findall(r"(\S+) instructions set (not )?enabled", out)
        want = [(n, "" if i <= k else "not ") for i, (n, _, _) in enumerate(SETS)]
        c.count("listings of instruction sets", 1)
        c.cell("instruction sets of builds", 1)
        if rc != 0 or got != want:
            c.violation("instruction sets", "a build for %s prints %r" % (SETS[k][0], out), exe)


# ---- sanitizers over the diagnostic classes (C16) ----------------------------------------
WORK = [("C22", 20, None), ("C23", 20, 65521), ("C24", 60, None), ("C25", 40, None), ("C26", 40, None), ("C27", 200, None), ("C28", 100, None), ("C29", 15, None), ("C39", 10, None), ("damaged", 400, None)]


def runtime_errors(c, err, label, cmd):
    n = 0
    for m in re.finditer(r"^(\S+?):(\d+):(\d+): runtime error: (.*)$", err, re.M):
        f, what = m.group(1), m.group(4)
        if f.startswith(HARNESS):
            raise CheckError("the monitor itself has undefined behaviour: " + m.group(0))
        n += 1
        kind = re.sub(r"(-?\d[\w.+-]*|0x[0-9a-f]+|nan|inf)", "N", what)[:80]
        c.violation("%s in %s [%s]" % (kind, os.path.basename(f), label), m.group(0)[:600], " ".join(cmd))
    return n


def frames(c, rep):
    fr = re.findall(r"(?:by|at|#\d+) 0x[0-9A-Fa-f]+:? (?:in )?(.*?) \(?(?:%s/(?:include|src|progs)/(?:\w+/)?)?(vdt\w+\.\w+|\w+\.h|\w+\.cpp)(?::\d+)" % re.escape(REPO), rep)
    for fn, f in fr:
        if f.startswith("vdt"):
            return re.sub(r"[<(].*", "", fn).split(" ")[-1] + " " + f
    return "?"


def sanitized(c):
    q = c.quick
    san = ["-O1", "-g", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize=vptr", "-fsanitize-recover=undefined", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"]
    exes = parallel([lambda: build(c, "diag-asan", [GXX, "-std=gnu++11", "-msse", "-w"] + san),
                     lambda: build(c, "diag-vg", [GXX, "-std=gnu++11", "-O1", "-g", "-msse", "-w"])])

    def asan(mode, chunks, stride):
        cmd = [exes[0]] + args(c, mode, chunks if q else chunks * 20, stride)
        rc, out, err = c.run(cmd, label="address+undefined sanitizer " + mode, timeout=600 if q else 5000, ok=(0, 66),
                             env={"ASAN_OPTIONS": "exitcode=66:detect_leaks=0:abort_on_error=0:hard_rss_limit_mb=8000", "UBSAN_OPTIONS": "print_stacktrace=0"})
        n = runtime_errors(c, err, "diagnostic", cmd) if err else 0
        if rc == 66:
            m = re.search(r"ERROR: AddressSanitizer: (\S+)", err)
            if not m:
                raise CheckError("AddressSanitizer failed without a report\n" + err[-2000:])
            c.violation("%s in %s" % (m.group(1), frames(c, err)), err[:1500], " ".join(cmd))

    def vg(mode, chunks, stride):
        d = c.path("vg-" + mode + ".log")
        cmd = ["valgrind", "-q", "--error-exitcode=66", "--log-file=" + d, exes[1]] + args(c, mode, chunks, stride, "--threads=1")
        cmd[-2] = cmd[-2].replace("files-", "files-vg-") if cmd[-2].startswith("--dir") else cmd[-2]
        for i, a in enumerate(cmd):
            if a.startswith("--dir="):
                cmd[i] = a.replace("files-", "files-vg-")
                os.makedirs(cmd[i][6:], exist_ok=True)
        rc, out, err = c.run(cmd, label="memcheck " + mode, timeout=800 if q else 5000, ok=(0, 66))
        if rc == 66:
            log = open(d, errors="replace").read()
            reps = re.split(r"(?m)^==\d+== $", log)
            for r in reps:
                m = re.search(r"==\d+== (\w[^\n]*)", r)
                if m and "at 0x" in r:
                    c.violation("%s in %s" % (re.sub(r"\d+", "N", m.group(1)), frames(c, r)), r[:1500], " ".join(cmd))
    jobs = [(lambda w=w: asan(*w)) for w in WORK]
    for m, n in (("C24", 6), ("C25", 6), ("C26", 6), ("C27", 6), ("C28", 10), ("damaged", 100)):
        jobs.append(lambda m=m, n=n: vg(m, n if q else n * 10, None))
    parallel(jobs)

"""C30, C31: the benchmark and comparison programs, end to end."""
import math, random, re, struct
from .core import *

FLAGS = [GXX, "-std=c++11", "-msse", "-O3", "-w"]


def build_programs(c, names, flags=FLAGS, tag=""):
    jobs, objs = c.library("prog-lib" + tag, DEFAULT)
    parallel(jobs[:1])
    inc = ["-I" + os.path.join(REPO, "include/diagnostic"), "-I" + os.path.join(REPO, "include")]
    def one(n):
        exe = c.path(n + tag)
        sh_build(list(flags) + inc + [os.path.join(REPO, "progs", n + ".cpp"), objs[0], "-o", exe])
        return exe
    return parallel([(lambda n=n: one(n)) for n in names])


def fval(double, u):
    return struct.unpack("<d", struct.pack("<Q", u))[0] if double else struct.unpack("<f", struct.pack("<I", u))[0]


def read_response(p):
    with open(p) as f:
        l = f.read().split("\n")
    rows = [[int(w, 16) for w in x.split()] for x in l[5:] if x.strip()]
    return l[1] == "Double Precision", l[2].split(" = ", 1)[1], rows


def close_dec(w, x, digits):
    try:
        v = float(w)
    except ValueError:
        return False
    return v == x or (v != v and x != x) or abs(v - x) <= 2 * 10.0 ** -digits


def judge_comparison(c, d, nick, ref, test, line):
    """One pair of response files: the file written for it and its line of the table."""
    dbl, fn, a = read_response(os.path.join(d, ref))
    _, _, b = read_response(os.path.join(d, test))
    name = fn.split("_", 1)[1] if "_" in fn else fn
    K = "comparison " + fn
    diffs = [abs(x[-1] - y[-1]).bit_length() for x, y in zip(a, b)]
    n = len(diffs)
    mx, mn, mean = max(diffs), min(diffs), sum(diffs) / n
    rms = -1.0 if n == 1 else (sum(x * x for x in diffs) - sum(diffs) ** 2 / n) / (n - 1)
    label = "%s %s VS %s" % (name, ref.split("__")[0], test.split("__")[0])
    tol = 1e-9 * (1 + mx * mx)
    # table line
    c.count("table lines", 1)
    w = line[len(label):].split() if line.startswith(label) else []
    if len(w) != 4 or w[0] != str(mx) or w[1] != str(mn) or abs(float(w[2]) - mean) > 0.0051 or abs(float(w[3]) - rms) > 0.0051 or not all(re.match(r"-?\d+\.\d\d$", x) for x in w[2:]):
        c.violation(K + " table", "line %r for %s: max %d min %d mean %.4f RMS %.4f" % (line, label, mx, mn, mean, rms), ref + " " + test)
    p = os.path.join(d, "comparison__%s__%s.txt" % (nick, name))
    if not os.path.exists(p):
        c.violation(K + " file", "no file " + p, ref + " " + test)
        return
    with open(p) as f:
        l = f.read().rstrip("\n").split("\n")
    if len(l) != n + 6 or l[1] != ("Double Precision" if dbl else "Single Precision") or not l[2].endswith(label):
        c.violation(K + " file", "%s has %d lines for %d rows, or a wrong header (%r, %r)" % (p, len(l), n, l[1:2], l[2:3]), p)
        return
    s = l[5].split()
    ok = len(s) == 4 and s[0] == str(mx) and s[1] == str(mn)
    if ok:
        m, r = fval(True, int(s[2], 16)), fval(True, int(s[3], 16))
        ok = abs(m - mean) <= tol and abs(r - rms) <= tol
    if not ok:
        c.violation(K + " statistics", "%s: %r, expected %d %d %.6f %.6f" % (p, l[5], mx, mn, mean, rms), p)
    digits = 15 if dbl else 6
    for i in range(n):
        s = l[i + 6].split()
        k = len(a[i]) - 1
        want = [a[i][j] for j in range(k)] + [a[i][-1], b[i][-1]]
        c.counts["comparison rows"] = c.counts.get("comparison rows", 0) + 1
        try:
            good = len(s) == 2 * k + 3 and [int(x, 16) for x in s[:k + 2]] == want and s[k + 2] == str(diffs[i]) and all(close_dec(s[k + 3 + j], fval(dbl, a[i][j]), digits) for j in range(k))
        except ValueError:
            good = False
        if not good:
            c.violation(K + " rows", "%s row %d is %r" % (p, i, l[i + 6]), p)
            return
    c.cell("files compared", 1)
    if len(c.samples) < 30:
        c.samples.append(line)
    os.remove(p)


BASE = ["Exp", "Log", "Sin", "Cos", "Tan", "Tanh", "Asin", "Acos", "Atan", "Isqrt", "Identity"]
FORMS = ["", "v", "f", "fv"]


def programs(c):
    q = c.quick
    rnd = random.Random(c.seed)
    bench, comp = build_programs(c, ["vdtArithmBenchmark", "vdtArithmComparison"])
    judge = c.monitor("prog", ["prog.cpp"])
    sizes = [1, 2, rnd.randrange(3, 100), rnd.randrange(500, 1500), rnd.randrange(65536, 70000)] + ([] if q else [50000, rnd.randrange(2000, 9000)])
    d = c.path("run")
    os.makedirs(d)
    runs = []
    for i, s in enumerate(sizes):
        nick = "run%d%s" % (i, "Atan2" if i == 1 else rnd.choice(["", "-x", "_b", ".c", "+d", "Atan2f", "_Fast_x"]))  # names of functions as well
        cmd = [bench, "-n=" + nick] + ([] if s == 50000 else ["-s=%d" % s])
        if i % 2:
            cmd = [bench, "--size=%d" % s, "--nick=" + nick]
        if i == 2:  # the files of an earlier run with this nickname are replaced
            rc, out, err = c.tool([bench, "-n=" + nick, "-s=%d" % rnd.randrange(s, 2 * s)], "vdtArithmBenchmark", cwd=d)
        rc, out, err = c.tool(cmd, "vdtArithmBenchmark", cwd=d)
        c.count("program runs", 1)
        if rc != 0:
            c.violation("benchmark exit", "%s ended with %s: %s" % (" ".join(cmd), rc, err[-300:]), " ".join(cmd))
            continue
        c.run([judge, "--dir=" + d, "--only=" + nick, "--chunks=%d" % s], label="benchmark size %d" % s)
        runs.append((nick, s))
    out_name = lambda pair: re.sub(r"^[^_]*_", "", pair[0].split("__")[1])
    for j, (nick, s) in enumerate(runs):
        r = lambda n, k=nick: "%s__%s__response.txt" % (k, n)
        pairs = []
        for f in FORMS:
            for b in BASE[:-1]:
                pairs.append((r(b + f), r("Fast_" + b + f)))
            pairs.append((r("Inverse" + f), r("Fast_Inv" + f)))
            pairs.append((r("Fast_Isqrt" + f), r("Fast_Apr_Isqrt" + f)))
            pairs.append((r("Fast_Apr_Isqrt" + f), r("Isqrt" + f)))
            pairs.append((r("Fast_Apr_Inv" + f), r("Fast_Inv" + f)))
            b = rnd.choice(BASE[:-1])
            pairs.append((r("Fast_" + b + f), r(b + f)))
            pairs.append((r("Atan2" + f), r("Fast_Atan2" + f)))
            pairs.append((r("Fast_Atan2" + f), r("Atan2" + f)))
            pairs.append((r("Identity" + f), r("Identity" + f)))
        rnd.shuffle(pairs)
        if s > 20000:
            pairs = pairs[:4]
        k, lists = 0, 0
        while k < len(pairs):
            # a list in which every output name is different; lists of one and two pairs first
            part, names = [], set()
            limit = lists // 2 + 1 if lists < 4 else rnd.randrange(1, 20)
            if lists == 4:  # and one with all names
                limit = len(pairs)
                rest = pairs[k:]
                first = [x for i, x in enumerate(rest) if not any(out_name(y) == out_name(x) for y in rest[:i])]
                pairs[k:] = first + [x for x in rest if x not in first]
            lists += 1
            while k < len(pairs) and len(part) < limit:
                m = out_name(pairs[k])
                if m in names:
                    break
                names.add(m)
                part.append(pairs[k])
                k += 1
            for g in range(rnd.randrange(0, 3) if lists > 2 else 0):  # missing files in either list
                at = rnd.randrange(len(part) + 1)
                miss = rnd.choice([("nofile%d.txt" % g, part[0][1]), (part[0][0], "nofile%d.txt" % g)])
                part.insert(at, miss)
            nick2 = "cmp%d" % k
            cmd = [comp, "-n=" + nick2, "-R=" + ",".join(p[0] for p in part), "-T=" + ",".join(p[1] for p in part)]
            if k % 2:
                cmd = [comp, "--test=" + ",".join(p[1] for p in part), "--reference=" + ",".join(p[0] for p in part), "--nick=" + nick2]
            with open(os.path.join(d, "comparison__%s__%s.txt" % (nick2, out_name(rnd.choice([x for x in part if "nofile" not in x[0] + x[1]])))), "w") as f:
                f.write("contents of an earlier file\n" * 3000)
            rc, out, err = c.tool(cmd, "vdtArithmComparison", cwd=d)
            c.count("program runs", 1)
            lines = out.split("\n")
            if lines and lines[-1] == "":
                lines.pop()
            if rc != 0 or len(lines) != len(part) + 1:
                c.violation("comparison output", "%s ended with %s and %d lines for %d pairs: %s" % (" ".join(cmd)[:300], rc, len(lines), len(part), out[:300]), " ".join(cmd))
                continue
            for (a, b), l in zip(part, lines[1:]):
                if "nofile" in a or "nofile" in b:
                    c.count("missing files", 1)
                    m = a if "nofile" in a else b
                    if m not in l or "skip" not in l.lower():
                        c.violation("missing file message", "for missing %s the program prints %r" % (m, l), " ".join(cmd))
                else:
                    judge_comparison(c, d, nick2, a, b, l)
    # runs that must fail
    x, y = "a__Exp__response.txt", "b__Exp__response.txt"
    if runs:
        x, y = ("%s__Exp__response.txt" % runs[0][0], "%s__Fast_Exp__response.txt" % runs[0][0])
    for args in (["-n=z", "-R=" + x], ["-n=z", "-T=" + x], ["-n=z", "-R=%s,%s" % (x, y), "-T=" + x], ["-n=z", "-R=" + x, "-T=%s,%s" % (x, y)], ["-n=z"], ["-n=z", "-R=", "-T=" + x],
                 ["-n=z", "-R=" + x, "-T="]):
        rc, out, err = c.tool([comp] + args, "vdtArithmComparison", cwd=d)
        c.count("program runs", 1)
        c.cell("kinds of failing command lines", 1)
        if rc is None or rc == 0 or rc < 0:
            c.violation("comparison must fail", "%s ended with %s" % (" ".join(args), rc), " ".join(args))
        if os.path.exists(os.path.join(d, "comparison__z__Exp.txt")):
            c.violation("comparison must fail", "%s wrote a comparison" % " ".join(args), " ".join(args))
            os.remove(os.path.join(d, "comparison__z__Exp.txt"))
    shutil.rmtree(d)
    c.rule = "distinct response files and comparisons judged, and kinds of failing command lines"
    c.notes["sizes"] = sizes


# ---- C31 --------------------------------------------------------------------------------
ONE = ["Identity", "Exp", "Log", "Sin", "Cos", "Tan", "Tanh", "Asin", "Acos", "Atan", "Isqrt", "Inverse", "Fast_Exp", "Fast_Log", "Fast_Sin", "Fast_Cos", "Fast_Tan", "Fast_Tanh",
       "Fast_Asin", "Fast_Acos", "Fast_Atan", "Fast_Isqrt", "Fast_Inv", "Fast_Apr_Isqrt", "Fast_Apr_Inv"]
TWO = ["Identity2D", "Atan2", "Fast_Atan2"]
PATTERNS = [None, ".*", "Fast_.*", ".*fv", "Sin", "Fast_Sinfv", "(Exp|Log)f?v?", ".*Atan2.*", "Nothing", "Fast_(Apr_)?Inv.*", "[A-Z][a-z]+", ".*[^fv]", "I.*", "Fast", "sin", ".*Isqrt", "Identity2D.*"]


def performance(c):
    q = c.quick
    rnd = random.Random(c.seed)
    so = c.path("libclock.so")
    def clock():
        sh_build(["gcc", "-O1", "-shared", "-fPIC", os.path.join(HARNESS, "clock_preload.c"), "-o", so])
    def prog():
        return build_programs(c, ["vdtPerfBenchmark"])[0]
    exe = parallel([prog, clock])[0]
    names = [n + f for f in FORMS for n in ONE + TWO]
    d = c.path("run")
    os.makedirs(d)
    reps = 1 if q else 8
    # repetitions and sizes beyond 8 and 16 bits for patterns that match few functions
    big = {"Fast_Sinfv": (rnd.randrange(2, 50), rnd.randrange(66000, 90000)), "Sin": (rnd.randrange(66000, 150000), rnd.randrange(1, 4)), "(Exp|Log)f?v?": (rnd.randrange(2, 40), rnd.randrange(257, 3000)), "Fast_(Apr_)?Inv.*": (rnd.randrange(66000, 150000), 2)}
    for it in range(reps):
        for pat in PATTERNS:
            if pat in big:
                size, r = big[pat]
            else:
                size, r = rnd.choice([2, 3, 10, rnd.randrange(4, 60), rnd.randrange(60, 800)]), rnd.choice([1, 2, 10, rnd.randrange(1, 30)])
            step = rnd.choice([1, 999, 1000, 123457, 1000000007, rnd.randrange(1, 10 ** 9), rnd.randrange(3 * 10 ** 9, 2 * 10 ** 10)])
            if pat in big:  # large enough to show in the printed error
                step = step * 1000 + 1000000
            nick = "p%d%s" % (it, rnd.choice(["", "_x", "-y", ".z"]))
            args = [["-n=" + nick, "-s=%d" % size, "-r=%d" % r], ["--nick=" + nick, "--size=%d" % size, "--repetitions=%d" % r]][rnd.randrange(2)]
            if pat is not None:
                args.append(rnd.choice(["-p=", "--pattern="]) + pat)
            if rnd.randrange(2):
                args += ["-m=%g" % -rnd.uniform(1, 5000), "-M=%g" % rnd.uniform(1, 5000)]
            rnd.shuffle(args)
            if rnd.randrange(2):  # the file of an earlier run
                with open(os.path.join(d, nick + "__performance_benchmark.txt"), "w") as f:
                    f.write("Function Exp          : 1.00 +- 1.00 ns\n" * 200)
            rc, out, err = c.tool([exe] + args, "vdtPerfBenchmark", cwd=d, env={"LD_PRELOAD": so, "VMON_CLOCK_STEP": str(step)})
            c.count("program runs", 1)
            what = " ".join(args) + " step %d" % step
            if rc != 0:
                c.violation("exit", "vdtPerfBenchmark %s ended with %s: %s" % (what, rc, err[-300:]), what)
                continue
            want = [n for n in names if re.fullmatch(pat or ".*", n)]
            c.cell("distinct (pattern, size, repetitions) runs", 1)
            p = os.path.join(d, nick + "__performance_benchmark.txt")
            if not os.path.exists(p):
                c.violation("file", "no file %s" % p, what)
                continue
            with open(p) as f:
                lines = [l for l in f.read().split("\n") if l]
            os.remove(p)
            shown = [l for l in out.split("\n") if l.startswith("Function ")]
            if shown != lines:
                c.violation("file and output", "%s: file and standard output differ: %r" % (what, [x for x in zip(shown, lines) if x[0] != x[1]][:2] or (len(shown), len(lines))), what)
            got = []
            N = size * r
            avg = step / size
            e2 = (r * step * step - step * step * r / size) / (N - 1) / N
            err_ns = math.sqrt(e2)
            if lines:
                c.samples.append("%s: %s" % (what, lines[0]))
            for l in lines:
                m = re.match(r"Function (\S+)\s*: (\S+) \+- (\S+) ns\s*$", l)
                if not m:
                    c.violation("line", "%s: line %r" % (what, l), what)
                    break
                got.append(m.group(1))
                c.count("measurement lines", 1)
                dbl = "f" not in m.group(1)[-2:]
                rel = 1e-9 if dbl else 1e-6
                if abs(float(m.group(2)) - avg) > 0.0051 + rel * avg or abs(float(m.group(3)) - err_ns) > 0.0051 + 100 * rel * err_ns:
                    c.violation("times", "%s: line %r, expected %.3f +- %.3f" % (what, l, avg, err_ns), what)
                    break
            if sorted(got) != sorted(want):
                c.violation("functions", "%s: measured %d functions, expected %d; missing %s, unexpected %s" % (what, len(got), len(want), sorted(set(want) - set(got))[:5], sorted(set(got) - set(want))[:5]), what)
    # command lines that measure nothing
    for args in (["-s=10"], ["-n=a", "-x"], ["-h"], ["-n=a", "-n=b"]):
        rc, out, err = c.tool([exe] + args, "vdtPerfBenchmark", cwd=d, env={"LD_PRELOAD": so})
        c.count("program runs", 1)
        if os.listdir(d) or "Function " in out:
            c.violation("nothing to measure", "vdtPerfBenchmark %s measured something" % " ".join(args), " ".join(args))
    shutil.rmtree(d)
    c.rule = "distinct (pattern, size, repetitions, clock step) runs of the program"

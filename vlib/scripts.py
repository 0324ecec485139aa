"""C40-C42: the Python side: result tables, histograms, the ctypes module."""
import json, math, random, re, sys
from .core import *
from .programs import build_programs, read_response, fval, FORMS

PY = [sys.executable, "-B"]


def script(n):
    return os.path.join(REPO, "scripts", n)


# ---- C40 --------------------------------------------------------------------------------
def measured_names(c):
    """The functions in the order in which the real program lists them."""
    exe = build_programs(c, ["vdtPerfBenchmark"])[0]
    d = c.path("perf")
    os.makedirs(d)
    rc, out, err = c.tool([exe, "-n=real", "-s=50", "-r=2"], "vdtPerfBenchmark", cwd=d)
    p = os.path.join(d, "real__performance_benchmark.txt")
    if rc != 0 or not os.path.exists(p):
        raise CheckError("vdtPerfBenchmark ended with %s: %s" % (rc, err[-500:]))
    with open(p) as f:
        lines = [l for l in f.read().split("\n") if l.strip()]
    return p, lines


def write_perf(p, lines, rnd, keep, style, drop):
    """A performance file with the lines of a real one and other numbers; what it says as a list."""
    vals = []
    with open(p, "w") as f:
        last = 0
        for l in lines:
            n = l.split()[1]
            if "Identity" not in n and re.sub(r"^Fast_(Apr_)?", "", re.sub(r"(f|v|fv)$", "", n)) not in keep and n not in keep:
                continue
            if n in drop:
                continue
            t = {0: rnd.uniform(0, 50), 1: rnd.uniform(0, 3), 2: 10 ** rnd.uniform(-2, 6), 3: rnd.choice([0, 1, 1.5, 2])}[style]
            if "Identity" in n:
                t = {0: rnd.uniform(0, 2), 1: rnd.uniform(0, 2), 2: rnd.uniform(0, 100), 3: rnd.choice([0, 1])}[style]
            elif rnd.random() < .05:
                t = last
            e = rnd.choice([0, rnd.uniform(0, 1), rnd.uniform(0, 30)])
            ts, es = "%.2f" % t, "%.2f" % e
            if "Identity" in n:
                last = float(ts)
            m = re.match(r"(Function\s+\S+\s*: )\S+( \+- )\S+( ns.*)", l)
            if not m:
                raise CheckError("line %r" % l)
            f.write(m.group(1) + ts + m.group(2) + es + m.group(3) + "\n")
            vals.append((n, float(ts), float(es)))
    return vals


def normalised(vals):
    r, off = [], (0.0, 0.0)
    for n, t, e in vals:
        if "Identity" in n:
            off = (t, e)
        else:
            r.append((n, t - off[0], math.sqrt(e * e + off[1] * off[1])))
    return r


def near(word, x, digits):
    if not re.match(r"-?\d+\.\d{%d}$" % digits, word):
        return False
    return abs(float(word) - x) <= 0.5001 * 10.0 ** -digits + 1e-9 * abs(x)


def ratio(a, b):
    return a / (b if b != 0 else 1.0)


def want_tables(files, opts):
    """Expected rows: lists of (title words or row cells); a cell is a name or (value, digits)."""
    rows = []
    if "-s" in opts:
        rows.append(["Function", "Name"] + [t for t, _ in files])
        ds = [{n: (t, e) for n, t, e in v} for _, v in files]
        for n, t, e in files[0][1]:
            if any(n not in d for d in ds):
                continue
            r = [n, (t, 2), "+-", (e, 2)]
            for d in ds[1:]:
                r += [(d[n][0], 2), "+-", (d[n][1], 2), (ratio(t, d[n][0]), 1)]
            rows.append(r)
    if "-v" in opts:
        rows.append(["Function", "Name", files[0][0]] + [x for t, _ in files for x in (t, "vect.")])
        ds = [{n: (t, e) for n, t, e in v} for _, v in files]
        for n, t, e in files[0][1]:
            if any(n + "v" not in d for d in ds):
                continue
            r = [n, (t, 2), "+-", (e, 2)]
            for d in ds:
                a = d[n + "v"]
                r += [(a[0], 2), "+-", (a[1], 2), (ratio(t, a[0]), 1)]
            rows.append(r)
    if "-l" in opts:
        for title, v in files:
            d = {n: (t, e) for n, t, e in v}
            rows.append(["---", title])
            rows.append(["Function", "Name", "Libm", "VDT"])
            for n, t, e in v:
                if n.startswith("Fast_") or n.endswith("v") or "Identity" in n:
                    continue
                f = d.get("Fast_" + n.replace("Inverse", "Inv"))
                if not f:
                    continue
                rows.append([n, (t, 2), "+-", (e, 2), (f[0], 2), "+-", (f[1], 2), (ratio(t, f[0]), 1)])
    return rows


def judge_line(line, want):
    if want[0] == "---":
        return want[1] in line.split()
    w = [x for x in re.sub(r"(\d) ?X(?=\s|$)", r"\1", line).split()]
    if len(w) != len(want):
        return False
    return all(near(a, b[0], b[1]) if isinstance(b, tuple) else a == b for a, b in zip(w, want))


def tables(c):
    q = c.quick
    rnd = random.Random(c.seed)
    real, lines = measured_names(c)
    d = c.path("run")
    os.makedirs(d)
    base = sorted({re.sub(r"^Fast_(Apr_)?", "", re.sub(r"(f|v|fv)$", "", l.split()[1])) for l in lines})
    groups = [b for b in base if b not in ("Inv", "Inverse", "In") and not b.startswith("Identity")]
    inverse = [l.split()[1] for l in lines if "Inv" in l.split()[1]]
    all_names = [l.split()[1] for l in lines]
    seen = set()
    for it in range(80 if q else 800):
        keep = set(groups) | set(inverse)
        if it % 3 == 2:
            keep = set(rnd.sample(groups, rnd.randrange(1, len(groups)))) | (set(inverse) if rnd.randrange(2) else set())
        nf = rnd.randrange(1, 5)
        names, vals = [], []
        sub = rnd.choice(["", "", "data/"])
        if sub:
            os.makedirs(os.path.join(d, sub), exist_ok=True)
        for i in range(nf):
            nick = sub + "n%d%s" % (i, rnd.choice(["", "_a", "-b", ".c", "gcc4.7_O2"]))
            p = nick + "__performance_benchmark.txt"
            if it == 0 and i == 0:
                shutil.copy(real, os.path.join(d, p))
                v = [(l.split()[1], float(l.split()[3]), float(l.split()[5])) for l in lines]
            else:
                drop = set()
                if it % 4 == 3:  # as after runs with different patterns: files that lack some functions or the identities
                    drop = {x for x in all_names if rnd.randrange(rnd.choice([3, 10, 40])) == 0}
                    if rnd.randrange(3) == 0:
                        drop |= {x for x in all_names if "Identity" in x}
                    if rnd.randrange(3) == 0:
                        drop |= {x for x in all_names if x.startswith("Fast_")}
                v = write_perf(os.path.join(d, p), lines, rnd, keep, (it + i) % 4, drop)
            names.append(p)
            vals.append((nick, v))
        opts = [o for o in ("-s", "-v", "-l") if rnd.randrange(3) == 0] or [("-s", "-v", "-l")[it % 3]]
        if it == 1:
            opts = []
        norm = rnd.randrange(3) != 0
        args = names + opts + ([] if norm else ["--no-normalise"])
        if rnd.randrange(2):
            args = opts + ([] if norm else ["--no-normalise"]) + names
        what = "tabulateVDTResults.py " + " ".join(args)
        rc, out, err = c.tool(PY + [script("tabulateVDTResults.py")] + args, "tabulateVDTResults.py", cwd=d)
        c.count("program runs", 1)
        if rc is None:
            continue
        if rc != 0:
            c.violation("exit " + "".join(opts), "%s ended with %s: %s" % (what, rc, err[-400:]), what)
            continue
        want = want_tables([(t, normalised(v) if norm else v) for t, v in vals], opts)
        got = [l for l in out.split("\n") if l.strip()]
        c.count("table lines", len(got))
        key = (tuple(opts), norm, nf, len(want))
        if key not in seen:
            seen.add(key)
            c.cell("distinct (tables, normalisation, files, rows)", 1)
        if len(got) != len(want):
            c.violation("rows " + "".join(opts), "%s prints %d lines, expected %d; first difference near %r" %
                        (what, len(got), len(want), next((x for x, y in zip(got, want) if not judge_line(x, y)), None)), what)
            continue
        for g, w in zip(got, want):
            if not judge_line(g, w):
                c.violation("row " + "".join(opts), "%s (%s): line %r, expected %s" % (what, "normalised" if norm else "as measured", g, w), what)
                break
        if it < 20 and len(got) > 2:
            c.samples.append("%s: %s" % (what, got[2]))
    shutil.rmtree(d)
    c.rule = "distinct (tables asked for, normalisation, number of files, number of rows)"


# ---- C41 --------------------------------------------------------------------------------
ACCURACY = ["Acos", "Asin", "Atan", "Atan2", "Cos", "Exp", "Isqrt", "Log", "Sin", "Tan", "Tanh"]


def axis(name):
    if "Asin" in name or "Acos" in name:
        return -1, 1
    if "Log" in name or "Isqrt" in name:
        return 0, 5000
    if "Exp" in name:
        return (-85, 85) if "Expf" in name else (-705, 705)
    return -5000, 5000


def disturb(p, rnd):
    """Other results in a response file: any number of differing bits."""
    with open(p) as f:
        l = f.read().split("\n")
    dbl = l[1] == "Double Precision"
    w = 64 if dbl else 32
    for i in range(5, len(l)):
        x = l[i].split()
        if not x or rnd.random() < .3:
            continue
        k = rnd.randrange(w)
        v = int(x[-1], 16) ^ rnd.randrange(1 << k, 2 << k)
        x[-1] = "0x%0*x" % (w // 4, v)
        l[i] = " ".join(x) + " "
    with open(p, "w") as f:
        f.write("\n".join(l))


def histograms(c):
    q = c.quick
    rnd = random.Random(c.seed)
    bench, comp = build_programs(c, ["vdtArithmBenchmark", "vdtArithmComparison"])
    fns = [n + f for n in ACCURACY for f in FORMS]
    d0 = c.path("run")
    os.makedirs(d0)
    seen = set()
    for it, size in enumerate([1, rnd.randrange(2, 40), rnd.randrange(50, 400)] + ([] if q else [3000, rnd.randrange(2, 900), 70000])):
        d = os.path.join(d0, "resp%d" % it)
        os.makedirs(d)
        nick = "n%d%s" % (it, ["", "_a", "-b", ".c", "Expf", "Log", "+d", "Atan2"][(it + c.seed) % 8] if it != 1 else rnd.choice(["gcc+fast", "g++", "a+b.c"]))
        for k in (nick, nick + "x"):  # a second run whose nickname begins with that of the first
            rc, out, err = c.tool([bench, "-n=" + k, "-s=%d" % size], "vdtArithmBenchmark", cwd=d)
            if rc != 0:
                raise CheckError("vdtArithmBenchmark ended with %s: %s" % (rc, err[-500:]))
        for f in sorted(os.listdir(d)):
            if "__Fast_" in f and it:
                disturb(os.path.join(d, f), rnd)
        for k in (nick, nick + "x"):
            rc, out, err = c.tool(PY + [script("checkAccuracy.py"), k], "checkAccuracy.py", cwd=d)
            c.count("program runs", 1)
            if rc != 0:
                c.violation("accuracy exit", "checkAccuracy.py %s ended with %s: %s" % (k, rc, err[-400:]), k)
                return
            if len(out.strip().split("\n")) != 1:
                c.violation("accuracy line", "checkAccuracy.py %s prints %r" % (k, out[:300]), k)
                return
            rc, out, err = c.tool(["bash", "-c", out], "printed command", cwd=d, env={"PATH": os.path.dirname(comp) + ":/usr/bin:/bin"})
            c.count("program runs", 1)
            rows = out.rstrip("\n").split("\n")[1:]
            if rc != 0 or len(rows) != len(fns) or any("skip" in r.lower() for r in rows):
                c.violation("accuracy command", "the command of checkAccuracy.py %s ended with %s and %d comparisons, expected %d: %s" % (k, rc, len(rows), len(fns), (err or out)[-300:]), k)
            for fn in fns:
                p = os.path.join(d, "comparison__%s__%s.txt" % (k, fn))
                if not os.path.exists(p):
                    c.violation("accuracy pairs", "no comparison of %s after the command of checkAccuracy.py %s" % (fn, k), k)
                    continue
                a, b = [read_response(os.path.join(d, "%s__%s%s__response.txt" % (k, x, fn)))[2] for x in ("", "Fast_")]
                with open(p) as f:
                    l = f.read().rstrip("\n").split("\n")[6:]
                got = [[int(x, 16) for x in y.split()[:len(z) + 1]] for y, z in zip(l, a)]
                c.count("comparison rows", len(l))
                if got != [x + [y[-1]] for x, y in zip(a, b)]:
                    c.violation("accuracy pairs", "the comparison of %s is not that of its reference and fast function" % fn, p)
        # files that only look like comparisons: those of other nicknames and copies under other names
        for fn in rnd.sample(fns, 3):
            p = os.path.join(d, "comparison__%s__%s" % (nick, fn))
            for other in (p + ".txt~", p + ".txt.old", p + "_txt", os.path.join(d, "comparison__%s_%s.txt" % (nick, fn)), os.path.join(d, "old_comparison__%s__%s.txt" % (nick, fn))):
                shutil.copy(p + ".txt", other)
        # histograms, from the directory itself or from another one
        where = [("there", d, []), ("elsewhere", os.path.join(d0, "work%d" % it), ["-d", d]), ("relative", d0, ["--dir=resp%d" % it])][it % 3 if it else rnd.randrange(3)]
        for how, cwd, extra in [where] + ([("elsewhere", os.path.join(d0, "work%d" % it), ["-d", d])] if where[0] != "elsewhere" and it == 1 else []):
            os.makedirs(cwd, exist_ok=True)
            log = c.path("root-%d.json" % it)
            if os.path.exists(log):
                os.remove(log)
            args = rnd.choice([["-n", nick], ["--nick=" + nick]]) + extra
            what = "diffhisto.py " + " ".join(args)
            rc, out, err = c.tool(PY + [script("diffhisto.py")] + args, "diffhisto.py", cwd=cwd, env={"PYTHONPATH": os.path.join(HARNESS, "root_stub"), "PYTHONDONTWRITEBYTECODE": "1", "VMON_ROOT_OUT": log})
            c.count("program runs", 1)
            if rc is None:
                continue
            if rc != 0:
                c.violation("histogram exit " + how, "%s ended with %s: %s" % (what, rc, err[-500:]), what)
                continue
            with open(log) as f:
                o = json.load(f)
            judge_histograms(c, o, d, nick, fns, what)
            seen.add((how, size))
    for n in ("checkAccuracy.py", "diffhisto.py"):
        rc, out, err = c.tool(PY + [script(n)], n, cwd=d0, env={"PYTHONPATH": os.path.join(HARNESS, "root_stub"), "VMON_ROOT_OUT": c.path("root.json")})
        c.count("program runs", 1)
        if rc != 1:
            c.violation("no nickname " + n, "%s without a nickname ended with %s: %s" % (n, rc, err[-300:]), n)
    shutil.rmtree(d0)
    c.rule = "distinct histograms judged"
    c.assumptions = ["ROOT is not installed here: a stand-in records the histograms, what is filled into them, printed and written"]


def judge_histograms(c, o, d, nick, fns, what):
    if [(f["name"], f["mode"].upper(), f["closed"]) for f in o["files"]] != [(nick + "_histos.root", "RECREATE", True)]:
        c.violation("histogram file", "%s: files %s" % (what, o["files"]), what)
    H = {}
    for h in o["histograms"]:
        if h["name"] in H:
            c.violation("histogram twice", "%s: two histograms %s" % (what, h["name"]), what)
        H[h["name"]] = h
    want = {k + fn for fn in fns for k in ("Diffbit_", "DiffVsInput_")}
    if set(H) != want:
        c.violation("histogram names", "%s: missing %s, unexpected %s" % (what, sorted(want - set(H))[:4], sorted(set(H) - want)[:4]), what)
    prints = {p["name"]: p["shows"] for p in o["prints"]}
    for fn in fns:
        p = os.path.join(d, "comparison__%s__%s.txt" % (nick, fn))
        if not os.path.exists(p):
            continue
        with open(p) as f:
            l = f.read().rstrip("\n").split("\n")
        dbl = l[1] == "Double Precision"
        bits = 64 if dbl else 32
        one, two = [], []
        for y in l[6:]:
            w = y.split()
            k = (len(w) - 3) // 2
            one.append([float(abs(int(w[k], 16) - int(w[k + 1], 16)).bit_length())])
            two.append([float(w[k + 3])] + one[-1])
        lo, hi = axis(fn)
        for name, fills, axes, tag in (("Diffbit_" + fn, one, [bits + 1, -.5, bits + .5], "_dbhisto.png"), ("DiffVsInput_" + fn, two, [100, lo, hi, bits + 1, -.5, bits + .5], "_dbVSinhisto.png")):
            h = H.get(name)
            if not h:
                continue
            c.count("histogram entries", len(h["fills"]))
            c.cell("histograms", 1)
            if h["dim"] != (1 if fills is one else 2) or h["axes"] != axes:
                c.violation("histogram axes", "%s: %s has axes %s, expected %s" % (what, name, h["axes"], axes), what)
            if h["written"] != 1:
                c.violation("histogram written", "%s: %s written %d times" % (what, name, h["written"]), what)
            if sorted(h["fills"]) != sorted(fills):
                bad = next(((a, b) for a, b in zip(sorted(h["fills"]), sorted(fills)) if a != b), (len(h["fills"]), len(fills)))
                c.violation("histogram entries", "%s: %s has %d entries, expected %d; first difference %s" % (what, name, len(h["fills"]), len(fills), bad), what)
            img = "%s_%s_%s%s" % (nick, "double" if dbl else "float", fn, tag)
            if prints.get(img) != [name]:
                c.violation("histogram image", "%s: image %s shows %s" % (what, img, prints.get(img)), what)
    if len(c.samples) < 20 and o["histograms"]:
        h = o["histograms"][-1]
        c.samples.append("%s: %s axes %s, %d entries, first %s" % (what, h["name"], h["axes"], len(h["fills"]), h["fills"][:2]))


# ---- C42 --------------------------------------------------------------------------------
def ctypes_module(c):
    q = c.quick
    from .generated import generator, generated_build
    d = c.path("wrapper")
    os.makedirs(d)
    if not generator(c, "numpy_wrapper_generator.py", d, ["vdtFatLibWrapper.cc", "vdtFatLibWrapper.h", "vdt_ctypes.py"]):
        return
    fat = os.path.join(d, "libvdtFatLibWrapper.so")
    if not generated_build(c, [GXX, "-std=c++11", "-O2", "-ffp-contract=off", "-shared", "-fPIC", "-w", "-I" + d, "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src")],
                           os.path.join(d, "vdtFatLibWrapper.cc"), fat):
        return
    def one(k):
        c.run(PY + [os.path.join(HARNESS, "ctypes_drive.py"), os.path.join(HARNESS, "numpy_py"), os.path.join(REPO, "scripts"), d, str(c.seed + k), str(16 if q else 300)], label="module", cwd=d,
              timeout=300 if q else 5000)
    parallel([(lambda k=k: one(k)) for k in range(4)])
    c.rule = "distinct (function, kinds of arguments, dimensions) per process"
    c.assumptions = ["NumPy is not installed here: a stand-in offers the few functions used and puts every array next to an unmapped page"]

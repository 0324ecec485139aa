"""C44: headers included alone, repeatedly, in any order and in several source files of one program."""
import random
from .core import *

ONE = {  # header: functions of one argument, limits of the arguments
    "asin.h": (["fast_asin", "fast_acos"], -1, 1), "atan.h": (["fast_atan"], -1e6, 1e6), "cos.h": (["fast_cos"], -8000, 8000), "sin.h": (["fast_sin"], -8000, 8000), "tan.h": (["fast_tan"], -8000, 8000),
    "exp.h": (["fast_exp"], -87, 87), "log.h": (["fast_log"], 1e-30, 1e30), "tanh.h": (["fast_tanh"], -50, 50), "inv.h": (["fast_inv", "fast_approx_inv", "inv"], 1e-30, 1e30),
    "sqrt.h": (["fast_isqrt", "fast_approx_isqrt", "isqrt"], 1e-30, 1e30), "identity.h": (["identity", "fast_identity"], -1e30, 1e30),
}
NUMERIC = sorted(ONE) + ["atan2.h", "sincos.h", "stdwrap.h", "vdtcore_common.h", "vdtMath.h"]
NOT_IN_MATH = ("stdwrap.h",)
DIAGNOSTIC = ["vdtdiag_helper.h", "vdtdiag_filePersistence.h", "vdtdiag_interfaces.h", "vdtdiag_random.h", "vdtdiag_fcnResponse.h", "vdtdiag_fcnComparison.h", "vdtdiag_fcnPerformance.h", "vdtdiag_fcnTuples.h",
              "vdtdiag_simpleCmd.h"]

COMMON = r'''
#include <cstring>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
namespace {
struct Sum {
  uint64_t h, s;
  explicit Sum(uint64_t seed) : h(1469598103934665603ULL), s(seed * 2654435769ULL + 88172645463325252ULL) {}
  void byte(unsigned b) { h = (h ^ b) * 1099511628211ULL; }
  void add(double x) { uint64_t b = 1; if (x == x) std::memcpy(&b, &x, 8); for (int i = 0; i < 8; ++i) byte((b >> (8 * i)) & 255); }
  void add(const std::string& t) { for (size_t i = 0; i < t.size(); ++i) byte((unsigned char)t[i]); byte(256); }
  uint64_t bits() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
  double in(double a, double b) { return a + (b - a) * ((double)(bits() >> 11) / 9007199254740992.0); }
  double any(double a, double b, const char* special) {  // also one of the given numbers
    double x = in(a, b), v = x;
    int n = (int)(bits() % 30);
    for (; n >= 0 && *special; --n) { char* e; v = std::strtod(special, &e); special = e; }
    return n < 0 ? v : x;
  }
};
}
'''

AXES = "0 -0 1 -1 1e300 -1e300 1e-300 -1e-300 1e-310 nan"
LINE = "0 -0 inf -inf nan 1e300 -1e300 1e-310 -1e-310 1e-40 1e-8 -1 1 800 -800 1e30 -1e30 100 -100 0.5 -0.5"
TURNS = "0 -0 nan 1e-300 -1e-300 1e-40 1e-8 0.78539816339744828 1.5707963267948966 3.1415926535897931 -1 1"
SPECIAL = {"sin.h": TURNS, "cos.h": TURNS, "tan.h": TURNS, "inv.h": "0 -0 nan 1e-37 -1e-37 1e37 -1e37 1 -1 3e-38", "sqrt.h": "nan 1e-37 1e37 1 3e-38 4"}


def numeric(h):
    if h in ONE:
        fs, lo, hi = ONE[h]
        t = "for (int i = 0; i < 120; ++i) { volatile double x = s.any(%r, %r, \"%s\"); volatile float y = (float)x; %s }\n" % (lo, hi, SPECIAL.get(h, LINE), " ".join("s.add(vdt::%s(x)); s.add(vdt::%sf(y));" % (f, f) for f in fs))
        for f in fs:
            if f in ("fast_identity",):
                continue
            t += "{ double a[37], b[37]; float c[37], d[37]; for (int i = 0; i < 37; ++i) { a[i] = s.any(%r, %r, \"%s\"); c[i] = (float)a[i]; } vdt::%sv(37, a, b); vdt::%sfv(37, c, d); for (int i = 0; i < 37; ++i) { s.add(b[i]); s.add(d[i]); } }\n" % (lo, hi, SPECIAL.get(h, LINE), f, f)
        return t
    if h == "atan2.h":
        return ("for (int i = 0; i < 120; ++i) { volatile double x = s.any(-9, 9, \"" + AXES + "\"), y = s.any(-9, 9, \"" + AXES + "\"); volatile float z = (float)x, w = (float)y; s.add(vdt::fast_atan2(y, x)); s.add(vdt::fast_atan2f(w, z)); }\n"
                "{ double a[37], e[37], b[37]; for (int i = 0; i < 37; ++i) { a[i] = s.in(-9, 9); e[i] = s.in(-9, 9); } vdt::fast_atan2v(37, a, e, b); for (int i = 0; i < 37; ++i) s.add(b[i]); }\n")
    if h == "sincos.h":
        return "for (int i = 0; i < 120; ++i) { volatile double x = s.any(-8000, 8000, \"" + TURNS + "\"); double a, b; float c, d; vdt::fast_sincos(x, a, b); vdt::fast_sincosf((float)x, c, d); s.add(a); s.add(b); s.add(c); s.add(d); }\n"
    if h == "stdwrap.h":
        return ("for (int i = 0; i < 120; ++i) { volatile double x = s.in(0, 9), y = s.in(1, 9), z = s.in(-9, 9); volatile float u = (float)x, v = (float)y, w = (float)z;\n"
                "  s.add(vdt::fast_sqrt<double>(x)); s.add(vdt::fast_sqrt<float>(u)); s.add(vdt::fast_div<double>(z, y)); s.add(vdt::fast_div<float>(w, v)); s.add(vdt::fast_fma<double>(x, y, z)); s.add(vdt::fast_fmac<float>(u, v, w)); }\n")
    if h == "vdtMath.h":
        return "".join(numeric(k) for k in NUMERIC if k not in NOT_IN_MATH + ("vdtMath.h",))
    return "s.add(1.0);\n"


MORE = {  # standard headers needed by the code that follows the header
    "vdtdiag_filePersistence.h": "#include <sstream>\n",
}
POINTS = "std::vector<T> x, y, a, b; for (int i = 0; i < 30; ++i) { x.push_back((T)s.in(-3, 3)); y.push_back((T)s.in(-3, 3)); a.push_back((T)s.in(-3, 3)); b.push_back(i % 3 ? a.back() : (T)s.in(-3, 3)); }\n"
FILES = "std::string p = std::string(dir) + \"/%s\"; "
DIAG = {
    "vdtdiag_helper.h": "for (int i = 0; i < 30; ++i) { T u = (T)s.in(-3, 3), v = i % 3 ? u + (T)s.in(0, 1e-5) : u; s.add(vdth::diffbit(u, v)); s.add(std::string(vdth::getbsasstr(u))); s.add(refMath::atan2(u, v)); s.add(refMath::sinf((float)u)); }\n"
                        "{ vdth::timer t; t.start(); t.stop(); if (t.get_elapsed_time() == 1) s.add(0.0); else s.add(0.0); }\nif (s.bits() == 1) vdth::print_instructions_info();\n",
    "vdtdiag_filePersistence.h": "{ std::stringstream t; T u = (T)s.in(-3, 3); t << fpToHex<T>(u); s.add(t.str()); fpFromHex<T> r; t >> r; s.add(r.getValue()); }\n",
    "vdtdiag_interfaces.h": "",
    "vdtdiag_random.h": FILES + "{ randomPool<T> r((T)-2, (T)5, 50, 7); randomPool2D<T> q((T)-1, (T)-2, (T)3, (T)4, 50, 8); for (int i = 0; i < 50; ++i) { s.add(r.getNumbers()[i]); s.add(q.getNumbersX()[i]); s.add(q.getNumbersY()[i]); }\n"
                        "r.writeFile(p); randomPool<T> g(p); for (int i = 0; i < 50; ++i) s.add(g.getNumbers()[i]); }\n",
    "vdtdiag_fcnResponse.h": FILES + POINTS + "{ fcnResponse<T> r(\"f\", x, std::function<T(T)>([](T u) { return u * 3; })); r.writeFile(p); fcnResponse1D<T> g(p); for (int i = 0; i < 30; ++i) { s.add(g.getInput()[i]); s.add(g.getOutput()[i]); } }\n"
                             "{ fcnResponse2D<T> r(\"f\", x, y, std::function<T(T, T)>([](T u, T v) { return u - v; })); r.writeFile(p); fcnResponse2D<T> g(p); for (int i = 0; i < 30; ++i) { s.add(g.getInput2()[i]); s.add(g.getOutput()[i]); } }\n",
    "vdtdiag_fcnComparison.h": FILES + POINTS + "{ fcnComparison<T> r(\"f\", x, a, b); r.writeFile(p); fcnComparison1D<T> g(p); s.add((double)g.hasDifference()); fcnComparison2D<T> q(\"f\", x, y, a, b); q.writeFile(p); s.add((double)q.hasDifference()); std::ifstream i(p); std::string l; std::getline(i, l); while (std::getline(i, l)) s.add(l); }\n",
    "vdtdiag_fcnPerformance.h": POINTS + "{ int n = 0; fcnPerformance<T> r(\"f\", x, std::function<T(T)>([&](T u) { ++n; return u; }), 3); s.add((double)n); }\n",
    "vdtdiag_fcnTuples.h": "{ randomPool<T> r1((T)-9, (T)9, 20, 1), r2((T)1, (T)9, 20, 2), r3((T)-1, (T)1, 20, 3), r4((T)-9, (T)9, 20, 4); randomPool2D<T> r5((T)-1, (T)-1, (T)1, (T)1, 20, 5);\n"
                           "std::vector<genfpfcn_tuple<T>> t; getFunctionTuples(&t, r1, r2, r3, r4); for (size_t i = 0; i < t.size(); ++i) { s.add(std::get<0>(t[i])); s.add(std::get<1>(t[i])((T)0.5)); }\n"
                           "std::vector<genfpfcnv_tuple<T>> v; getFunctionTuplesvect(&v, r1, r2, r3, r4); s.add((double)v.size()); std::vector<genfpfcn2D_tuple<T>> w; getFunctionTuples(&w, r5); s.add((double)w.size());\n"
                           "std::vector<genfpfcn2Dv_tuple<T>> z; getFunctionTuplesvect(&z, r5); s.add((double)z.size()); std::vector<std::string> n; getFunctionBasicNames(&n); for (size_t i = 0; i < n.size(); ++i) s.add(n[i]); }\n",
    "vdtdiag_simpleCmd.h": "{ CmdOptions o; o.addOption(\"-n\", \"--name\", \"help\"); char a0[] = \"p\", a1[] = \"--name=v\"; char* v[] = {a0, a1, 0}; s.add((double)o.parseCmd(2, v)); s.add(o.getArgument(\"-n\")); }\n",
}


def text(k, hs):
    """A source file which includes hs in this order and has a function for each header."""
    t = "".join('#include "%s"\n' % h for h in hs)
    used = sorted(set(hs))
    t += "".join(MORE.get(h, "") for h in used) + COMMON
    for h in used:
        n = re.sub(r"\W", "_", h)
        if h in DIAG:
            body = DIAG[h].replace("/%s", "/f%d" % k)
            t += "namespace { template <class T> void diag_%s(Sum& s, const char* dir) { (void)dir; %s } }\n" % (n, body)
            t += 'extern "C" uint64_t use%d_%s(uint64_t seed, const char* dir) { Sum s(seed); diag_%s<double>(s, dir); diag_%s<float>(s, dir); return s.h; }\n' % (k, n, n, n)
        else:
            t += 'extern "C" uint64_t use%d_%s(uint64_t seed, const char*) { Sum s(seed);\n%s return s.h; }\n' % (k, n, numeric(h))
    return t


BUILDS = [("gcc", [GXX, "-std=c++11", "-O0"]), ("clang", [CLANGXX, "-std=c++17", "-O1"]), ("address sanitizer", [GXX, "-std=c++14", "-O0", "-fsanitize=address"])]
OTHERS = [("%s %s" % (n, s), [x, "-std=" + s]) for n, x, ss in (("gcc", GXX, ("c++17", "c++20", "gnu++14")), ("clang", CLANGXX, ("c++11", "c++14", "c++20"))) for s in ss]
FULL = [("gcc c++20", [GXX, "-std=c++20", "-O2"]), ("clang c++11", [CLANGXX, "-std=c++11", "-O2"]), ("clang c++20", [CLANGXX, "-std=c++20", "-O0"])]


def standalone(c):
    q = c.quick
    rng = random.Random(c.seed)
    every = NUMERIC + DIAGNOSTIC
    files = []
    for h in every:  # alone and repeated, in two source files
        files += [[h], [h] * rng.randrange(2, 4)]
    for pool in (NUMERIC[:-1], DIAGNOSTIC, every) if q else (NUMERIC[:-1], DIAGNOSTIC, every) * 6:  # all, so that each is before and after each other one
        hs = rng.sample(pool, len(pool))
        files += [hs, hs[::-1]]
    for _ in range(12 if q else 120):  # together
        pool = rng.choice([NUMERIC, every, every])
        hs = rng.sample(pool, rng.randrange(2, 8))
        files.append(hs + [rng.choice(hs)] * rng.randrange(2))
    for h in os.listdir(os.path.join(REPO, "include")) + os.listdir(os.path.join(REPO, "include/diagnostic")):
        if h.endswith(".h") and h not in every:  # headers unknown here only have to be accepted
            files.append([h])
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "include/diagnostic"), "-I" + HARNESS, "-ffp-contract=off", "-w"]
    for k, hs in enumerate(files):
        with open(c.path("f%d.cpp" % k), "w") as f:
            f.write(text(k, hs))
    jobs, lib = c.library("lib", DEFAULT)
    parallel(jobs)

    def one(k, name, flags, bad):
        cmd = flags + inc + ["-c", c.path("f%d.cpp" % k), "-o", c.path("%s-f%d.o" % (name.replace(" ", "_"), k))]
        rc, out, err = sh(cmd)
        if rc != 0:
            bad[k] = (cmd, err)
    # every header alone with the other compilers and language levels
    def accept(k, name, flags, bad):
        cmd = flags + inc + ["-fsyntax-only", c.path("f%d.cpp" % k)]
        rc, out, err = sh(cmd)
        if rc != 0:
            bad[k, name] = (cmd, err)
    bad = {}
    alone = [k for k in range(len(files)) if k < 2 * len(every) and k % 2 == 0 or len(files[k]) == 1]
    parallel([(lambda k=k, n=n, f=f: accept(k, n, f, bad)) for n, f in OTHERS for k in alone])
    for k, name in sorted(bad):
        cmd, err = bad[k, name]
        m = re.search(r"error: (.*)", err)
        if not m:
            raise CheckError("%s failed: %s" % (" ".join(cmd), err[-1000:]))
        c.violation("accepting " + files[k][0], "a source file that includes %s is not accepted (%s): %s" % (files[k][0], name, m.group(1)[:300]), " ".join(cmd))
    c.count("source files accepted", len(OTHERS) * len(alone) - len(bad))
    for name, flags in BUILDS + ([] if q else FULL):
        # the sanitized build leaves out the repetitions
        mine = [k for k in range(len(files)) if name != "address sanitizer" or k >= 2 * len(every) or k % 2 == 0]
        bad = {}
        parallel([(lambda k=k: one(k, name, flags, bad)) for k in mine])
        if bad:
            t = c.path("empty.cpp")
            with open(t, "w") as f:
                f.write(COMMON)
            sh_build(flags + inc + ["-c", t, "-o", t + ".o"])
        for k in sorted(bad):
            m = re.search(r"error: (.*)", bad[k][1])
            c.violation("compiling " + " ".join(files[k][:3]), "a source file that includes %s does not compile (%s): %s" % (", ".join(files[k]), name, m.group(1)[:300] if m else bad[k][1][-300:]), " ".join(bad[k][0]))
        c.count("source files compiled", len(mine) - len(bad))
        good = [k for k in mine if k not in bad]
        with open(c.path("list.h"), "w") as f:
            rows = [(h, k, i) for k in good for i, h in enumerate(sorted(set(files[k])))]
            for h, k, i in rows:
                f.write('extern "C" uint64_t use%d_%s(uint64_t, const char*);\n' % (k, re.sub(r"\W", "_", h)))
            f.write("static const Use uses[] = {\n")
            for h, k, i in rows:
                f.write('  {"%s", "%s", %d, use%d_%s},\n' % (h, " ".join(files[k]), k, k, re.sub(r"\W", "_", h)))
            f.write("};\n")
        tag = name.replace(" ", "_")
        main, exe = c.path(tag + "-main.o"), c.path(tag)
        sh_build([flags[0], "-std=c++11", "-O1"] + [f for f in flags if "sanitize" in f] + ["-I" + HARNESS, "-I" + c.dir, "-c", os.path.join(HARNESS, "headers.cpp"), "-o", main])
        cmd = [flags[0]] + [f for f in flags if "sanitize" in f] + [main] + [c.path("%s-f%d.o" % (tag, k)) for k in good] + lib + ["-o", exe, "-lquadmath", "-pthread"]
        rc, out, err = sh(cmd)
        if rc != 0:
            ms = sorted(set(re.findall(r"multiple definition of `([^'(]*)", err)))
            if not ms:
                raise CheckError("linking failed: " + err[-2000:])
            for m in ms[:5]:
                c.violation("linking " + m, "source files that include the headers do not link into one program (%s): several definitions of %s" % (name, m), " ".join(cmd)[:2000])
            continue
        c.cell("programs linked", 1)
        d = c.path("files-" + tag)
        os.makedirs(d)
        cmd = [exe, "--seed=%d" % c.seed, "--chunks=%d" % (20 if q else 200), "--dir=" + d, "--cfg=" + name]
        rc, out, err = c.run(cmd, label=name, timeout=300 if q else 3000, env={"ASAN_OPTIONS": "detect_odr_violation=2:detect_leaks=0:exitcode=99"}, ok=(0, 99))
        m = re.search(r"ERROR: AddressSanitizer: (\S+)", err)
        if m:
            c.violation("address sanitizer: " + m.group(1), "in a program of source files with the headers: " + err[m.start():m.start() + 500], " ".join(cmd))
        elif rc == 99:
            raise CheckError("%s ended with 99: %s" % (name, err[-1000:]))
    c.rule = "distinct (build, header, list of headers of the source file) whose results were compared"
    c.notes["source files"] = [" ".join(hs) for hs in files[2 * len(every):][:10]]

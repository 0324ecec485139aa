"""C37: seeded random programs that use the functions inline, against the functions called through pointers."""
import random
from .core import *
from .numeric import cpu

DOM = {"fast_exp": "any", "fast_log": "pos", "fast_sin": "trig", "fast_cos": "trig", "fast_tan": "trig", "fast_asin": "unit", "fast_acos": "unit",
       "fast_atan": "any", "fast_tanh": "any", "fast_isqrt": "pos", "fast_approx_isqrt": "pos", "fast_inv": "norm", "fast_approx_inv": "norm",
       "inv": "norm", "isqrt": "pos", "identity": "any"}
NAMES = sorted(DOM)
HEADERS = ["sin.h", "asin.h", "cos.h", "tan.h", "tanh.h", "atan.h", "atan2.h", "exp.h", "log.h", "sqrt.h", "inv.h", "identity.h"]
CONST = {"any": ["0.", "-0.5", "1.", "3.25", "-17.5", "1.396983862e-9", "700.", "-1e-5", "0.1"], "pos": ["1.", "0.3", "2.", "1e-5", "12345.678", "15.9999990463"],
         "trig": ["0.", "1.", "-3.14159", "0.785398", "4999.5", "-100.25", "1e-8"], "unit": ["0.", "1.", "-1.", "0.625", "-0.3", "0.99999", "1e-6"],
         "norm": ["1.", "-3.", "0.1", "1e20", "-7e-20"]}


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.kinds = {}

    def fn(self, t, dom=None):
        n = self.r.choice([x for x in NAMES if dom in (None, DOM[x])])
        return n

    def call(self, n, t, a):
        return "V::%s%s(%s)" % (n, "f" if t == "float" else "", a)

    def dom(self, n, t, a):
        return "dom_%s<%s>(%s)" % (DOM[n], t, a)

    def const(self, n, t):
        return "(%s)%s" % (t, self.r.choice(CONST[DOM[n]]))

    def number(self, n):
        r = self.r
        v = {"any": lambda: r.uniform(-60, 60), "pos": lambda: 10 ** r.uniform(-6, 6), "trig": lambda: r.uniform(-1, 1) * 10 ** r.uniform(-2, 3.6),
             "unit": lambda: r.uniform(-1, 1), "norm": lambda: r.choice((-1, 1)) * 10 ** r.uniform(-6, 6)}[DOM[n]]()
        return float("%.*g" % (r.choice([1, 3, 6, 17]), v)) or 1.

    def kernel(self, k, kind, f, t):
        r = self.r
        g, h = self.fn(t), self.fn(t)
        F, G, H = (lambda a: self.call(f, t, a)), (lambda a: self.call(g, t, a)), (lambda a: self.call(h, t, a))
        idx = r.choice(["int", "long", "unsigned", "size_t", "uint32_t"])
        self.kinds[kind] = self.kinds.get(kind, 0) + 1
        d = "const %s* __restrict__ x, %s* %s o, long n" % (t, t, r.choice(["__restrict__", ""]))
        up = "for (%s i = 0; i < (%s)n; ++i)" % (idx, idx)
        dx = DOM[f]
        pre = ""
        if kind == "loop":
            b = "%s o[i] = %s;" % (up, F("x[i]"))
        elif kind == "reverse":
            b = "for (long i = n - 1; i >= 0; --i) o[i] = %s;" % F("x[i]")
        elif kind == "stride":
            s = r.choice([2, 3, 4, 5])
            b = "for (long i = 0; i < n; ++i) o[i] = x[i]; for (long i = %d; i < n; i += %d) o[i] = %s;" % (r.randrange(s), s, F("x[i]"))
        elif kind == "in place":
            b = "for (long i = 0; i < n; ++i) o[i] = x[i]; %s o[i] = %s;" % (up, F("o[i]"))
        elif kind == "pointers":
            b = "const %s* e = x + n; while (x != e) *o++ = %s;" % (t, F("*x++"))
        elif kind == "condition":
            c = r.choice(["x[i] > (%s)0.5" % t, "i %% %d == 1" % r.choice([2, 3, 7]), "x[i] < (%s)0.25" % t])
            b = "%s { if (%s) o[i] = %s; else o[i] = %s; }" % (up, c, F("x[i]"), G(self.dom(g, t, "x[i]")))
        elif kind == "select":
            b = "%s o[i] = x[i] > (%s)0.3 ? %s : x[i];" % (up, t, F("x[i]"))
        elif kind == "composition":
            b = "%s o[i] = %s;" % (up, H(self.dom(h, t, G(self.dom(g, t, F("x[i]"))))))
        elif kind == "running sum":
            b = "%s s = 0; %s { s += %s; o[i] = s; }" % (t, up, F("x[i]"))
        elif kind == "expression":
            b = "%s { %s u = %s; o[i] = %s * u + (%s - u); }" % (up, t, F("x[i]"), G(self.dom(g, t, "x[i]")), H(self.dom(h, t, "u")))
        elif kind == "constants":
            if t == "double":
                num = lambda v: repr(v) if v >= 0 else "(%r)" % v
            else:
                num = lambda v: "%.9ef" % v if v >= 0 else "(%.9ef)" % v
            b = "const %s k[64] = {%s}; %s o[i] = k[i %% 64];" % (t, ", ".join(F(num(self.number(f))) for _ in range(64)), up)
        elif kind == "constants in expressions":
            b = "%s o[i] = %s + %s * x[i] - %s;" % (up, F(self.const(f, t)), G(self.const(g, t)), H(self.const(h, t)))
        elif kind == "sincos arrays":
            dx = "trig"
            b = "%s { %s s, c; V::fast_sincos%s(x[i], s, c); o[i] = i & 1 ? s : c; }" % (up, t, "f" if t == "float" else "")
        elif kind == "sincos onto its argument":
            dx = "trig"
            p, q = r.choice([("v", "w"), ("w", "v")])
            b = "%s { %s v = x[i], w = 5; V::fast_sincos%s(v, %s, %s); o[i] = i & 1 ? v : w; }" % (up, t, "f" if t == "float" else "", p, q)
        elif kind == "sincos in place":
            dx = "trig"
            b = ("for (long i = 0; i < n; ++i) o[i] = x[i]; for (long i = 0; i + 1 < n; i += 2) V::fast_sincos%s(o[i], o[i], o[i + 1]);" % ("f" if t == "float" else ""))
        elif kind == "structures":
            u = "float" if t == "double" else "double"
            m = self.fn(u)
            pre = "struct S%d { %s a; %s b; int c; };" % (k, u, t)
            b = ("std::vector<S%d> s(n); for (long i = 0; i < n; ++i) { s[i].a = (%s)i; s[i].b = x[i]; s[i].c = (int)i; } %s { s[i].b = %s; s[i].a = %s; s[i].c += 1; } "
                 "for (long i = 0; i < n; ++i) o[i] = s[i].b + (%s)s[i].a * (%s)s[i].c;") % (k, u, up, F("s[i].b"), self.call(m, u, self.dom(m, u, "s[i].a")), t, t)
        elif kind == "mixed precision":
            u = "float" if t == "double" else "double"
            m = self.fn(u)
            b = "%s o[i] = (%s)%s;" % (up, t, self.call(m, u, self.dom(m, u, "(%s)%s" % (u, F("x[i]")))))
        elif kind == "tiles":
            b = ("for (long i = 0; i < n; i += 8) { %s w[8]; long m = n - i < 8 ? n - i : 8; for (long j = 0; j < m; ++j) w[j] = %s; for (long j = 0; j < m; ++j) w[j] = %s; "
                 "for (long j = 0; j < m; ++j) o[i + j] = w[j]; }") % (t, F("x[i + j]"), G(self.dom(g, t, "w[j]")))
        elif kind == "lambda":
            b = "auto q = [&](%s v) { return %s; }; std::transform(x, x + n, o, q);" % (t, F("v"))
        elif kind == "functor":
            pre = "struct Q%d { virtual ~Q%d() {} virtual %s operator()(%s v) const { return %s; } };" % (k, k, t, t, F("v"))
            b = "Q%d q; std::transform(x, x + n, o, [&](%s v) { return q(v); });" % (k, t)
        elif kind == "two arguments":
            dx = "trig"
            b = "%s o[i] = V::fast_atan2%s(x[i], x[n - 1 - (long)i]);" % (up, "f" if t == "float" else "")
        elif kind == "two arguments and one":
            dx = "trig"
            b = "%s o[i] = V::fast_atan2%s(%s, %s);" % (up, "f" if t == "float" else "", self.call("fast_sin", t, "x[i]"), self.call("fast_cos", t, "x[i]"))
        elif kind == "unrolled":
            b = "long i = 0; for (; i + 3 < n; i += 4) { o[i] = %s; o[i + 1] = %s; o[i + 2] = %s; o[i + 3] = %s; } for (; i < n; ++i) o[i] = %s;" % tuple(F("x[i%s]" % s) for s in ("", " + 1", " + 2", " + 3", ""))
        elif kind == "chain":
            b = "%s { %s v = x[i]; for (int j = 0; j < %d; ++j) v = %s; o[i] = v; }" % (up, t, r.choice([2, 3, 5]), F("j ? %s : v" % self.dom(f, t, "v")))
        elif kind == "bits of the result":
            it = "uint64_t" if t == "double" else "uint32_t"
            b = "%s { %s v = %s; %s b; memcpy(&b, &v, sizeof b); b ^= 1; memcpy(&v, &b, sizeof b); o[i] = v == v ? v : (%s)0; }" % (up, t, F("x[i]"), it, t)
        elif kind == "largest":
            b = "%s m = %s; %s { %s v = %s; m = v > m ? v : m; o[i] = m; }" % (t, G(self.const(g, t)), up, t, F("x[i]"))
        elif kind == "fixed size":
            b = "for (long i = n; i < n; ++i) o[i] = 0; for (int i = 0; i < 16; ++i) o[i] = %s; for (long i = 16; i < n; ++i) o[i] = %s;" % (F("x[i]"), G(self.dom(g, t, "x[i]")))
        elif kind == "rows":
            b = "long m = n / 7; for (long c = 0; c < 7; ++c) for (long i = 0; i < m; ++i) o[i * 7 + c] = %s; for (long i = m * 7; i < n; ++i) o[i] = %s;" % (F("x[i * 7 + c]"), F("x[i]"))
        else:
            raise AssertionError(kind)
        return kind, t, dx, "%s\nstatic void k%d(%s) { %s }" % (pre, k, d, b)


KINDS = ["loop", "reverse", "stride", "in place", "pointers", "condition", "select", "composition", "running sum", "expression", "constants", "constants in expressions", "sincos arrays",
         "sincos onto its argument", "sincos in place", "structures", "mixed precision", "tiles", "lambda", "functor", "two arguments", "two arguments and one",
         "unrolled", "chain", "bits of the result", "largest", "fixed size", "rows"]
FIXED = ("sincos arrays", "sincos onto its argument", "sincos in place", "two arguments", "two arguments and one")
BUILDS = [  # name, flags, needs, quick
    ("default", DEFAULT, (), 1), ("gcc O1", [GXX, "-std=c++14", "-O1"], (), 1), ("gcc O2 c++17", [GXX, "-std=c++17", "-O2"], (), 1),
    ("gcc O3 avx2", [GXX, "-std=c++20", "-O3", "-mavx2", "-ffp-contract=off"], ("avx2",), 1), ("gcc Os", [GXX, "-std=c++11", "-Os"], (), 1),
    ("gcc O3 avx512", [GXX, "-std=c++17", "-O3", "-mavx512f", "-mavx512dq", "-mprefer-vector-width=512", "-ffp-contract=off"], ("avx512f", "avx512dq"), 1),
    ("clang O3", [CLANGXX, "-std=c++11", "-O3", "-ffp-contract=off"], (), 1), ("clang O2 avx2", [CLANGXX, "-std=c++17", "-O2", "-mavx2", "-ffp-contract=off"], ("avx2",), 1),
    ("gcc O0", [GXX, "-std=c++11", "-O0"], (), 0), ("clang O1", [CLANGXX, "-std=c++14", "-O1", "-ffp-contract=off"], (), 0), ("gcc O3 unrolled", [GXX, "-std=c++11", "-O3", "-funroll-loops", "-ftracer"], (), 0),
    ("gcc O3 whole program", [GXX, "-std=c++11", "-O3", "-flto"], (), 0), ("clang avx512", [CLANGXX, "-std=c++20", "-O3", "-mavx512f", "-mprefer-vector-width=512", "-ffp-contract=off"], ("avx512f",), 0),
]


def programs(c):
    q = c.quick
    g = Gen(c.seed)
    rng = random.Random(c.seed + 1)
    # every shape once (quick) or four times (thorough) for every function in both precisions; shapes of fixed functions less often
    todo = [(kind, f, t) for kind in KINDS for t in ("double", "float") for f in (NAMES if kind not in FIXED else NAMES[:4])] * (1 if q else 4)
    rng.shuffle(todo)
    kern = [g.kernel(k, *a) for k, a in enumerate(todo)]
    nk, parts = len(kern), 8 if q else 32
    for p in range(parts):
        mine = [k for k in range(nk) if k % parts == p]
        hs = list(HEADERS)
        rng.shuffle(hs)
        text = "\n".join(kern[k][3] for k in mine)
        table = "\n".join("extern \"C\" void %%s_k%d(const void* x, void* o, long n) { k%d((const %s*)x, (%s*)o, n); }" % (k, k, kern[k][1], kern[k][1]) for k in mine)
        for side in ("inl", "ref"):
            if side == "inl":
                head = '#include "vdtMath.h"\n' if p % 2 == 0 else "".join('#include "%s"\n' % h for h in hs)
                head += "#define V vdt\n"
            else:
                head = '#include "inline_ref.h"\n#define V refv\n'
            with open(c.path("%s%d.cpp" % (side, p)), "w") as f:
                f.write(head + '#include "inline_common.h"\nnamespace {\n%s\n}\n%s\n' % (text, table.replace("%s_k", side + "_k") if "%s_k" in table else table))
    with open(c.path("list.h"), "w") as f:
        for k in range(nk):
            f.write('extern "C" void inl_k%d(const void*, void*, long); extern "C" void ref_k%d(const void*, void*, long);\n' % (k, k))
        f.write("static const Kernel kernels[] = {\n")
        for k in range(nk):
            f.write('  {%d, "%s", "%s", %d, inl_k%d, ref_k%d},\n' % (k, kern[k][0], kern[k][2], kern[k][1] == "double", k, k))
        f.write("};\n")
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + HARNESS, "-I" + c.dir]
    jobs, objs = c.library("lib", DEFAULT)
    ref = [c.path("ref%d.o" % p) for p in range(parts)]
    drv = c.path("inline.o")
    jobs += [(lambda p=p: sh_build([GXX, "-std=c++11", "-O0", "-ffp-contract=off"] + inc + ["-c", c.path("ref%d.cpp" % p), "-o", ref[p]])) for p in range(parts)]
    jobs += [lambda: sh_build(ORACLE + inc + ["-c", os.path.join(HARNESS, "inline.cpp"), "-o", drv])]
    cfgs = [b for b in BUILDS if (b[3] or not q) and cpu(*b[2])]
    io = {n: [c.path("%s-%d.o" % (n.replace(" ", "_"), p)) for p in range(parts)] for n, _, _, _ in cfgs}
    for n, fl, _, _ in cfgs:
        jobs += [(lambda n=n, fl=fl, p=p: sh_build(fl + inc + ["-w", "-c", c.path("inl%d.cpp" % p), "-o", io[n][p]])) for p in range(parts)]
    parallel(jobs)

    def one(n, fl):
        exe = c.path(n.replace(" ", "_"))
        cmd = [GXX] + (["-flto", "-O3"] if "-flto" in fl else []) + [drv] + ref + io[n] + objs + ["-o", exe, "-lquadmath", "-pthread"]
        rc, out, err = sh(cmd)
        if rc != 0:
            m = re.search(r"multiple definition of `([^']*)'", err)
            if m:
                c.violation("linking " + re.sub(r"\(.*", "", m.group(1)), "two translation units that include the headers do not link: %s" % err[:500], " ".join(cmd))
                return
            raise CheckError("linking failed: " + err[-2000:])
        c.run([exe, "--seed=%d" % c.seed, "--chunks=%d" % (40 if q else 300), "--cfg=" + n, "--threads=2"], label=n, timeout=300 if q else 3000)
    parallel([(lambda n=n, fl=fl: one(n, fl)) for n, fl, _, _ in cfgs])
    c.notes["builds"] = [n for n, _, _, _ in cfgs]
    c.notes["kernels"] = {k: g.kinds[k] for k in sorted(g.kinds)}
    c.rule = "distinct (build, kernel, precision) combinations in which a generated program computed and was compared"
    c.samples += ["kernel: " + k[3].strip() for k in kern[:6]]

"""C19-C21: preload library, fat library, average accuracy."""
import re, sys, sysconfig
from .core import *
from .numeric import common, cpu


def preload(c):
    lits = c.literals()
    try:
        gen = c.generate(preload=True, sub="pre")
    except CheckError as e:
        c.violation("generator", "the generator of the preload library fails: %s" % e, "src/signatures_generator.py -p")
        return
    so = c.path("libvdtpreload.so")
    prog = c.path("prog")

    def lib():
        return generated_build(c, DEFAULT + ["-shared", "-I" + os.path.join(REPO, "include")], gen, so)

    def program():
        sh_build(["gcc", "-std=gnu99", "-O1", "-fno-builtin", os.path.join(HARNESS, "preload_prog.c"), "-o", prog, "-lm"])
    if not parallel([lib, program])[0]:
        return
    exe = c.monitor("preload", ["preload.cpp"])
    a = common(c, lits, 400000 if c.quick else 2000000) + ["--dir=" + c.dir]
    c.run([exe, "--mode=gen"] + a, label="arguments")
    for name, env in (("plain", {}), ("preload", {"LD_PRELOAD": so})):
        rc, out, err = c.tool([prog, c.path("in.bin"), c.path(name + ".bin")], "program " + name, env=env, timeout=1200)
        if rc != 0 and name == "preload":
            c.violation("program with preload", "an unmodified program ends with %s when the library is loaded first: %s" % (rc, err[-500:]), prog)
            return
        if rc != 0 or err:
            raise CheckError("program %s ended with %s %s" % (name, rc, err[-500:]))
    c.run([exe, "--mode=judge"] + a, label="preload", timeout=600 if c.quick else 5000)
    c.rule = "distinct (function, sign, exponent, leading mantissa bits) of the preloaded functions and distinct other functions"
    for f in ("in.bin", "plain.bin", "preload.bin"):
        os.remove(c.path(f))
    c.assumptions = ["default build: " + " ".join(DEFAULT)]


def generator(c, script, d, files):
    """Run a generator of the tree in d. One that fails or leaves out a file breaks the property."""
    cmd = [sys.executable, "-B", os.path.join(REPO, "src", script)]
    rc, out, err = sh(cmd, cwd=d)
    missing = [f for f in files if not os.path.exists(os.path.join(d, f))]
    if rc != 0 or missing:
        c.violation("generator", "%s ended with %s, files missing: %s: %s" % (script, rc, missing, err[-500:]), " ".join(cmd))
        return False
    return True


def generated_build(c, flags, src, out, more=()):
    """Compile generated code. If the compiler works and the code does not compile, the property is broken."""
    cmd = list(flags) + [src, "-o", out] + list(more)
    rc, o, err = sh(cmd)
    if rc == 0:
        return True
    t = c.path("empty" + os.path.splitext(src)[1])
    with open(t, "w") as f:
        f.write("int vmon_empty;\n")
    rc2, o, err2 = sh([f for f in list(flags) if f != "-shared"] + ["-c", t, "-o", t + ".o"])
    if rc2 != 0:
        raise CheckError("the compiler does not work: %s" % err2[-1000:])
    c.violation("generated code does not compile", "%s: %s" % (os.path.basename(src), err[:800]), " ".join(cmd))
    return False


EMULATED = ["valgrind", "-q", "--tool=none"]
TARGETS = {"default": [], "sse3": ["pni"], "arch=corei7": ["sse4_2"], "arch=bdver1": ["fma4", "xop"], "avx": ["avx"], "avx2": ["avx2"], "avx2,fma": ["avx2", "fma"], "avx512f": ["avx512f"]}


def architecture(c, so, name, before=()):
    """The text about the processor a library gives, against the processor."""
    code, out, err = c.tool(list(before) + [sys.executable, "-B", "-S", "-c", "import ctypes, sys; f = ctypes.CDLL(sys.argv[1]).vdt_arch; f.restype = ctypes.c_char_p; print(f().decode(), f() == f())", so],
                            "architecture " + name, 100)
    if code is None:
        return
    c.count("texts about the processor", 1)
    c.cell("text: " + out.strip(), 1)
    m = re.match(r'target is "([^"]*)"((?:, "[^"]*")*) True$', out.strip())
    named = ",".join(re.findall(r'"([^"]*)"', out))
    if code != 0 or not (out.strip() == "unknown target True" or m):
        c.violation("architecture", "the library built as %s says %r, ends with %s: %s" % (name, out[:200], code, err[-300:]), so)
    elif m and not before and not cpu(*TARGETS.get(named, [named])):
        c.violation("architecture", "the library built as %s says %r, which this processor does not have" % (name, out[:200]), so)


def fatlib(c):
    q = c.quick
    lits = c.literals()
    d = c.path("wrapper")
    os.makedirs(d)
    if not generator(c, "numpy_wrapper_generator.py", d, ["vdtFatLibWrapper.h", "vdtFatLibWrapper.cc"]):
        return
    cc = os.path.join(d, "vdtFatLibWrapper.cc")
    exe = c.monitor("fat", ["fat.cpp"], link=("-lquadmath", "-pthread", "-ldl"))
    plain, exact = "-U__linux__", "-ffp-contract=off"  # one version of each function, or one per target without contraction
    cfgs = [("O2", [GXX, "-std=c++11", "-O2", plain], ""), ("O3", [GXX, "-std=c++11", "-O3", plain], ""), ("clang", [CLANGXX, "-std=c++11", "-O2", plain], ""),
            ("versions", [GXX, "-std=c++11", "-O3", exact], ""), ("versions contract", [GXX, "-std=gnu++11", "-O2"], "contract")]
    if cpu("avx2", "fma"):
        cfgs += [("avx2", [GXX, "-std=c++11", "-O3", "-mavx2", plain], ""), ("fma", [GXX, "-std=gnu++11", "-O3", "-mavx2", "-mfma", plain], "contract")]
    if not q:
        cfgs += [("O0", [GXX, "-std=c++11", "-O0", plain], ""), ("O1", [GXX, "-std=c++17", "-O1", plain], ""), ("clang O3", [CLANGXX, "-std=c++17", "-O3", plain], ""),
                 ("versions O0", [GXX, "-std=c++17", "-O0", exact], ""), ("versions O2", [GXX, "-std=c++17", "-O2", exact], "")]

    def one(name, flags, mode):
        so = c.path("libfat-%s.so" % name.replace(" ", ""))
        if not generated_build(c, flags + ["-shared", "-fPIC", "-w", "-I" + d, "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src")], cc, so):
            return
        architecture(c, so, name)
        c.run([exe, "--only=" + so, "--mode=" + mode, "--cfg=" + name] + common(c, lits, 200 if q else 6000), label="fat library " + name, timeout=400 if q else 5000)
        if name == "versions":  # the processor of the emulator has AVX2 and lacks AVX-512, so other versions are chosen
            architecture(c, so, name + " emulated", EMULATED)
            c.run(EMULATED + [exe, "--only=" + so, "--mode=" + mode, "--cfg=" + name + " emulated"] + common(c, lits, 1 if q else 20), label="fat library emulated", timeout=400 if q else 5000)
    parallel([(lambda x=x: one(*x)) for x in cfgs])
    c.rule = "distinct (build, function) resolved by name and called"
    c.assumptions = ["of the versions of a function those for this processor and for the emulated one (AVX2 without AVX-512) run"]
    c.notes["builds"] = [n for n, _, _ in cfgs]


def numpy_module(c):
    """The NumPy extension, built against stand-ins for the NumPy headers and loaded into a real interpreter."""
    q = c.quick
    d = c.path("wrapper")
    os.makedirs(d)
    if not generator(c, "numpy_wrapper_generator.py", d, ["vdtFatLibWrapper.h", "vdtFatLibWrapper.cc", "vdtNumpyWrapper.h"]):
        return
    inc = ["-I" + d, "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src")]
    fat = os.path.join(d, "libvdtFatLibWrapper.so")
    if not generated_build(c, [GXX, "-std=c++11", "-O2", "-ffp-contract=off", "-shared", "-fPIC", "-w"] + inc, os.path.join(d, "vdtFatLibWrapper.cc"), fat):
        return
    for san, name, src in [(s, n, f) for s in (False, True) for n, f in (("vdtnpfun", "vdtNumpyWrapper.c"), ("npufunc", "expfWrapper.c"))]:
        cc = ["gcc", "-std=gnu99", "-O2"] if not san else ["gcc", "-std=gnu99", "-O1", "-g", "-fsanitize=undefined", "-fno-sanitize-recover=all", "-static-libubsan"]
        if not generated_build(c, cc + ["-shared", "-fPIC", "-w"] + inc + ["-I" + os.path.join(HARNESS, "numpy_stub"), "-I" + sysconfig.get_paths()["include"]], os.path.join(REPO, "src", src),
                               os.path.join(d, name + ".so"), ["-L" + d, "-lvdtFatLibWrapper", "-Wl,-rpath," + d]):
            continue
        c.run([sys.executable, "-B", os.path.join(HARNESS, "numpy_drive.py"), d, fat, str(c.seed + san), str((40 if q else 1500) if not san else (8 if q else 100)), name],
              label="module " + name + (" with undefined behaviour checks" if san else ""), timeout=400 if q else 5000)
        if name == "vdtnpfun" and not san:
            os.makedirs(os.path.join(d, "vdtnpfun_directory"))
            shutil.copy(os.path.join(d, name + ".so"), os.path.join(d, "vdtnpfun_directory", name + ".so"))
            c.run([sys.executable, "-B", os.path.join(HARNESS, "vdt_module.py"), os.path.join(HARNESS, "numpy_py"), os.path.join(REPO, "src"), fat], label="module vdt", cwd=d)
    c.rule = "distinct (function, element type, kind of strides) of the loops called, per build"
    c.assumptions = ["NumPy is not installed here: stand-in headers record what the module registers, and the loops are called as NumPy calls them"]


def vc_wrapper(c):
    """The generated Vc wrapper, built against a stand-in for Vc with several vector widths."""
    d = c.path("wrapper")
    os.makedirs(d)
    if not generator(c, "vc_wrapper_generator.py", d, ["vdtdiag_vcWrapper.h", "vdtdiag_vcWrapper.cc"]):
        return
    inc = ["-I" + d, "-I" + os.path.join(HARNESS, "vc_stub"), "-I" + HARNESS]
    cc = os.path.join(d, "vdtdiag_vcWrapper.cc")
    def one(width, san):
        exe = c.path("vc%d%s" % (width, "s" if san else ""))
        fl = ["-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"] if san else []
        if not generated_build(c, [GXX, "-std=gnu++11", "-O1", "-w", "-DVC_WIDTH=%d" % width] + fl + inc, cc, exe, [os.path.join(HARNESS, "vc.cpp")]):
            return
        n = 300 if c.quick else 5000
        rc, out, err = c.run([exe, str(n), str(c.seed)] + ([" under sanitizers"] if san else []), label="vector width %d%s" % (width, " under sanitizers" if san else ""), timeout=400 if c.quick else 3000, ok=(0, 1),
                             env={"ASAN_OPTIONS": "exitcode=1:detect_leaks=0", "UBSAN_OPTIONS": "exitcode=1:print_stacktrace=0"})
        if rc == 1:
            m = re.search(r"(runtime error: [^\n]*|ERROR: AddressSanitizer: \S+)", err)
            if not m:
                raise CheckError("vector width %d ended with 1: %s" % (width, err[-800:]))
            c.violation("sanitizer report", "vector width %d: %s: %s" % (width, m.group(1), err[:800]), exe)
    parallel([(lambda w=w, s=s: one(w, s)) for w in (16, 32, 64) for s in (False, True)])
    c.rule = "distinct (vector width, function, length) runs, with and without sanitizers"
    c.assumptions = ["Vc is not installed here: a stand-in gives each function a distinct exact result and the widths of SSE, AVX and AVX-512"]


def mean_bits(c):
    exe = c.monitor("mean", ["mean.cpp"])
    c.run([exe] + common(c, None, 4000 if c.quick else 40000), timeout=400 if c.quick else 5000)
    c.assumptions = ["libm of this machine as the reference", "default build: " + " ".join(DEFAULT)]

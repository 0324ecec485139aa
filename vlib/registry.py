from . import core, accuracy, diag, generated, headers, inlined, numeric, programs, scripts

CHECKS = {}
for _p in accuracy.FUNCS:
    CHECKS[_p] = accuracy.accuracy
CHECKS.update(C11=numeric.special, C12=numeric.symmetry, C13=numeric.purity, C14=numeric.arrays, C15=numeric.footprint,
              C16=numeric.undefined, C17=numeric.exceptions, C18=numeric.configurations, C19=generated.preload, C20=generated.fatlib, C21=generated.mean_bits,
              C30=programs.programs, C31=programs.performance, C32=generated.numpy_module, C33=numeric.landmarks, C34=generated.vc_wrapper,
              C35=numeric.modes, C36=numeric.work, C43=numeric.vectorised, C37=inlined.programs, C38=numeric.fast_math,
              C40=scripts.tables, C41=scripts.histograms, C42=scripts.ctypes_module, C44=headers.standalone)
for _p in diag.BOUNDS:
    CHECKS[_p] = diag.pools if _p == "C24" else diag.listings if _p == "C39" else diag.simple


MONITORS = ["acc.cpp", "special.cpp", "sym.cpp", "arr.cpp", "foot.cpp", "pure.cpp", "ub.cpp", "preload.cpp", "fat.cpp", "mean.cpp", "prog.cpp", "land.cpp", "work.cpp", "vec.cpp", "fastmath.cpp"]


def setup():
    """Compile the parts of the monitors that do not depend on /repo."""
    try:
        core.parallel([(lambda m=m: core.cached_object(m, core.ORACLE)) for m in MONITORS] +
                      [(lambda m=m: core.cached_object(m, core.ORACLE + ["-frounding-math"])) for m in ("fpe.cpp", "mode.cpp")])
    except core.CheckError as e:
        print(e)
        return 1
    print("setup done")
    return 0


_ACC = ("runtime oracle on every result",
        "Explored: every float argument and a stratified sample of doubles, each result of the running code judged against a wider reference. "
        "Assumes the reference libm is accurate to its format; suspected violations are decided with libquadmath.")
TECHNIQUE = {p: _ACC for p in accuracy.FUNCS}
_D = "Explored: seeded random workloads of the real classes, observed through their public interface, captured output and files; counts in the evidence."
TECHNIQUE.update({
    "C11": ("runtime oracle on scalar results and array lanes", "Explored: all float patterns, sampled doubles, NaN payloads and pairs of special values in the default build."),
    "C12": ("metamorphic runtime monitor (argument pairs) and range monitor", "Explored: float patterns with stride 4 (quick) or all (thorough), stratified doubles, in the default build."),
    "C13": ("ThreadSanitizer, write-protected static data, state monitors, replayed call histories",
            "Explored: seeded schedules and call orders; the schedules are those the operating system produced, the race detector judges by happens-before."),
    "C14": ("differential runtime monitor, array against scalar", "Explored: every size up to 300 at all alignments, sampled larger ones, in the default build."),
    "C15": ("guard pages, read-only inputs, poisoned outputs, AddressSanitizer", "Explored: sizes and placements named in the evidence, in several builds."),
    "C16": ("own undefined-behaviour run time, AddressSanitizer, MemorySanitizer, valgrind", "Explored: stratified arguments in gcc and clang builds and workloads of the diagnostic classes. Known findings are listed by entry point and argument class."),
    "C17": ("monitor of the floating point status flags", "Explored: floats with stride 8 (quick) or all (thorough), stratified doubles, in the default build."),
    "C18": ("runtime oracle over a matrix of builds", "Explored: builds named in the evidence; those the processor cannot run are left out and named there."),
    "C19": ("differential runtime monitor of an unmodified program with and without the preloaded library", "Explored: sampled and special arguments of 20 symbols and 71 others in the default build."),
    "C20": ("differential runtime monitor of the resolved C functions with guard words", "Explored: every function of the interface, sizes 0..70 and larger, in builds with a single version of each function and with one version per instruction set, the latter also on an emulated processor without AVX-512."),
    "C21": ("statistical runtime monitor", "Explored: 4*10^7 (quick) or 4*10^8 (thorough) uniform arguments per function; the limits leave a margin of at least ten standard errors."),
    "C30": ("end-to-end runtime monitor of the programs", "Explored: runs of the real programs in a scratch directory; every file and output line is recomputed."),
    "C31": ("end-to-end runtime monitor with an interposed clock", "Explored: runs of the real program with seeded patterns, sizes, repetitions and clock steps."),
    "C32": ("runtime monitor of the module's inner loops with guard bytes, plus undefined behaviour sanitizer", "Explored: every registered loop on seeded sizes and strides; NumPy itself is replaced by stand-in headers."),
    "C33": ("runtime monitor of exact values", "Explored: all landmark arguments, every 61st (quick) or every (thorough) tiny float, sampled tiny doubles; default build."),
    "C35": ("differential runtime monitor over modes of the floating point unit", "Explored: floats with stride 1021 (quick) or 61 (thorough), stratified doubles, six modes, in the default build."),
    "C36": ("instruction counting under an instrumenting monitor (callgrind)", "Explored: special, huge, tiny, boundary and random arguments; counts are those of the default build on this processor."),
    "C43": ("instruction counting under an instrumenting monitor (callgrind)", "Explored: array functions and user loops on seeded arguments in the builds named in the evidence; counts are those of these compilers."),
    "C44": ("differential runtime monitor of programs of many source files, plus AddressSanitizer", "Explored: every header alone and repeated and seeded lists of headers, in the builds named in the evidence."),
    "C37": ("differential runtime monitor of generated programs", "Explored: seeded random programs in the builds named in the evidence; the reference calls the same functions through pointers in unoptimised code."),
    "C38": ("runtime oracle over a matrix of builds", "Explored: builds with unsafe optimisation named in the evidence; those the processor cannot run are left out and named there."),
    "C34": ("runtime monitor with guard words, address and undefined behaviour sanitizers", "Explored: every wrapper function, lengths 0..79 and longer ones, three vector widths; Vc itself is replaced by a stand-in."),
})
for _p in diag.BOUNDS:
    TECHNIQUE[_p] = ("runtime monitor of the diagnostic classes with independent recomputation", _D)
TECHNIQUE["C27"] = ("interposed clock with scripted readings and recorded calls", _D)
TECHNIQUE["C28"] = ("runtime monitor against a model of the option grammar", _D)
TECHNIQUE["C40"] = ("end-to-end runtime monitor of the script with independent recomputation", "Explored: 60 (quick) or 600 (thorough) seeded sets of performance files and options; every table line is recomputed.")
TECHNIQUE["C41"] = ("end-to-end runtime monitor of the scripts and programs with a recording stand-in", "Explored: all 44 comparisons of seeded runs of the real programs; ROOT itself is replaced by a stand-in that records the histograms.")
TECHNIQUE["C42"] = ("runtime monitor of the Python functions with unmapped pages next to every array", "Explored: every function on seeded kinds, shapes and sizes of arguments; NumPy itself is replaced by a stand-in.")
NOT_APPLICABLE = {}

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Kept as a script because JSON lines are hard to edit by hand."""
import json, os

P = []
def p(id, title, statement, over, quant, tests, files, mech, observe, state=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": quant},
              "why_tests_cant": tests, "anchors": a})

WEAK = "The existing test programs print a handful of values and always exit 0, so no numerical error can fail them; "

p("C01", "fast_exp and fast_expf accuracy, overflow and underflow",
  "fast_exp(x) is within 2 ulp of e^x for every x in [-708, 708], is +infinity for every larger x and 0 for every smaller x (infinite x included). "
  "fast_expf(x) is within 2 ulp of e^x for every float x in [-88, 88.7228] (subnormal results included), is +infinity for every x >= 88.7229 and 0 for every x < -88.",
  ["inputs"], "All double arguments (sampled by strata, around every reduction boundary and every constant of the headers) and all 2^32 float arguments.",
  WEAK + "the domain has 2^64 and 2^32 points and the reduction has about 2000 branches of its own.",
  ["include/exp.h", "include/vdtcore_common.h"],
  [("range reduction to [-ln2/2, ln2/2] in two parts", "include/exp.h fast_exp"), ("scaling by a power of two built from bits", "include/exp.h fast_exp, fast_expf"), ("saturation at the limits", "include/exp.h EXP_LIMIT, MAXLOGF, MINLOGF")],
  ["return value of vdt::fast_exp", "return value of vdt::fast_expf"])
p("C02", "fast_log and fast_logf accuracy and limits",
  "fast_log(x) is within 1.5 ulp of ln x for every x in [2.2250738585072014e-308, 1e307], is +infinity for every x > 1e307 and NaN for every x < 0. "
  "fast_logf(x) is within 1.5 ulp of ln x for every positive normal float, is +infinity for +infinity and NaN for every x < 0.",
  ["inputs"], "All double arguments (sampled by strata, around powers of two, around sqrt(2)*2^k, around 1) and all 2^32 float arguments.",
  WEAK + "cancellation near 1 and the switch at sqrt(1/2) need targeted arguments.",
  ["include/log.h", "include/vdtcore_common.h"],
  [("mantissa and exponent split", "include/vdtcore_common.h getMantExponent"), ("switch at sqrt(1/2)", "include/log.h fast_log"), ("limits handled after the polynomial", "include/log.h LOG_UPPER_LIMIT, LOG_LOWER_LIMIT")],
  ["return value of vdt::fast_log", "return value of vdt::fast_logf"])
p("C03", "fast_sin, fast_cos and fast_sincos accuracy",
  "For every double |x| <= 1e8, fast_sin(x) is within 2.5e-16*min(1,|x|) of sin x and fast_cos(x) within 2.5e-16 of cos x; for every float |x| <= 8192, fast_sinf(x) is within 1e-7*min(1,|x|) of sin x and fast_cosf(x) within 1e-7 of cos x (plus the smallest subnormal). "
  "In the default build fast_sincos and fast_sincosf deliver exactly the numbers that fast_sin and fast_cos (fast_sinf and fast_cosf) return.",
  ["inputs"], "All arguments of the domain: doubles sampled by strata and around every multiple of pi/4 up to 8192 and sampled multiples up to 1e8, floats exhaustively.",
  WEAK + "errors of the reduction show only close to multiples of pi/4 or at large arguments.",
  ["include/sincos.h", "include/sin.h", "include/cos.h"],
  [("three-part Cody-Waite reduction and octant number", "include/sincos.h reduce2quadrant"), ("octant-dependent swap and signs", "include/sincos.h fast_sincos_m45_45, fast_sincos")],
  ["return values of vdt::fast_sin, fast_cos, fast_sinf, fast_cosf", "output arguments of vdt::fast_sincos, fast_sincosf"])
p("C04", "fast_tan and fast_tanf accuracy",
  "For every double |x| <= 1e8, with t = tan x, fast_tan(x) is within 4e-16*min(1,|x|)*(1+t*t) of t, widened by 3.5e-15*|t| where |t| < 1.01e-7. "
  "For every float |x| <= 8192, fast_tanf(x) is within 1.5e-7*min(1,|x|)*(1+t*t) of t (both plus the smallest subnormal), and in particular never NaN.",
  ["inputs"], "All arguments of the domain: doubles sampled by strata and around multiples of pi/4, floats exhaustively; subnormals and zero included.",
  WEAK + "poles, zeros and the small-argument branch are single points of the domain.",
  ["include/tan.h", "include/sincos.h"],
  [("reduction and octant number", "include/tan.h details::reduce2quadranttan"), ("reciprocal in odd quadrants", "include/tan.h fast_tan"), ("identity for small arguments", "include/tan.h fast_tan")],
  ["return value of vdt::fast_tan", "return value of vdt::fast_tanf"])
p("C05", "fast_asin, fast_acos and float forms accuracy and domain",
  "For every x in [-1, 1], fast_asin(x) is within 1.5 ulp of asin x, fast_asinf(x) within 3 ulp, fast_acos(x) within 5e-16 of acos x and fast_acosf(x) within 4e-7. For every |x| > 1, infinities included, all four return NaN.",
  ["inputs"], "All double arguments sampled by strata (dense at 0, 0.5, 0.625, +-1) and all 2^32 float arguments.",
  WEAK + "the loss of accuracy near +-1 and at the switch between the two expansions needs neighbours of single points.",
  ["include/asin.h"],
  [("switch at 0.625 between two rational approximations", "include/asin.h fast_asin"), ("acos = pi/2 - asin", "include/asin.h fast_acos"), ("square root of 1-x", "include/asin.h")],
  ["return values of vdt::fast_asin, fast_asinf, fast_acos, fast_acosf"])
p("C06", "fast_atan and fast_atanf accuracy on the whole line",
  "For every x that is not NaN, infinities and subnormals included, fast_atan(x) is within 1.5 ulp of atan x and fast_atanf(x) is within 3 ulp of atan x.",
  ["inputs"], "All double arguments sampled by strata and all 2^32 float arguments.",
  WEAK + "the three ranges of the reduction meet at tan(pi/8), 0.66 and tan(3pi/8).",
  ["include/atan.h"],
  [("reduction to [0, 0.66] with extra bits of pi/2", "include/atan.h fast_atan MOREBITS"), ("sign restored from the argument", "include/atan.h")],
  ["return value of vdt::fast_atan", "return value of vdt::fast_atanf"])
p("C07", "fast_atan2 and fast_atan2f give the angle in every quadrant",
  "For all finite y and x, fast_atan2(y, x) is within 2 ulp and fast_atan2f(y, x) within 4 ulp of the angle of the point (x, y) in [-pi, pi], on the axes as well. "
  "For y = 0 of either sign the result is 0 if x >= 0 (the origin and x = -0 included) and +pi if x < 0.",
  ["inputs"], "All pairs of finite arguments, sampled by quadrant, ratio and magnitude, with all pairs of special values enumerated (zeros of both signs, subnormals, largest numbers, equal magnitudes).",
  WEAK + "pairs of extreme magnitudes and the axes are never tried.",
  ["include/atan2.h", "include/atan.h"],
  [("folding into the first octant and back", "include/atan2.h fast_atan2"), ("guard of the division by zero", "include/atan2.h oneIfXXZero")],
  ["return value of vdt::fast_atan2", "return value of vdt::fast_atan2f"])
p("C08", "fast_tanh and fast_tanhf accuracy on the whole line",
  "For every x that is not NaN, infinities and subnormals included, fast_tanh(x) is within 8 ulp of tanh x and fast_tanhf(x) is within 8 ulp of tanh x.",
  ["inputs"], "All double arguments sampled by strata and all 2^32 float arguments.",
  WEAK + "the switches between identity, rational form, exponential form and saturation need targeted arguments.",
  ["include/tanh.h", "include/exp.h"],
  [("switch between rational approximation and exponential form", "include/tanh.h fast_tanh"), ("saturation to +-1", "include/tanh.h")],
  ["return value of vdt::fast_tanh", "return value of vdt::fast_tanhf"])
p("C09", "Inverse square roots: accuracy on all positive normal numbers",
  "For every positive normal x the relative error against 1/sqrt(x) is at most 4e-16 for fast_isqrt, 5e-6 for fast_isqrtf, 3.5e-11 for fast_approx_isqrt and 1.8e-3 for fast_approx_isqrtf. The non-fast isqrt and isqrtf are correct to 1.5 ulp.",
  ["inputs"], "All positive normal doubles sampled by strata (all exponents, odd and even) and all positive normal floats.",
  WEAK + "a wrong magic constant or a missing Newton step only shows as a larger error.",
  ["include/sqrt.h"],
  [("bit-level first guess", "include/sqrt.h isqrt_general"), ("number of Newton iterations", "include/sqrt.h fast_isqrt, fast_approx_isqrt")],
  ["return values of vdt::fast_isqrt, fast_isqrtf, fast_approx_isqrt, fast_approx_isqrtf, isqrt, isqrtf"])
p("C10", "Inverses: accuracy on all normal numbers of both signs",
  "For every normal x of either sign the relative error against 1/x is at most 8e-16 for fast_inv, 1e-5 for fast_invf, 7e-11 for fast_approx_inv and 3.6e-3 for fast_approx_invf (plus one smallest subnormal where 1/x is subnormal), so the sign is that of x. The non-fast inv and invf return the correctly rounded 1/x.",
  ["inputs"], "All normal doubles sampled by strata and all normal floats.",
  WEAK + "negative arguments and extreme exponents are not looked at.",
  ["include/inv.h", "include/sqrt.h"],
  [("square of the inverse square root with the sign restored", "include/inv.h fast_inv")],
  ["return values of vdt::fast_inv, fast_invf, fast_approx_inv, fast_approx_invf, inv, invf"])
p("C11", "NaN and out-of-domain arguments are never hidden",
  "Every fast function returns NaN when an argument is NaN, whatever its sign and payload: exp, log, sin, cos, tan, asin, acos, atan, tanh, isqrt, inv, the approximate forms, and atan2 with NaN in either or both arguments, in double and float, as scalars and as array functions. "
  "Likewise asin and acos of every |x| > 1 and log of every x < 0 are NaN, while exp(+inf) = log(+inf) = +inf, exp(-inf) = 0, tanh(+-inf) = +-1 and atan(+-inf) = +-pi/2 within 3 ulp.",
  ["inputs"], "All NaN bit patterns in float and sampled NaN payloads in double, paired with all special values for atan2; all floats and sampled doubles outside the domains; every entry point, scalar and array.",
  "The existing tests feed no NaN and no out-of-domain argument.",
  ["include/log.h", "include/asin.h", "include/atan2.h", "include/exp.h", "include/tanh.h", "include/sqrt.h", "include/inv.h"],
  [("limits tested after the polynomial", "include/log.h, include/exp.h"), ("arithmetic that propagates NaN", "all headers")],
  ["return values of all vdt::fast_* scalar functions", "output arrays of all vdt::fast_*v and fast_*fv"])
p("C12", "Exact symmetries and ranges of the fast functions",
  "In the default build f(-x) = -f(x) holds exactly for fast_sin, fast_tan, fast_asin, fast_atan, fast_tanh, fast_inv, fast_approx_inv and their float forms, f(-x) = f(x) for fast_cos and fast_cosf, and fast_atan2(-y, x) = -fast_atan2(y, x) for y not 0. "
  "Results never leave the range of the function: |sin|, |cos| (for |x| <= 1e8, float 8192) and |tanh| are at most 1, |asin| and |atan| at most pi/2 and acos in [0, pi] and |atan2| at most pi, each rounded to the format, and exp, isqrt are never negative.",
  ["inputs"], "All arguments of the domain, doubles sampled by strata and critical points, floats exhaustively (every other magnitude in pairs).",
  WEAK + "no test compares two results with each other.",
  ["include/sin.h", "include/cos.h", "include/sincos.h", "include/tan.h", "include/asin.h", "include/atan.h", "include/atan2.h", "include/tanh.h", "include/inv.h"],
  [("work on the absolute value, sign restored at the end", "all odd functions"), ("octant sign logic", "include/sincos.h")],
  ["return values of the scalar functions for x and -x"])
p("C13", "Pure and thread-safe: no history, no races, no environment change",
  "The result of every scalar and array function depends only on its arguments: the bits are the same in any order of calls, after any other calls, and from any number of threads running at once on the same inputs. "
  "No call writes shared memory (no data race is possible between calls with separate outputs), allocates memory or changes the rounding mode or the floating point control state, no fast function changes errno (asin and acos: for |x| <= 1), and no result depends on the stack or register contents left by earlier code.",
  ["schedules", "histories"], "Random interleavings of all entry points in 1 to 8 threads, random call orders, a million repetitions, calls preceded by calls with resembling arguments, and calls preceded by other functions, dirty stack and dirty registers.",
  "The tests are single-threaded and call each function once per argument.",
  ["include/vdtcore_common.h", "src/signatures_generator.py", "include/sincos.h"],
  [("header-only functions without static state", "include/*.h")],
  ["return values bit by bit", "race detector reports", "errno, rounding mode, control registers", "calls to malloc"])
p("C14", "Array functions equal the scalar functions element by element",
  "In the default build, for every array function (libm-named, isqrt, inv, identity, identity2D and all fast ones, double and float) and every size, out[i] has exactly the bits of the scalar function of the same name applied to in[i] (any NaN stands for any NaN). "
  "This holds for every length including 0, 1, lengths not divisible by the vector width and lengths above 2^16, and for every alignment of the arrays relative to each other.",
  ["inputs", "configurations"], "All 56 array entry points, sizes 0..300, sampled larger ones up to 10^6, 2^24 and for some functions more than 2^31, all element offsets 0..8 of inputs and outputs, values from all strata including specials at every lane.",
  "The tests compare arrays with scalars for one size with aligned arrays and only print the difference.",
  ["src/signatures_generator.py", "include/vdtMath.h"],
  [("generated loop around the scalar function", "src/signatures_generator.py create_vector_signature")],
  ["output arrays of vdt::*v and vdt::*fv"])
p("C15", "Array functions touch exactly their arrays",
  "An array function called with size n reads only elements 0..n-1 of its inputs, writes each of elements 0..n-1 of its output and nothing else, and leaves its inputs unchanged. With n = 0 nothing is read or written, null pointers included.",
  ["inputs", "configurations"], "All 56 array entry points; sizes 0..130, sampled larger ones up to 200000, 2^24 and for some functions more than 2^31, arrays placed against inaccessible pages on both sides and with guard words around them, plain and instrumented builds.",
  "The tests use arrays from new[] without guards, so an access past the end goes unnoticed.",
  ["src/signatures_generator.py"],
  [("loop bound", "src/signatures_generator.py create_vector_signature"), ("const-qualified inputs", "include/*.h array signatures")],
  ["page faults, memory sanitizer reports, guard words, input arrays after the call"])
p("C16", "No undefined behaviour for any argument with a specified result",
  "Evaluating any fast function, scalar or array, at any argument for which a result is specified (NaN, infinities, zeros and subnormals included where specified) executes no undefined operation: no signed overflow, no out-of-range shift, no conversion of an unrepresentable floating point value to an integer, no misaligned or aliasing-invalid access, no read of an uninitialised value. "
  "The same holds for the diagnostic classes under their normal use (pools, responses, comparisons, timings, option parsing, reading truncated or empty files).",
  ["inputs"], "Inputs of all strata through all entry points, and workloads of the diagnostic classes, in builds instrumented with the address, undefined-behaviour (with float-cast-overflow, implicit misalignment) and memory sanitizers.",
  "The tests run uninstrumented; undefined behaviour that happens to work passes.",
  ["include/vdtcore_common.h", "include/exp.h", "include/sincos.h", "include/log.h", "include/diagnostic/vdtdiag_helper.h", "include/diagnostic/vdtdiag_filePersistence.h"],
  [("unions to convert between bits and numbers", "include/vdtcore_common.h"), ("integer arithmetic on exponents", "include/exp.h, include/log.h")],
  ["sanitizer reports"])
p("C17", "No spurious invalid or divide-by-zero exceptions",
  "In the default build no fast function raises the invalid or the divide-by-zero floating point exception for finite arguments in its domain (exp and tanh: all finite |x| <= 1e9; log, isqrt, inv: normal and of valid sign; sin, cos, tan: |x| <= 1e8, float 8192; asin, acos: [-1, 1]; atan and atan2: all finite, the origin included), as scalar or in an array call. "
  "For arguments whose result and intermediate quantities are of ordinary size (1e-3 <= |x| <= 1e3 within the domain, exp within [-80, 80]) overflow and underflow are not raised either.",
  ["inputs"], "All floats of the domain (strided in the quick tier) and sampled doubles, scalar and array entry points, with exceptions unmasked or flags examined.",
  "The tests never examine the exception flags, and a program that unmasks exceptions would be killed.",
  ["include/atan2.h", "include/atan.h", "include/asin.h", "include/tan.h", "include/exp.h"],
  [("guard of the divisions", "include/atan2.h oneIfXXZero, include/atan.h"), ("select instead of branch", "all headers")],
  ["fetestexcept after calls"])
p("C18", "Accuracy does not depend on the build configuration",
  "The accuracy bounds stated for fast_exp, log, sin, cos, tan, asin, acos, atan, atan2, tanh, isqrt, inv and the approximate forms (double: 2, 1.5 ulp for exp, log; 2.5e-16 for sin, cos; 4e-16*(1+t*t) for tan; 1.5 ulp asin, atan; 5e-16 acos; 2 ulp atan2; 8 ulp tanh) hold for scalar and array forms under every supported build: gcc and clang, -O0 to -O3 and -Os, C++11 to C++20, with SSE4, AVX, AVX2, FMA or AVX-512 enabled, and -fPIC. "
  "-ffast-math and -Ofast are excluded.",
  ["configurations", "inputs"], "A matrix of compilers, optimisation levels, language levels and instruction sets times the workloads of the accuracy properties, scalar and array.",
  "The tests are built once with one compiler and one set of flags.",
  ["include/exp.h", "include/sincos.h", "include/tan.h", "CMakeLists.txt"],
  [("reduction in several parts that must not be re-associated", "include/sincos.h, include/exp.h, include/tan.h")],
  ["return values and output arrays in every build"])
p("C19", "Preload library gives unmodified programs the fast functions",
  "A library built from the preload form of the generated sources, loaded before libm into an unmodified program, makes asin, acos, atan, atan2, cos, exp, log, sin, tan, tanh and their f forms return exactly the bits of the corresponding fast function, with the arguments of atan2 in the order (y, x). "
  "Functions not in that list keep their libm results.",
  ["inputs", "programs"], "A separate program without knowledge of the library, run with and without preloading, over sampled and special arguments for the 20 symbols and a set of other libm functions.",
  "No test builds or loads the preload form.",
  ["src/signatures_generator.py", "src/CMakeLists.txt"],
  [("generated C-linkage wrappers", "src/signatures_generator.py create_preload_signatures")],
  ["results printed by the preloaded program"])
p("C20", "C interface of the generated fat library computes the right function",
  "Each function vdt_NAME, vdt_NAMEf (scalars) and vdt_NAMEv, vdt_NAMEfv (arrays) of the generated C wrapper, for NAME in asin, atan, atan2, cos, exp, inv, log, sin, sincos, isqrt, identity, sqrt, div, fma, fmac, returns the value of the corresponding library function (sqrt, div, fma and fmac: the rounded square root, quotient, x*y+z, and x*y+z rounded once) for every element; a build that contracts products and sums may differ by rounding. "
  "The array forms write exactly the given number of elements, and the demonstration fused multiply-add in double keeps double precision. The generator runs under Python 3, and what it writes compiles with g++ with one version per instruction set (Linux) and with g++ and clang++ without, where vdt_arch() names a target the processor has or 'unknown target'.",
  ["inputs", "configurations"], "All exported functions found in the generated header, sizes 0..70 and larger, values from all strata, builds with one version per instruction set and with a single version.",
  "No test generates or builds the fat library.",
  ["src/numpy_wrapper_generator.py", "src/fatlib.h", "include/stdwrap.h"],
  [("generated wrappers", "src/numpy_wrapper_generator.py"), ("std wrappers", "include/stdwrap.h")],
  ["return values and output arrays of the vdt_* C functions"])
p("C21", "Average accuracy against libm is as documented or better",
  "Over the benchmark intervals ([-5000, 5000] for sin, cos, tan, atan; [1e-4, 5000] for log, isqrt; [-1, 1] for asin, acos; +-705 for exp, float +-85) the mean number of differing bits against libm (isqrt against 1/sqrt) is in double at most 0.40 for acos, 0.12 asin, 0.30 atan, 0.27 cos, 0.16 exp, 0.48 isqrt, 0.03 log, 0.27 sin and 0.37 tan. "
  "In float it is at most 0.42 for acos, 0.33 asin, 0.39 atan, 0.19 cos, 0.29 exp, 3.8 isqrt, 0.03 log, 0.19 sin and 0.38 tan.",
  ["inputs"], "Uniform samples of at least 20 million arguments per function.",
  "The table of the read-me was produced by hand; no test computes it.",
  ["include/exp.h", "include/sincos.h", "include/tan.h", "include/asin.h", "include/atan.h", "include/log.h", "include/sqrt.h", "ReadMe.md"],
  [("coefficients of the approximations", "include/*.h")],
  ["return values compared bitwise with libm"])
p("C22", "Bit difference and bit strings of two numbers are right",
  "The number of differing bits reported for two doubles or two floats is the bit length of the absolute difference of their bit patterns read as unsigned integers: 0 exactly when the patterns are equal, symmetric in the arguments, at most 64 (32). "
  "The textual form of a number is its sign bit, its exponent bits (11 or 8) and its mantissa bits (52 or 23), separated by single blanks, for every pattern including NaN, infinities, zeros and subnormals.",
  ["inputs"], "All pairs of special patterns, pairs at every distance 2^k and 2^k-1, and random pairs in both precisions.",
  "Tests print the difference of a few pairs and check nothing.",
  ["include/diagnostic/vdtdiag_helper.h"],
  [("difference of the patterns and position of its top bit", "include/diagnostic/vdtdiag_helper.h diffbit"), ("bit string", "include/diagnostic/vdtdiag_helper.h getbsasstr")],
  ["return values of vdth::diffbit, vdth::getbsasstr, vdth::fp2uint64"])
p("C23", "Hexadecimal persistence of numbers is lossless",
  "A double or float written with the hexadecimal manipulator to any text stream and read back with the matching reader has exactly the same bits, for every pattern including NaN payloads, infinities, signed zeros and subnormals, for any sequence of values of mixed precision in one stream. "
  "The text is 0x, the pattern in lower-case hexadecimal and one blank, and afterwards the stream formats and parses integers in decimal.",
  ["inputs", "histories"], "All float patterns (strided in the quick tier), sampled and special double patterns, random sequences mixing precisions and decimal integers in one stream.",
  "Tests write one file and do not read it back.",
  ["include/diagnostic/vdtdiag_filePersistence.h", "include/vdtcore_common.h"],
  [("conversion through the bit pattern", "include/diagnostic/vdtdiag_filePersistence.h fpToHex, fpFromHex")],
  ["text written to the stream", "value read back"])
p("C24", "Random pools: range, reproducibility and lossless files",
  "A pool of n numbers between min and max contains exactly n numbers, all in [min, max], spread over the whole interval; pools made with the same limits, size and seed are bit for bit equal (in the same and in another process), pools with other seeds differ, and a larger pool with one dimension starts with the numbers of the smaller. "
  "A pool written to a file (header of exactly 5 lines stating the precision, minimum, maximum and count) and read from it holds the same numbers in the same order, X and Y of two-dimensional pools not mixed, and writing a pool that was read from a file reproduces everything but the first line.",
  ["inputs", "histories"], "Random limits over many magnitudes, sizes 1..5000, up to 136000 and above 2^20 and 2^24, seeds of either sign, one and two dimensions, double and float, write-read-write-read chains.",
  "The test creates one pool, prints it and does not compare anything.",
  ["include/diagnostic/vdtdiag_random.h", "include/diagnostic/vdtdiag_interfaces.h"],
  [("seeded engine and uniform distribution", "include/diagnostic/vdtdiag_interfaces.h fillVector"), ("five header lines skipped on reading", "include/diagnostic/vdtdiag_random.h")],
  ["numbers returned by the pool, files written"])
p("C25", "Responses record every input with its result, in memory and on disk",
  "A response built from inputs and a scalar or array function (one or two arguments) holds the inputs unchanged and in order and, for each, exactly the value the function gave. "
  "Its file has 5 header lines naming precision and function, one line per input with inputs and result in hexadecimal, reading it restores the same inputs and outputs bit for bit (NaN, infinities, subnormals included), and writing a response that was read reproduces everything but the first line.",
  ["inputs", "histories"], "Random inputs with specials, sizes 1..3000 and up to 136000, scalar and array functions, one and two arguments, double and float, write-read-write chains.",
  "The test prints responses and checks nothing.",
  ["include/diagnostic/vdtdiag_fcnResponse.h", "include/diagnostic/vdtdiag_interfaces.h"],
  [("loop over inputs", "include/diagnostic/vdtdiag_fcnResponse.h"), ("five header lines skipped on reading", "include/diagnostic/vdtdiag_fcnResponse.h")],
  ["inputs and outputs of the response, files written"])
p("C26", "Comparisons report the right statistics and lossless rows",
  "A comparison of two lists of results reports as maximum, minimum and mean the maximum, minimum and mean of the numbers of differing bits of the pairs, as RMS the sum of squared deviations from the mean divided by n-1 (-1 when n is 1), and says there is a difference exactly when some pair differs. "
  "Its file has 5 header lines, a line with maximum, minimum, mean and RMS (the last two as hexadecimal doubles), and one line per pair with inputs, both results in hexadecimal, the number of differing bits and the inputs in decimal; reading it gives the same statistics and all rows again, whatever the values (NaN and infinite inputs included).",
  ["inputs", "histories"], "Random pairs at controlled bit distances with specials, sizes 1..3000, up to 136000 and some millions, one and two arguments, double and float, construction, printing, writing, reading and rewriting.",
  "The test compares two functions and prints; statistics are not recomputed independently.",
  ["include/diagnostic/vdtdiag_fcnComparison.h", "include/diagnostic/vdtdiag_interfaces.h"],
  [("sums of first and second powers", "include/diagnostic/vdtdiag_interfaces.h m_calcStats"), ("row writer and reader", "include/diagnostic/vdtdiag_fcnComparison.h")],
  ["printed statistics (tabular and long form), files written, rows printed"])
p("C27", "Timings: elapsed time and averages are right for every clock reading",
  "The timer returns the nanoseconds between start and stop for all clock readings, across second boundaries and for intervals up to days. "
  "A performance measurement with r repetitions calls the function on every input 2r times in order (r of them warm-up, not counted), reports as average the counted time divided by r times the number of inputs, and as error sqrt((sum of squared repetition times - N*avg*avg)/(N-1))/sqrt(N) with N = r times the number of inputs, also when products exceed 32 bits or squares exceed 64 bits.",
  ["inputs", "histories"], "Scripted clock readings (including boundaries of seconds and long intervals), sizes 2..5000, repetitions 1..200, scalar and array functions, one and two arguments, double and float.",
  "The test measures real time and prints it; a wrong average looks plausible.",
  ["include/diagnostic/vdtdiag_fcnPerformance.h", "include/diagnostic/vdtdiag_helper.h"],
  [("difference of seconds and nanoseconds", "include/diagnostic/vdtdiag_helper.h timer"), ("warm-up excluded", "include/diagnostic/vdtdiag_fcnPerformance.h"), ("mean and error", "include/diagnostic/vdtdiag_fcnPerformance.h calculate_mean_and_err")],
  ["return value of the timer, averages, errors and printed line, calls recorded by the measured function"])
p("C28", "Command line options are parsed as documented",
  "Parsing accepts -x, -x=value, --long and --long=value for registered options only, whichever form is used the option is found under its short name and its value is everything after the first '=' (empty if there is none); unset options report not set and an empty value. "
  "Unknown options and options given twice (in either form) make parsing fail, -h or --help prints every option with its long name and help text and still succeeds, and help for one option prints exactly that option.",
  ["inputs"], "Random option tables (up to 80 options) and random command lines (values of up to 70000 characters) with known, unknown, repeated, empty and odd arguments ('=' in values, '=' first, prefixes of options).",
  "No test parses a command line.",
  ["include/diagnostic/vdtdiag_simpleCmd.h"],
  [("split at the first '='", "include/diagnostic/vdtdiag_simpleCmd.h parseCmd"), ("duplicate detection", "include/diagnostic/vdtdiag_simpleCmd.h parseCmd")],
  ["return value of parsing, values, printed help"])
p("C29", "Function tables bind each name to its function and interval",
  "Every entry of the function tables used by the benchmarks has the function its name says (fast or reference, double or float, scalar or array), bit for bit, and the numbers of the right pool: exponentials the exponential pool, logarithms and inverse square roots the positive pool, asin and acos the [-1, 1] pool, everything else the symmetric pool. "
  "Each table lists all functions once (25 for one argument: identity, 11 references and 13 fast, per precision and form; 3 for two arguments), and the list of basic names has the 11 reference names without fast or identity.",
  ["inputs"], "All entries of all eight tables evaluated on sampled pools and compared with directly called functions.",
  "The tests use single functions; a wrong binding yields a plausible benchmark of another function.",
  ["include/diagnostic/vdtdiag_fcnTuples.h"],
  [("tables of tuples", "include/diagnostic/vdtdiag_fcnTuples.h getFunctionTuples, getFunctionTuplesvect")],
  ["names, functions and input vectors of the tables"])
p("C30", "Benchmark and comparison programs produce correct files end to end",
  "vdtArithmBenchmark with nickname N and size S writes one response file N__NAME__response.txt for each function of the tables and the two-argument arctangents in all forms, each with S rows whose inputs are spread uniformly over the interval of the function ([-5000, 5000]; log and isqrt [1e-4, 5000]; asin, acos and atan2 [-1, 1]; exp +-705, float +-85) and whose results are those of the named function (fast functions: the library's bits; references: libm's bits). "
  "vdtArithmComparison on lists of reference and test files writes comparison__NICK__NAME.txt (NAME: the reference's function name without a leading Fast_) for each pair with the rows and statistics of the two files, prints one table line per pair with the same statistics to two decimals, skips missing files with a message, and fails when a list is missing or their lengths differ.",
  ["inputs", "programs", "configurations"], "Both programs built from the tree and run on several sizes, with nicknames that contain names of functions, and on lists of all functions, with missing and mismatched files.",
  "No test runs the programs.",
  ["progs/vdtArithmBenchmark.cpp", "progs/vdtArithmComparison.cpp", "include/diagnostic/vdtdiag_fcnTuples.h"],
  [("loops over the tables", "progs/vdtArithmBenchmark.cpp"), ("list parsing and precision detection", "progs/vdtArithmComparison.cpp")],
  ["files written, standard output, exit status"])
p("C31", "Performance benchmark measures the selected functions and reports right times",
  "vdtPerfBenchmark with nickname N, size S, repetitions R and pattern P measures exactly the functions of the tables (identity, 11 references and 13 fast ones, and identity, atan2 and fast atan2 of two arguments, in 4 forms: 112 names) whose whole name matches the regular expression P (default: all), each once, and prints one line per function, 'Function NAME : AVG +- ERR ns', with the same lines in N__performance_benchmark.txt. "
  "AVG is the measured nanoseconds per number and ERR its error as defined for a measurement with R repetitions on S numbers, so that with a clock advancing D ns from each start to its stop AVG is D/S for every function, and without a nickname or with bad options nothing is measured.",
  ["inputs", "programs", "configurations"], "17 patterns (all, none, one form, alternatives, prefixes that must not match) with random sizes and repetitions (up to 150000 and 90000), limits, option spellings and clock steps from 1 ns to 20 s.",
  "No test runs the program, and real clocks give no reference to compare the printed times with.",
  ["progs/vdtPerfBenchmark.cpp", "include/diagnostic/vdtdiag_fcnPerformance.h", "include/diagnostic/vdtdiag_fcnTuples.h"],
  [("selection by regular expression", "progs/vdtPerfBenchmark.cpp main"), ("average and error", "include/diagnostic/vdtdiag_fcnPerformance.h")],
  ["standard output, file written, clock readings supplied by an interposed clock"])
p("C32", "NumPy module: names, types and results for arrays with any strides",
  "The Python 3 NumPy module can be imported and registers vdt_NAME for NAME in asin, atan, atan2, cos, exp, inv, log, sin, sincos, isqrt, identity, sqrt, div, fma and fmac with the right numbers of inputs and outputs (atan2, div: 2 to 1; fma, fmac: 3 to 1; sincos: 1 to 2; others 1 to 1) and one loop for single and one for double precision. "
  "Each loop called for n elements with any strides that are multiples of the element size (contiguous, with gaps, 0 for broadcast inputs, negative) stores for each element exactly the bits of the scalar C function vdt_NAME (vdt_NAMEf) of the elements addressed, and writes nothing else. "
  "The module npufunc does the same for its one function vdt_expv, the exponential, and the module vdt, imported beside the built extension, offers all 15 functions of the NumPy module and vdt_arch(), the text of the C function vdt_arch.",
  ["inputs", "programs"], "Every registered loop on lengths 0 to 69 and up to 166000 and four kinds of strides with guard bytes around every array.",
  "The tests do not build the module; wrong names or ignored strides appear only in an interpreter and with non-contiguous arrays.",
  ["src/vdtNumpyWrapper.c", "src/numpy_wrapper_generator.py", "src/vdt.py"],
  [("inner loops", "src/vdtNumpyWrapper.c"), ("registration", "src/vdtNumpyWrapper.c PyInit_vdtnpfun"), ("tables of functions", "src/numpy_wrapper_generator.py create_numpy_header")],
  ["registered names, types, loops; memory after calls of the loops"])
p("C33", "Exact values at landmark and at tiny arguments",
  "In the default build, as scalars and in arrays, double and float: fast_exp(+-0) = fast_cos(+-0) = 1, fast_log(1) = fast_acos(1) = fast_sin(+-0) = 0, fast_asin(+-1) = +-pi/2, fast_acos(-1) = pi, fast_acos(+-0) = pi/2 and fast_atan(+-1) = +-pi/4 (the rounded numbers), fast_tan, fast_asin, fast_atan and fast_tanh of +-0 are +-0, and fast_inv, fast_approx_inv and inv of +-0 are +-infinity; fast_isqrt(1) = fast_inv(1) = 1 in double. "
  "For every |x| <= 1e-9 (float: 1e-5), zero and subnormals included, fast_sin, fast_tan, fast_asin and fast_atan return x and fast_cos returns 1.",
  ["inputs"], "All landmark arguments in all array lengths 1 to 19; every float up to 1e-5 in the thorough tier (every 61st in the quick one) and sampled doubles of every exponent.",
  "Programs test for exact 0 and 1, and a bound in ulp or relative to 1 lets them go; the tests compare with nothing.",
  ["include/exp.h", "include/log.h", "include/sincos.h", "include/sin.h", "include/cos.h", "include/tan.h", "include/asin.h", "include/atan.h", "include/tanh.h", "include/inv.h", "include/sqrt.h"],
  [("polynomials around 0", "include/*.h"), ("sign handling", "include/tan.h, include/asin.h, include/atan.h, include/inv.h")],
  ["results of the scalar and array functions"])
p("C34", "Generated Vc wrapper applies the right function to exactly n elements",
  "The generated wrapper for the Vc library has scalar and array functions vc_NAME, vc_NAMEf, vc_NAMEv and vc_NAMEfv for NAME in asin, atan, cos, inv, log, sin, isqrt and identity that apply Vc's function of that name (inv: reciprocal, isqrt: rsqrt, identity: the number itself) in the given precision. "
  "For every length, 0 and lengths that are no multiple of the vector size included, and for any alignment the array functions compute every element, write exactly n elements and read no other than the n given. "
  "The generator runs under Python 3 and what it writes compiles.",
  ["inputs", "configurations"], "All 32 functions on lengths 0 to 79 and longer ones up to 2^20 for vectors of 16, 32 and 64 bytes.",
  "The wrapper is generated only if Vc is there; the remainder loop depends on length modulo vector size.",
  ["src/vc_wrapper_generator.py"],
  [("vector loop and remainder", "src/vc_wrapper_generator.py get_function_code"), ("names", "src/vc_wrapper_generator.py get_vc_fcnname_translation")],
  ["outputs, guard elements, address sanitizer reports"])

p("C35", "Results in flush-to-zero mode and in the other rounding modes",
  "With the processor flushing subnormals to zero (FTZ and DAZ set, rounding to nearest) every fast function, scalar and array, double and float, of an argument in its stated domain returns the same number as in the default mode whenever argument and result are zero, NaN, infinite or at least 1e-300 (float: 1e-35) in magnitude. "
  "With rounding upward, downward or toward zero (FTZ or not) such results have at most twice the error of the bounds stated for rounding to nearest (exp 4 ulp; log, asin, atan 3 ulp, floats 3, 6, 6; sin and cos 5e-16, floats 2e-7; tan 8e-16*(1+t*t), float 3e-7; acos 1e-15, float 8e-7; atan2 4 ulp, float 8; tanh 16 ulp; isqrt relative 8e-16, float 1e-5; inv 1.6e-15, float 2e-5), "
  "and infinite, zero and NaN results of those statements are unchanged.",
  ["inputs", "configurations"], "All functions in six modes of the unit on stratified arguments of the domains: every 1021st (quick) or 61st (thorough) float, neighbours of every constant of the headers, sampled doubles.",
  "Event loops of physics programs run with subnormals flushed and interval arithmetic with directed rounding; the tests run in the default mode only, and tricks such as adding and subtracting a large constant work in that mode alone.",
  ["include/exp.h", "include/log.h", "include/sincos.h", "include/tan.h", "include/asin.h", "include/atan.h", "include/atan2.h", "include/tanh.h", "include/sqrt.h", "include/inv.h", "include/vdtcore_common.h"],
  [("floor by truncation and comparison", "include/vdtcore_common.h fpfloor"), ("octant number by conversion to integer", "include/sincos.h, include/tan.h"), ("scaling by bits of the exponent", "include/exp.h, include/log.h")],
  ["results of scalar and array functions called in each mode"])
p("C36", "Bounded work: no argument makes a function slow",
  "In the default build one call of any fast function (inv, isqrt, identity and sincos included) executes at most 250 machine instructions whatever its argument, huge, subnormal, infinite and NaN arguments and arguments close to multiples of pi/4 included. "
  "A call of an array function on n elements executes at most 1000 + 250*n instructions.",
  ["inputs"], "All functions in all forms on special, huge, tiny and random arguments and neighbours of the constants of the headers, arrays of 0 to 300 elements.",
  "A loop that runs as long as the argument is large passes every test with ordinary arguments and hangs a program with 1e300; wall-clock limits cannot be tested reliably.",
  ["include/exp.h", "include/log.h", "include/sincos.h", "include/tan.h", "include/asin.h", "include/atan.h", "include/atan2.h", "include/tanh.h", "include/sqrt.h", "include/inv.h"],
  [("reduction in constant time", "include/sincos.h, include/tan.h, include/exp.h"), ("fixed number of iterations", "include/sqrt.h")],
  ["executed instructions counted by an instrumenting monitor"])
p("C37", "Functions used inline give the bits of the separate functions everywhere",
  "In any C++ program compiled with gcc or clang at any optimisation level from C++11 on (no -ffast-math, no contraction of products and sums), every fast function of an argument in its stated domain gives the same number (any NaN for a NaN) as when called through a pointer, whatever the code around it: loops in any direction and stride, in-place updates, conditions, compositions, sums, constants, structures, lambdas, mixed precision. "
  "fast_sincos works when an output is the variable or array element passed as argument, and several translation units including the headers in any order link into one program.",
  ["programs", "inputs", "configurations"], "Seeded random programs (28 shapes of code for each of 16 functions in both precisions) built by two compilers in 8 (quick) or 13 (thorough) configurations, all shapes compared on random arguments of the domains.",
  "The functions are inline, so what a user gets depends on the code they are compiled into: aliasing assumptions, references to outputs, functions that are not inline, constant folding and vectorisation of one loop shape do not show in a test that calls each function once.",
  ["include/vdtMath.h", "include/vdtcore_common.h", "include/sincos.h", "include/exp.h", "include/log.h", "include/inv.h", "include/sqrt.h", "include/identity.h"],
  [("reinterpretation of bits through a union", "include/vdtcore_common.h"), ("output references", "include/sincos.h fast_sincos"), ("inline functions and constants in headers", "include/*.h")],
  ["results of the generated programs; the linker's verdict"])

p("C38", "Bounded errors in builds with -ffast-math",
  "Compiled with -ffast-math (gcc or clang, any level and instruction set, scalar and array), for arguments that are 0 or of magnitude 1e-300..1e300 (float 1e-35..1e35) the error is at most 1e-15*(1+|x|) relative for fast_exp up to |x| = 700 (fast_expf 3e-7*(1+|x|) up to 80), 5e-16*(1+|x|) for fast_sin and fast_cos (float 2e-7*(1+|x|)) and that times 1+t*t for fast_tan (float 3e-7) where |t| <= 1000, up to 1e8 (float 8192). "
  "With results in the same ranges, fast_log is within 6 ulp, asin and atan 4.5 ulp (float 9), acos 1.5e-15 (float 1.2e-6), atan2 6 ulp (float 12), tanh 24 ulp, isqrt 1.2e-15 relative (float 1.5e-5), inv 2.4e-15 (float 3e-5), and the approximate isqrt and inv within three times their stated bounds.",
  ["inputs", "configurations"], "All functions in 14 such builds on stratified arguments, neighbours of every constant of the headers and every 509th (31st) float.",
  "Users of the library turn on unsafe optimisations; the compiler may then reassociate, and code that relies on the order of operations (a constant added and subtracted, a compensated sum) is folded away. The tests are never built that way.",
  ["include/exp.h", "include/log.h", "include/sincos.h", "include/tan.h", "include/asin.h", "include/atan.h", "include/atan2.h", "include/tanh.h", "include/sqrt.h", "include/inv.h", "include/vdtcore_common.h"],
  [("reductions in several parts", "include/exp.h, include/sincos.h, include/tan.h"), ("floor by conversion to integer", "include/vdtcore_common.h fpfloor"), ("extra bits of pi/2", "include/atan.h, include/atan2.h")],
  ["results of scalar and array functions"])

p("C39", "Printed listings show every element, value and difference",
  "Printing a pool or a response gives a title line and then one line for each element, 'i/n - X', 'i/n - X Y', 'i/n NAME(X) = R' or 'i/n NAME(X, Y ) = R' with i counting from 0 and numbers in decimal with 15 (float: 6) significant digits. "
  "Printing the differences of two functions (numbers, arrays or pairs, double or float) calls both on every element in order and prints for each element its argument(s), a line 'Different bit between A and B is D' with both results in 10 significant digits and their number of differing bits, the bit strings of both results and an empty line. "
  "The list of instruction sets says 'enabled' for those of SSE2, SSE3, SSE4.1 and AVX the program was compiled for and 'not enabled' for the others.",
  ["inputs", "configurations"], "Random pools, responses and function pairs with arbitrary values (NaN, infinities, subnormals, extremes), sizes 1 to 300 and up to 136000, all six forms of the printed difference, four builds.",
  "The tests only print such listings; nobody compares the thousands of lines with the numbers.",
  ["include/diagnostic/vdtdiag_helper.h", "include/diagnostic/vdtdiag_random.h", "include/diagnostic/vdtdiag_fcnResponse.h"],
  [("loops over elements", "include/diagnostic/vdtdiag_helper.h printFuncDiff"), ("print of pools", "include/diagnostic/vdtdiag_random.h"), ("print of responses", "include/diagnostic/vdtdiag_fcnResponse.h")],
  ["captured standard output, recorded calls"])

p("C40", "Tables of benchmark results show the measured times",
  "tabulateVDTResults.py FILE... prints, from performance files of vdtPerfBenchmark, with -s a row per function with time and error of each file and the ratio of the first file's time to that of each further file, with -v a row per scalar function with its time and error and, for each file, time and error of its array form and the ratio scalar to array, and with -l for each file a row per scalar reference function with its time and error, those of its fast function (Inverse: Fast_Inv) and the ratio; functions (-l: pairs) that one of the files lacks get no row. "
  "Times and errors have two decimals, ratios one (a divisor of zero counts as 1), columns are titled with the nicknames of the files. "
  "The time of the identity function listed last before a function, if any, is subtracted (errors added in quadrature) and identities get no row; with --no-normalise values are as measured, and only -l leaves identities out.",
  ["inputs", "configurations"], "Seeded sets of 1 to 4 performance files (the lines of a real run with other numbers, among them equal, zero, negative and large ones; all functions or some, the same or different ones in each file, with or without identities), all combinations of options.",
  "No test runs the scripts; a table with a wrong column, a missing row or an unsubtracted overhead looks like any other table.",
  ["scripts/tabulateVDTResults.py"],
  [("subtraction of the identity", "scripts/tabulateVDTResults.py normaliseTimings"), ("the three tables", "scripts/tabulateVDTResults.py createSummaryTable, createVectTable, createLibmVdtTable")],
  ["standard output and exit status"])

p("C41", "Accuracy command and histograms cover every comparison and row",
  "checkAccuracy.py NICK prints one vdtArithmComparison command which, run beside the response files of vdtArithmBenchmark run NICK, compares acos, asin, atan, atan2, cos, exp, isqrt, log, sin, tan and tanh in all four forms each with its own fast function (44 pairs, none skipped). "
  "diffhisto.py -n NICK [-d DIR] fills for each comparison__NICK__NAME.txt of DIR a histogram Diffbit_NAME (bins of one bit from -0.5 to 32.5, double precision 64.5) with the differing bits of every row and a histogram DiffVsInput_NAME with (first input, differing bits) of every row, inputs in 100 bins over [-5000, 5000] (Asin, Acos [-1, 1]; Log, Isqrt [0, 5000]; Exp +-705, Expf +-85), writes each once to NICK_histos.root and prints them to NICK_TYPE_NAME_dbhisto.png and NICK_TYPE_NAME_dbVSinhisto.png (TYPE double or float). "
  "Without a nickname both end with status 1.",
  ["inputs", "configurations"], "Response files of real runs of several sizes with disturbed results (0 to 64 differing bits), nicknames that begin alike or contain names of functions and special characters, copies of files under other names, files in the current or another directory.",
  "No test runs the scripts, and ROOT is not available to tests; a swapped pair or a skipped row does not show in a plot.",
  ["scripts/checkAccuracy.py", "scripts/diffhisto.py"],
  [("list of functions and file names", "scripts/checkAccuracy.py get_refs, get_tests"), ("reading of the rows", "scripts/diffhisto.py fill_histos"), ("selection of the files", "scripts/diffhisto.py getFilenamesFromDir")],
  ["output of the printed command, comparison files, calls of the histogram interface"])

p("C42", "Generated ctypes module computes what the C functions compute",
  "The Python module written by numpy_wrapper_generator.py offers vdt_NAME and vdt_NAMEf for asin, atan, atan2, cos, div, exp, fma, fmac, identity, inv, isqrt, log, sin, sincos and sqrt, with as many arguments as the C function has inputs. "
  "For array-like arguments of one shape (lists, arrays of any element type, views with gaps or reversed, any shape up to two dimensions) it returns a new array of that shape (sincos: a pair) whose elements, double or single precision, are those of the C scalar function of the converted arguments; arguments are left unchanged and no memory outside of the arrays is read or written. "
  "Arguments of different shapes raise an exception, and vdt_arch() returns the text of the C function.",
  ["inputs", "programs"], "Every function on seeded lists, tuples, arrays and views of four element types, 0 to 70000 elements, special values, and arguments of different shapes.",
  "No test imports the module, and reads past the end of a shorter argument usually go unnoticed.",
  ["src/numpy_wrapper_generator.py", "scripts/invokeVDT.py", "scripts/vdtBase.py", "src/fatlib.h"],
  [("choice of the call form", "src/numpy_wrapper_generator.py get_python_function"), ("conversion and allocation", "scripts/invokeVDT.py invoke, invoke2to1, invoke3to1, invoke1to2"), ("cache of loaded functions", "scripts/vdtBase.py loadit")],
  ["returned arrays, memory around all arrays"])

p("C43", "Loops over the fast functions are vectorised",
  "Compiled with -O3 -mavx2 -mfma -ffast-math by gcc 13 or clang 18, the array form of, or a plain loop over, fast_exp, log, sin, cos, tan, asin, acos, atan, atan2, tanh and sincos executes for n >= 1000 elements at most 22*n + 1000 machine instructions in double and 10*n + 1000 in float precision, and of fast_isqrt, fast_inv and their approximate forms at most 9*n + 1000 and 4*n + 1000, whatever the elements are. "
  "Without -ffast-math the same holds with clang, and with gcc and -fno-trapping-math, for all of them but asin and acos.",
  ["inputs", "configurations", "programs"], "Array functions, plain loops and loops around an expression with the function, in four builds, on 1000 to 3000 uniform, stratified and special elements.",
  "Vectorisation is what the library is made for, but code that is no longer vectorised gives the same results, and wall-clock limits cannot be tested reliably.",
  ["include/vdtcore_common.h", "include/exp.h", "include/log.h", "include/sincos.h", "include/tan.h", "include/asin.h", "include/atan.h", "include/atan2.h", "include/tanh.h", "include/sqrt.h", "include/inv.h", "src/signatures_generator.py"],
  [("floor and exponent in 32 bit integers", "include/vdtcore_common.h fpfloor, getMantExponent"), ("selection without control flow", "include/sincos.h, include/tan.h"), ("fixed number of iterations", "include/sqrt.h")],
  ["executed instructions counted by an instrumenting monitor"])
p("C44", "Headers work alone, repeatedly and in several source files",
  "Each header of the library and of its diagnostic classes can be included as the only or first header of a source file, repeatedly, and with the others in any order, with g++ and clang++ from C++11 to C++20, and any number of source files that do so link into one program. "
  "In such a program the functions of a header (asin.h: fast_asin, fast_acos; atan.h, atan2.h, cos.h, exp.h, log.h, sin.h, sincos.h, tan.h, tanh.h: the fast function of that name; inv.h, sqrt.h: fast, approximate and plain forms; identity.h; stdwrap.h: sqrt, div, fma, fmac; vdtMath.h: all but stdwrap.h; each with its float and array forms) and the diagnostic classes give the same results in every source file, whatever it includes and in which order.",
  ["programs", "configurations"], "Every header alone and repeated in two source files each, and seeded lists of 2 to 7 headers, in 3 (quick) or 6 (thorough) builds, one of them with the address sanitizer looking for names defined twice.",
  "The tests are single source files that include everything in one order.",
  ["include/vdtMath.h", "include/identity.h", "include/stdwrap.h", "include/vdtcore_common.h", "include/diagnostic/vdtdiag_helper.h", "include/diagnostic/vdtdiag_fcnTuples.h", "include/diagnostic/vdtdiag_fcnResponse.h", "include/diagnostic/vdtdiag_simpleCmd.h"],
  [("include guards and includes", "all headers"), ("inline functions", "include/diagnostic/vdtdiag_helper.h, include/diagnostic/vdtdiag_fcnTuples.h")],
  ["results of functions and classes in source files of one program"])

path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(path, "w") as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
print(len(P), "properties")

"""Imports the module vdt beside the built extension and looks at what it offers.
usage: vdt_module.py <stand-in for numpy> <directory of vdt.py> <fat library>   (in the directory of the extension)"""
import ctypes, json, sys

sys.dont_write_bytecode = True
sys.path[:0] = sys.argv[1:3]
WANT = {"asin": (1, 1), "atan": (1, 1), "atan2": (2, 1), "cos": (1, 1), "exp": (1, 1), "inv": (1, 1), "log": (1, 1), "sin": (1, 1), "sincos": (1, 2), "isqrt": (1, 1),
        "identity": (1, 1), "sqrt": (1, 1), "div": (2, 1), "fma": (3, 1), "fmac": (3, 1)}
n = 0


def out(k, **rest):
    print(json.dumps(dict([("k", k)] + list(rest.items()))), flush=True)


try:
    import vdt
except Exception as e:
    out("viol", key="import vdt", text="the module vdt cannot be imported: %r" % e, replay="import vdt")
    out("count", name="functions of the module vdt", n=1)
    out("done")
    sys.exit(0)
for f, (nin, nout) in WANT.items():
    v = getattr(vdt, "vdt_" + f, None)
    n += 1
    if not isinstance(v, tuple) or len(v) != 5:
        out("viol", key="vdt has vdt_" + f, text="the module vdt has no function vdt_%s" % f, replay=f)
    elif v is not getattr(sys.modules.get("vdtnpfun"), "vdt_" + f, v):
        out("viol", key="vdt has vdt_" + f, text="vdt_%s of the module vdt is not that of the extension" % f, replay=f)
try:
    a = vdt.vdt_arch()
    g = ctypes.CDLL(sys.argv[3]).vdt_arch
    g.restype = ctypes.c_char_p
    n += 1
    if a not in (g(), g().decode()):
        out("viol", key="vdt_arch of vdt", text="vdt_arch() of the module vdt gives %r, the library %r" % (a, g()), replay="vdt_arch")
except Exception as e:
    out("viol", key="vdt_arch of vdt", text="vdt_arch() of the module vdt raises %r" % e, replay="vdt_arch")
out("count", name="functions of the module vdt", n=n)
out("done")

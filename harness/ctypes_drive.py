"""Imports the generated Python module and calls every function on lists, arrays and views.
usage: ctypes_drive.py <directory of the stand-in> <scripts> <module directory> <seed> <rounds>   (runs in the module directory)"""
import ctypes, json, math, os, random, struct, sys

sys.dont_write_bytecode = True
stub, scripts, moddir, seed, rounds = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4]), int(sys.argv[5])
sys.path[:0] = [stub, scripts, moddir]
rnd = random.Random(seed)
reported = {}
calls = elements = refused = guards = 0
kinds = set()


def out(k, **rest):
    print(json.dumps(dict([("k", k)] + list(rest.items()))), flush=True)


def viol(key, text, replay=""):
    reported[key] = reported.get(key, 0) + 1
    if reported[key] == 1:
        out("viol", key=key, text=text[:900], replay=replay)


import numpy
numpy._rnd.seed(seed)
try:
    import vdt_ctypes as V
except Exception as e:
    viol("import", "the generated module cannot be imported: %r" % e, moddir)
    out("done")
    sys.exit(0)
lib = ctypes.CDLL(os.path.join(moddir, "libvdtFatLibWrapper.so"))
WANT = {"asin": (1, 1), "atan": (1, 1), "atan2": (2, 1), "cos": (1, 1), "exp": (1, 1), "inv": (1, 1), "log": (1, 1), "sin": (1, 1), "sincos": (1, 2), "isqrt": (1, 1),
        "identity": (1, 1), "sqrt": (1, 1), "div": (2, 1), "fma": (3, 1), "fmac": (3, 1)}


def scalar(name, dbl, args, nout):
    T = ctypes.c_double if dbl else ctypes.c_float
    f = getattr(lib, "vdt_" + name + ("" if dbl else "f"))
    if nout == 2:
        a, b = T(), T()
        f.restype, f.argtypes = None, [T, ctypes.POINTER(T), ctypes.POINTER(T)]
        f(args[0], ctypes.byref(a), ctypes.byref(b))
        return [bytes(a), bytes(b)]
    f.restype, f.argtypes = T, [T] * len(args)
    return [bytes(T(f(*args)))]


def same(a, b, fmt):
    if a == b:
        return True
    x, y = struct.unpack(fmt, a)[0], struct.unpack(fmt, b)[0]
    return x != x and y != y


def draw(name):
    r = rnd.random()
    if r < .05:
        return rnd.choice([0.0, -0.0, float("inf"), float("-inf"), float("nan"), 1.0, -1.0, 1e300, 3.5e38, 1e-310])
    if name == "asin":
        return rnd.uniform(-1, 1)
    if name in ("log", "isqrt", "sqrt"):
        return math.exp(rnd.uniform(-40, 40))
    if name == "exp":
        return rnd.uniform(-80, 80)
    if r < .5:
        return rnd.uniform(-100, 100)
    return rnd.choice([-1, 1]) * math.exp(rnd.uniform(-30, 8))


def make(kind, shape, name):
    """An argument of the given kind: (argument, values)."""
    n = numpy._count(shape)
    ints = kind in ("int list", "int64", "int32")
    vals = [rnd.randrange(-50, 50) if ints else draw(name) for _ in range(n)]
    if kind in ("list", "int list", "tuple"):
        def nest(v, dims):
            if not dims:
                return v[0]
            k = len(v) // dims[0] if dims[0] else 0
            l = [nest(v[i * k:(i + 1) * k], dims[1:]) for i in range(dims[0])]
            return tuple(l) if kind == "tuple" else l
        return nest(vals, shape), vals
    dt = {"int64": numpy.int64, "int32": numpy.int32, "float32": numpy.float32, "float64": numpy.float64, "view32": numpy.float32, "view64": numpy.float64, "reverse64": numpy.float64,
          "reverse32": numpy.float32}[kind]
    if kind.startswith("view") or kind.startswith("reverse"):
        gap = rnd.randrange(2, 4) if kind.startswith("view") else -1
        inner = numpy._contiguous(shape, dt.itemsize)
        st = tuple(s * gap for s in inner)
        mem = numpy._Memory(max(n * abs(gap), 1) * dt.itemsize, dt.itemsize)
        off = 0 if gap > 0 else sum((d - 1) * -s for d, s in zip(shape, st)) if n else 0
        a = numpy.ndarray(shape, dt, mem, st, off)
    else:
        a = numpy.ndarray(shape, dt)
    a.fill_values(vals)
    return a, a.values()


KINDS = ["list", "float64", "float32", "int list", "view64", "view32", "int64", "int32", "tuple", "reverse64", "reverse32"]
for n, (nin, nout) in sorted(WANT.items()):
    for dbl in (True, False):
        full = "vdt_" + n + ("" if dbl else "f")
        fn = getattr(V, full, None)
        if fn is None:
            viol("name " + full, "the module has no function " + full, full)
            continue
        dt, fmt = (numpy.float64, "<d") if dbl else (numpy.float32, "<f")
        for rd in range(rounds):
            kk = [KINDS[rd % len(KINDS)]] + [rnd.choice(KINDS) for _ in range(nin - 1)]
            rnd.shuffle(kk)
            size = rnd.choice([0, 1, 2, 3, 4, 7, 8, 9, 16, 33, rnd.randrange(1, 300)] + ([4096, 70000] if rd < 2 and kk[0].startswith("float") else []))
            shape = rnd.choice([(size,), (size,), (rnd.randrange(1, 5), rnd.randrange(1, 6))] + ([()] if rd % 3 == 0 else []))
            if any(k == "tuple" or k.endswith("list") for k in kk) and 0 in shape:
                shape = (1,)
            made = [make(k, shape, n) for k in kk]
            before = [(m[0].bits(), m[0].memory.outside()) if isinstance(m[0], numpy.ndarray) else repr(m[0]) for m in made]
            what = "%s of %s shape %s" % (full, kk, shape)
            try:
                r = fn(*[m[0] for m in made])
            except Exception as e:
                viol("exception " + full, "%s raises %r" % (what, e), what)
                continue
            calls += 1
            kinds.add((full, tuple(sorted(kk)), len(shape), size == 0))
            rs = list(r) if isinstance(r, tuple) else [r]
            if len(rs) != nout or any(not isinstance(x, numpy.ndarray) or x.dtype is not dt or x.shape != shape for x in rs):
                viol("form " + full, "%s returns %s" % (what, [(getattr(x, "dtype", type(x)), getattr(x, "shape", None)) for x in rs]), what)
                continue
            for m, b in zip(made, before):
                now = (m[0].bits(), m[0].memory.outside()) if isinstance(m[0], numpy.ndarray) else repr(m[0])
                if now != b:
                    viol("input changed " + full, what + " changes an argument", what)
            for i, x in enumerate(rs):
                others = [m[0] for m in made if isinstance(m[0], numpy.ndarray)] + rs[:i]
                if any(x.memory is y.memory for y in others):
                    viol("shared " + full, what + " returns memory of another array", what)
                o = x.memory.outside()
                guards += len(o)
                if o.count(0xCB) != len(o):
                    viol("outside " + full, what + " writes outside of the result", what)
            got = [x.bits() for x in rs]
            cast = [[struct.unpack(fmt, struct.pack(fmt, numpy._cast(v, dt)))[0] for v in m[1]] for m in made]
            for i in range(numpy._count(shape)):
                w = scalar(n, dbl, [c[i] for c in cast], nout)
                elements += nout
                bad = [o for o in range(nout) if not same(got[o][i], w[o], fmt)]
                if bad:
                    viol("result " + full, "%s: element %d (%s) of result %d is %r, the scalar function gives %r" %
                         (what, i, [c[i] for c in cast], bad[0], struct.unpack(fmt, got[bad[0]][i])[0], struct.unpack(fmt, w[bad[0]])[0]), what)
                    break
            if rd < 1:
                out("sample", text=what)
        # arguments of different shapes
        for a, b in (((4096,), (1,)), ((1,), (4096,)), ((600,), (599,)), ((2,), (4000,)), ((6,), (2, 3)), ((2, 3), (3, 2)), ((12, 1), (12,)), ((5, 4), (5, 3)), ((5, 4), (4,))) if nin > 1 else ():
            for at in range(1, nin):
                args = [make("float64" if dbl else "float32", b if i == at else a, n)[0] for i in range(nin)]
                what = "%s of shapes %s" % (full, [x.shape for x in args])
                refused += 1
                try:
                    fn(*args)
                except Exception:
                    continue
                viol("shapes " + full, what + " is not refused", what)
try:
    arch = V.vdt_arch()
    f = lib.vdt_arch
    f.restype = ctypes.c_char_p
    if arch not in (f(), f().decode()):
        viol("vdt_arch", "vdt_arch() gives %r, the library %r" % (arch, f()), "vdt_arch")
    calls += 1
except Exception as e:
    viol("vdt_arch", "vdt_arch() raises %r" % e, "vdt_arch")
out("count", name="calls", n=calls)
out("count", name="elements compared", n=elements)
out("count", name="calls with different shapes", n=refused)
out("count", name="guard bytes compared", n=guards)
out("cell", name="distinct (function, kinds of arguments, dimensions)", n=len(kinds))
out("done")

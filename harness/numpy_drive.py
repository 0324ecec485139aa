"""Loads the extension, calls every registered loop on strided buffers and reports what it saw.
usage: numpy_drive.py <module directory> <fat library> <seed> <rounds> <module>"""
import ctypes, importlib, json, math, random, struct, sys

sys.dont_write_bytecode = True
moddir, fat, seed, rounds = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
modname = sys.argv[5]
sys.path.insert(0, moddir)
lib = ctypes.CDLL(fat, mode=ctypes.RTLD_GLOBAL)
try:
    module = importlib.import_module(modname)
except Exception as e:  # the module built but cannot be used
    print(json.dumps({"k": "viol", "key": "import", "text": "the module cannot be imported: %s" % e, "replay": moddir}))
    print(json.dumps({"k": "done"}))
    sys.exit(0)

rnd = random.Random(seed)
LOOP = ctypes.CFUNCTYPE(None, ctypes.POINTER(ctypes.c_void_p), ctypes.POINTER(ctypes.c_ssize_t), ctypes.POINTER(ctypes.c_ssize_t), ctypes.c_void_p)
WANT = {"asin": (1, 1), "atan": (1, 1), "atan2": (2, 1), "cos": (1, 1), "exp": (1, 1), "inv": (1, 1), "log": (1, 1), "sin": (1, 1), "sincos": (1, 2), "isqrt": (1, 1),
        "identity": (1, 1), "sqrt": (1, 1), "div": (2, 1), "fma": (3, 1), "fmac": (3, 1)}
if modname == "npufunc":
    WANT = {"expv": (1, 1)}
reported = {}
calls = elements = guards = 0
kinds = set()


def out(k, **rest):
    print(json.dumps(dict([("k", k)] + list(rest.items()))), flush=True)


def viol(key, text, replay=""):
    reported[key] = reported.get(key, 0) + 1
    if reported[key] == 1:
        out("viol", key=key, text=text, replay=replay)


def draw(name, double):
    r = rnd.random()
    if r < .04:
        return rnd.choice([0.0, -0.0, float("inf"), float("-inf"), float("nan"), 1.0, -1.0])
    if name == "asin":
        x = rnd.uniform(-1, 1)
    elif name in ("log", "isqrt", "sqrt"):
        x = math.exp(rnd.uniform(-40, 40))
    elif name == "exp":
        x = rnd.uniform(-80, 80)
    elif r < .5:
        x = rnd.uniform(-100, 100)
    else:
        x = rnd.choice([-1, 1]) * math.exp(rnd.uniform(-30, 8))
    return x if double else struct.unpack("<f", struct.pack("<f", x))[0]


def scalar(name, double, args, nout):
    T = ctypes.c_double if double else ctypes.c_float
    f = getattr(lib, "vdt_" + name + ("" if double else "f"))
    if nout == 2:
        a, b = T(), T()
        f.restype = None
        f.argtypes = [T, ctypes.POINTER(T), ctypes.POINTER(T)]
        f(args[0], ctypes.byref(a), ctypes.byref(b))
        return [a.value, b.value]
    f.restype = T
    f.argtypes = [T] * len(args)
    return [f(*args)]


def same(a, b, double):
    if a != a and b != b:
        return True
    p = "<d" if double else "<f"
    return struct.pack(p, a) == struct.pack(p, b)


names = {k: v for k, v in vars(module).items() if isinstance(v, tuple) and len(v) == 5}
for n in WANT:
    if "vdt_" + n not in names:
        viol("name vdt_" + n, "the module has no function vdt_%s; it has %s" % (n, sorted(x for x in names if x.startswith("vdt_"))), n)
for n in names:
    if not n.startswith("vdt_") or n[4:] not in WANT:
        viol("unexpected name", "the module has a function named %r" % n, repr(n))
for full, (uname, nin, nout, doc, loops) in sorted(names.items()):
    n = full[4:]
    if n not in WANT:
        continue
    shape = WANT[n]
    n = "exp" if n == "expv" else n
    if (nin, nout) != shape or uname != full:
        viol("shape " + full, "%s is registered as %s with %d inputs and %d outputs" % (full, uname, nin, nout), full)
        continue
    if [sorted(set(l[2])) for l in loops] != [[11], [12]] or any(len(l[2]) != nin + nout for l in loops):
        viol("types " + full, "%s has loops for types %s" % (full, [l[2] for l in loops]), full)
        continue
    for li, (fp, dp, types) in enumerate(loops):
        double = li == 1
        w = 8 if double else 4
        loop = LOOP(fp)
        for rd in range(rounds):
            size = rnd.choice([0, 1, 2, 3, 7, 8, 9, 16, 31, rnd.randrange(1, 70)])
            bufs, steps, offs = [], [], []
            mode = rd % 4  # contiguous first, then gaps, broadcast inputs, mixed with negative strides
            vals = []
            for a in range(nin + nout):
                if mode == 0:
                    st = w
                elif mode == 1:
                    st = w * rnd.randrange(1, 5)
                elif mode == 2:
                    st = rnd.choice([0, w, w]) if a < nin else w
                else:
                    st = w * rnd.choice([-3, -2, -1, 1, 2, 3]) if a >= nin or rnd.random() < .8 else 0
                pad = 4
                slots = 2 * pad + max(1, (abs(st) // w) * max(size - 1, 0) + 1)
                b = bytearray(slots * w)
                for k in range(slots):
                    struct.pack_into("<d" if double else "<f", b, k * w, draw(n, double) if a < nin else rnd.uniform(-9, 9))
                c = (ctypes.c_char * len(b)).from_buffer(b)
                start = pad * w if st >= 0 else pad * w + abs(st) * max(size - 1, 0)
                bufs.append((b, c)); steps.append(st); offs.append(start)
            before = [bytes(b) for b, _ in bufs]
            fmt = "<d" if double else "<f"
            ins = [[struct.unpack_from(fmt, before[a], offs[a] + i * steps[a])[0] for a in range(nin)] for i in range(size)]
            ptrs = (ctypes.c_void_p * (nin + nout))(*[ctypes.addressof(c) + o for (_, c), o in zip(bufs, offs)])
            loop(ptrs, (ctypes.c_ssize_t * 1)(size), (ctypes.c_ssize_t * (nin + nout))(*steps), dp)
            calls += 1
            kinds.add((full, li, mode))
            what = "%s %s n=%d strides %s" % (full, "double" if double else "float", size, [s // w for s in steps])
            for a in range(nin):
                if bytes(bufs[a][0]) != before[a]:
                    viol("input changed " + full, what + ": input %d was changed" % a, what)
            expect = [bytearray(before[nin + o]) for o in range(nout)]
            touched = [set() for _ in range(nout)]
            bad = None
            for i in range(size):
                r = scalar(n, double, ins[i], nout)
                for o in range(nout):
                    at = offs[nin + o] + i * steps[nin + o]
                    touched[o].update(range(at, at + w))
                    got = struct.unpack_from(fmt, bufs[nin + o][0], at)[0]
                    elements += 1
                    if not same(got, r[o], double) and bad is None:
                        bad = "element %d of output %d for %s is %r, the scalar function gives %r" % (i, o, ins[i], got, r[o])
            if bad:
                viol("result %s %s mode %d" % (full, "double" if double else "float", mode), what + ": " + bad, what)
            for o in range(nout):
                now = bytes(bufs[nin + o][0])
                for k in range(0, len(now)):
                    if k not in touched[o]:
                        guards += 1
                        if now[k] != before[nin + o][k]:
                            viol("write outside %s" % full, what + ": byte %d outside the elements was written" % (k - offs[nin + o]), what)
                            break
            if rd < 1:
                out("sample", text=what)
        # long arrays: broadcast inputs, so that all of a contiguous output is one value
        for size in (32768 + rnd.randrange(9), 65530 + rnd.randrange(12), 66000 + rnd.randrange(100000)):
            T = ctypes.c_double if double else ctypes.c_float
            args = [draw(n, double) for _ in range(nin)]
            ins = [(T * 1)(v) for v in args]
            outs = [(T * (size + 8))(*([-5.5] * (size + 8))) for _ in range(nout)]
            ptrs = (ctypes.c_void_p * (nin + nout))(*([ctypes.addressof(x) for x in ins] + [ctypes.addressof(x) + 4 * w for x in outs]))
            loop(ptrs, (ctypes.c_ssize_t * 1)(size), (ctypes.c_ssize_t * (nin + nout))(*([0] * nin + [w] * nout)), dp)
            calls += 1
            kinds.add((full, li, "long"))
            r = scalar(n, double, args, nout)
            guard = struct.pack(fmt, -5.5) * 4
            for o in range(nout):
                got = bytes(outs[o])
                elements += size
                want = struct.pack(fmt, r[o]) * size
                if got[4 * w:-4 * w] != want and not (r[o] != r[o] and all(v != v for v in outs[o][4:-4])):
                    k = next((k for k in range(size) if not same(outs[o][4 + k], r[o], double)), -1)
                    viol("long result %s %s" % (full, "double" if double else "float"), "%s n=%d: element %d of output %d for %s is %r, the scalar function gives %r" % (full, size, k, o, args, outs[o][4 + k], r[o]), full)
                if got[:4 * w] != guard or got[-4 * w:] != guard:
                    viol("write outside %s" % full, "%s n=%d: memory next to the output was written" % (full, size), full)
out("count", name="loop calls", n=calls)
out("count", name="elements compared", n=elements)
out("count", name="guard bytes compared", n=guards)
out("cell", name="distinct (function, type, stride kind)", n=len(kinds))
out("done")

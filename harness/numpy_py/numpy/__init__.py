"""Stand-in for the few parts of NumPy that the Python wrapper uses. Every array lies next to an
unmapped page, so that an access beyond it ends the process."""
import ctypes, random, struct

_libc = ctypes.CDLL(None, use_errno=True)
_libc.mmap.restype = ctypes.c_void_p
_libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
_libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
_libc.munmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t]
_rnd = random.Random(1)


class dtype:
    def __init__(self, name, code, size):
        self.name, self.code, self.itemsize = name, code, size

    def __repr__(self):
        return "dtype(%s)" % self.name

    def __call__(self, x):
        return x


float32 = dtype("float32", "f", 4)
float64 = dtype("float64", "d", 8)
int64 = dtype("int64", "q", 8)
int32 = dtype("int32", "i", 4)
single, double, float_ = float32, float64, float64


class _Memory:
    PAGE = 4096

    def __init__(self, size, align, poison=0xCB):
        self.total = (size + 2 * self.PAGE - 1) // self.PAGE * self.PAGE + 2 * self.PAGE
        self.base = _libc.mmap(None, self.total, 3, 0x22, -1, 0)
        if self.base in (None, ctypes.c_void_p(-1).value):
            raise MemoryError
        ctypes.memset(self.base, poison, self.total)
        _libc.mprotect(self.base, self.PAGE, 0)
        _libc.mprotect(self.base + self.total - self.PAGE, self.PAGE, 0)
        if _rnd.randrange(2):
            self.addr = self.base + self.PAGE
        else:
            self.addr = (self.base + self.total - self.PAGE - size) // align * align
        self.size = size

    def outside(self):
        """Bytes of the mapping around the array."""
        lo, hi = self.base + self.PAGE, self.base + self.total - self.PAGE
        return ctypes.string_at(lo, self.addr - lo) + ctypes.string_at(self.addr + self.size, hi - self.addr - self.size)

    def __del__(self):
        _libc.munmap(self.base, self.total)


def _count(shape):
    n = 1
    for s in shape:
        n *= s
    return n


def _contiguous(shape, item):
    st, n = [], item
    for s in reversed(shape):
        st.insert(0, n)
        n *= s
    return tuple(st)


class _Flags(dict):
    pass


class ndarray:
    def __init__(self, shape, dt, memory=None, strides=None, offset=0):
        self.shape, self.dtype = tuple(shape), dt
        self.size, self.ndim, self.itemsize = _count(self.shape), len(self.shape), dt.itemsize
        self.nbytes = self.size * self.itemsize
        self.memory = memory or _Memory(self.nbytes, dt.itemsize)
        self.strides = strides if strides is not None else _contiguous(self.shape, dt.itemsize)
        self.offset = offset

    def _addresses(self):
        def rec(at, dims, st):
            if not dims:
                yield at
                return
            for i in range(dims[0]):
                yield from rec(at + i * st[0], dims[1:], st[1:])
        return rec(self.memory.addr + self.offset, self.shape, self.strides)

    def values(self):
        s = self.itemsize
        return [struct.unpack("<" + self.dtype.code, ctypes.string_at(a, s))[0] for a in self._addresses()]

    def bits(self):
        return [ctypes.string_at(a, self.itemsize) for a in self._addresses()]

    def fill_values(self, vals):
        for a, v in zip(self._addresses(), vals):
            ctypes.memmove(a, struct.pack("<" + self.dtype.code, _cast(v, self.dtype)), self.itemsize)
        return self

    def iscontiguous(self):
        return self.size <= 1 or all(n == 1 or s == w for n, s, w in zip(self.shape, self.strides, _contiguous(self.shape, self.itemsize)))

    @property
    def flags(self):
        c = self.iscontiguous()
        return _Flags(C_CONTIGUOUS=c, CONTIGUOUS=c, ALIGNED=True, WRITEABLE=True)

    @property
    def _as_parameter_(self):
        return ctypes.c_void_p(self.memory.addr + self.offset)

    def copy(self):
        return ndarray(self.shape, self.dtype).fill_values(self.values())

    def astype(self, dt):
        return ndarray(self.shape, dt).fill_values(self.values())

    def __len__(self):
        return self.shape[0]


def _cast(v, dt):
    if dt.code in "fd":
        if dt.code == "f":
            try:
                struct.pack("<f", v)
            except OverflowError:
                return float("inf") if v > 0 else float("-inf")
        return float(v)
    return int(v)


def _flat(x):
    if isinstance(x, (list, tuple)):
        sub = [_flat(y) for y in x]
        shape = (len(x),) + (sub[0][0] if sub else ())
        if any(s[0] != shape[1:] for s in sub):
            raise ValueError("setting an array element with a sequence")
        return shape, [v for s in sub for v in s[1]]
    return (), [x]


def asanyarray(x, dtype=None, order=None):
    if isinstance(x, ndarray):
        return x if dtype is None or x.dtype is dtype else x.astype(dtype)
    shape, vals = _flat(x)
    dt = dtype or (float64 if not vals or any(isinstance(v, float) for v in vals) else int64)
    return ndarray(shape, dt).fill_values(vals)


asarray = asanyarray


def array(x, dtype=None, copy=True, **k):
    a = asanyarray(x, dtype)
    return a.copy() if a is x else a


def ascontiguousarray(x, dtype=None):
    a = asanyarray(x, dtype)
    return a if a.iscontiguous() else a.copy()


def require(x, dtype=None, requirements=None):
    a = asanyarray(x, dtype)
    for r in [requirements] if isinstance(requirements, str) else requirements or []:
        r = r.upper()
        if r in ("C", "CONTIGUOUS", "C_CONTIGUOUS"):
            a = a if a.iscontiguous() else a.copy()
        elif r not in ("A", "ALIGNED", "W", "WRITEABLE", "O", "OWNDATA", "E", "ENSUREARRAY"):
            raise ValueError("requirement " + r)
    return a


def empty(shape, dtype=float64, order="C"):
    return ndarray(shape if isinstance(shape, tuple) else (shape,), dtype)


def zeros(shape, dtype=float64, order="C"):
    a = empty(shape, dtype)
    return a.fill_values([0] * a.size)


def empty_like(x, dtype=None, order="K", subok=True, shape=None):
    return ndarray(x.shape if shape is None else shape, dtype or x.dtype)


def shape(x):
    return asanyarray(x).shape


from . import ctypeslib

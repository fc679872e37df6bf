"""Byte buffers with symbolic lengths and contents for the real buffer-handling code.

A buffer is a function from a byte index to a code that names one byte of one original part
(``part number * 2**80 + offset``).  Regions (shared memory, receive buffers) keep the log of the
writes made to them; the byte at an index is resolved through the log with if-then-else terms, so
the content is decided for every index by the solver.  The builtins that cannot take symbolic
lengths (len, range, bytes, bytearray, memoryview, ctypes arrays) are replaced in the modules under
test by versions that accept these buffers and fall through to the originals otherwise.
"""
import builtins
import ctypes as real_ctypes
import weakref

from . import engine
from .engine import all_of, any_of, implies, ite, is_sym

BIG = 1 << 80
UNSET = -1


_CTX = [None]


def begin(ctx):
    """Buffers report to this context from now on."""
    _CTX[0] = ctx
    _CONST.clear()


def need(cond, label, detail=""):
    if _CTX[0] is not None:
        _CTX[0].check(cond, label, detail)


class Buf:
    """Base: `length` and `at(i)`."""

    readonly = False
    format = "B"
    itemsize = 1
    ndim = 1

    def __init__(self, length):
        self.length = length

    nbytes = property(lambda self: self.length)

    def at(self, i):
        raise NotImplementedError

    def owner(self):
        return self

    def __len__(self):
        if is_sym(self.length):
            raise RuntimeError("symbolic length needed as a number")
        return int(self.length)

    def __bool__(self):
        return bool(self.length > 0)

    def _bounds(self, s):
        if s.step not in (None, 1):
            raise RuntimeError("strided access to a symbolic buffer")
        a = 0 if s.start is None else s.start
        b = self.length if s.stop is None else s.stop
        if not is_sym(a) and a < 0:
            a = self.length + a
        if not is_sym(b) and b < 0:
            b = self.length + b
        return a, b

    def __getitem__(self, k):
        if isinstance(k, slice):
            a, b = self._bounds(k)
            return View(self, a, b, self.readonly)
        need(all_of(k >= 0, k < self.length), "access outside a buffer", f"index {k} of {self.length}")
        return self.at(k)

    def __setitem__(self, k, v):
        if self.readonly:
            raise TypeError("cannot modify read-only memory")
        if not isinstance(k, slice):
            raise RuntimeError("item assignment to a symbolic buffer")
        a, b = self._bounds(k)
        View(self, a, b).write(wrap(v))

    def write(self, src):
        raise TypeError("cannot modify read-only memory")

    def cast(self, fmt, shape=None):
        return View(self, 0, self.length, self.readonly)

    def toreadonly(self):
        return View(self, 0, self.length, True)

    def tobytes(self, order=None):
        return Snapshot(self)

    def release(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def __reduce__(self):
        key = ("buf", id(self))
        engine._REG[key] = self
        return engine._lookup, (key,)

    def __repr__(self):
        return f"{type(self).__name__}[{self.length}]"


class Part(Buf):
    """Original data: its byte i is (number, i)."""

    readonly = True
    count = 0

    def __init__(self, length, number, origin=None):
        super().__init__(length)
        self.number, self.origin = number, origin

    def at(self, i):
        return self.number * BIG + i


class Region(Buf):
    """Writable memory."""

    def __init__(self, length):
        super().__init__(length)
        self.log = []

    def at(self, i, upto=None):
        log = self.log if upto is None else self.log[:upto]
        r = UNSET
        for a, b, src in log:
            inside = all_of(i >= a, i < b)
            if inside is False:
                continue
            v = src.at(i - a)
            r = v if inside is True else ite(inside, v, r)
        return r

    def write(self, src):
        self[0:self.length] = src


class View(Buf):
    def __init__(self, base, a, b, readonly=False):
        need(all_of(a >= 0, a <= b, b <= base.length), "access outside a buffer",
             f"[{a}:{b}] of {base.length}")
        super().__init__(b - a)
        self.keep = base  # like a memoryview keeps what it was made from
        if isinstance(base, View):
            a, base = base.a + a, base.base
        self.base, self.a, self.readonly = base, a, readonly or base.readonly

    def owner(self):
        return self.base.owner()

    def at(self, i):
        return self.base.at(self.a + i)

    def write(self, src):
        if self.readonly:
            raise TypeError("cannot modify read-only memory")
        need(src.length == self.length, "part written into a range of another size",
             f"{src.length} bytes into {self.length}")
        if isinstance(self.base, Region):
            src = src.frozen()
            self.base.log.append((self.a, self.a + self.length, src))
        else:
            raise RuntimeError("write into an unknown kind of buffer")


class Snapshot(Buf):
    """Content of a buffer at one moment."""

    readonly = True

    def __init__(self, buf):
        super().__init__(buf.length)
        self.off = 0
        if isinstance(buf, View):
            self.off, buf = buf.a, buf.base
        self.src = buf
        self.upto = len(buf.log) if isinstance(buf, Region) else None

    def at(self, i):
        i = self.off + i
        return self.src.at(i, self.upto) if self.upto is not None else self.src.at(i)

    def frozen(self):
        return self


def _frozen(self):
    return Snapshot(self)


Buf.frozen = _frozen
_CONST = {}


class Flex(builtins.bytearray):
    """Plain memory of known size that symbolic content may be received into."""

    sym = None

    def __setitem__(self, k, v):
        if isinstance(v, Buf) or (isinstance(v, Flex) and v.sym is not None):
            if self.sym is None:
                self.sym = Region(builtins.len(self))
            self.sym[k] = wrap(v)
            return
        builtins.bytearray.__setitem__(self, k, v)

    def __getitem__(self, k):
        return self.sym[k] if self.sym is not None else builtins.bytearray.__getitem__(self, k)


def wrap(x):
    if isinstance(x, Buf):
        return x
    if isinstance(x, Flex) and x.sym is not None:
        return x.sym
    b = builtins.bytes(x)
    n = _CONST.setdefault(b, 10**6 + len(_CONST))
    return Part(len(b), n, b)


def same(c, got, want, label):
    """got and want hold the same bytes (every index)."""
    c.check(got.length == want.length, label, f"{got.length} bytes instead of {want.length}")
    k = c.int("k", 0, None)
    c.check(implies(k < want.length, got.at(k) == want.at(k)), label, f"byte {k} differs")


# ------------------------------------------------------------------ builtins

def sym_len(x):
    if isinstance(x, Buf):
        return x.length
    if isinstance(x, Flex) and x.sym is not None:
        return x.sym.length
    return builtins.len(x)


class _Like(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls.real)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls.real)


class sym_range(metaclass=_Like):
    real = builtins.range

    def __new__(cls, *a):
        if not any(is_sym(x) for x in a):
            return builtins.range(*a)
        start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
        out = []
        i = start
        while i < stop:
            out.append(i)
            i = i + step
            if len(out) > 64:
                raise engine.BoundExceeded("symbolic range longer than 64")
        return out


class sym_bytes(metaclass=_Like):
    real = builtins.bytes

    def __new__(cls, *a, **k):
        if a and isinstance(a[0], Buf):
            return Snapshot(a[0])
        if a and is_sym(a[0]):
            return Snapshot(Region(a[0]))
        return builtins.bytes(*a, **k)

    fromhex = builtins.bytes.fromhex
    join = staticmethod(b"".join)


class sym_bytearray(metaclass=_Like):
    real = builtins.bytearray

    def __new__(cls, *a, **k):
        if a and isinstance(a[0], Buf):
            r = Region(a[0].length)
            r[0:r.length] = a[0]
            return r
        if a and is_sym(a[0]):
            need(a[0] >= 0, "negative buffer size")
            return Region(a[0])
        if a and isinstance(a[0], int):
            return Region(a[0]) if a[0] > 1 << 16 else Flex(a[0])
        return builtins.bytearray(*a, **k)


class sym_memoryview(metaclass=_Like):
    real = builtins.memoryview

    def __new__(cls, x):
        if isinstance(x, Buf):
            return View(x, 0, x.length, x.readonly)
        return builtins.memoryview(x)


class sym_int(metaclass=_Like):
    real = builtins.int

    def __new__(cls, *a, **k):
        if len(a) == 1 and not k:
            if isinstance(a[0], engine.SymReal):
                return a[0].trunc()
            if isinstance(a[0], engine.SymInt):
                return a[0]
        return builtins.int(*a, **k)

    from_bytes = builtins.int.from_bytes


class _CType:
    def __init__(self, t):
        self.t = t

    def __mul__(self, n):
        return _CArray(self.t, n)

    def __call__(self, *a):
        return self.t(*a)


class _CArray:
    def __init__(self, t, n):
        self.t, self.n = t, n

    def from_buffer(self, buf, offset=0):
        if isinstance(buf, Buf):
            return View(buf, offset, offset + self.n, False)
        return (self.t * int(self.n)).from_buffer(buf, int(offset))

    def __call__(self, *a):
        return (self.t * int(self.n))(*a)


class FakeCtypes:
    def __getattr__(self, k):
        v = getattr(real_ctypes, k)
        if k in ("c_char", "c_byte", "c_ubyte", "c_uint8", "c_int8"):
            return _CType(v)
        return v


SHIMS = dict(len=sym_len, range=sym_range, bytes=sym_bytes, bytearray=sym_bytearray,
             memoryview=sym_memoryview, int=sym_int)


def install(env, only="unidist.core.backends.mpi.core"):
    """Make the modules of an environment accept symbolic buffers."""
    prev = env.post_import

    def post_import(module):
        prev(module)
        if module.__name__.startswith(only):
            for k, v in SHIMS.items():
                module.__dict__.setdefault(k, v)

    env.post_import = post_import
    env.replace = list(env.replace) + [(real_ctypes, FakeCtypes())]

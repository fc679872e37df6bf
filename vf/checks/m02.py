"""M02: the multi-threaded copy kernel (C++), decided on its LLVM IR."""
import ctypes
import os
import re
import shutil
import subprocess
import sys
import tempfile

from .. import REPO, llir, engine
from ..engine import z3
from ..run import Harness, HERE

SRC = REPO + "/unidist/core/backends/mpi/core/memory"
ASSUMPTIONS = [
    "source and destination do not overlap and lie below 2^47 (user-space addresses)",
    "a thread performs exactly the call it was created with (C++ library contract); threads may run in any "
    "order - justified by the checked disjointness of what they write",
    "the compiled extension passes its arguments as written in _memory.pyx",
]
OUTSIDE = ["lengths above the stated bound", "thread counts outside the stated set"]
STUBS = ["<thread>, <vector>, <cstring>, <algorithm> replaced by minimal stand-ins (vf/stubinc)",
         "memcpy/memmove -> recorded (dst, src, n)"]


def scratch():
    return tempfile.mkdtemp(prefix="vf_m02_", dir=os.environ.get("TMPDIR", "/tmp"))


_MOD = None


def module():
    global _MOD
    if _MOD is None:
        d = scratch()
        try:
            cpp = [f for f in sorted(os.listdir(SRC)) if f.endswith((".cpp", ".cc"))
                   and not f.startswith("_memory")]
            text = ""
            for f in cpp:
                out = os.path.join(d, "m.ll")
                r = subprocess.run(
                    ["clang++", "-S", "-emit-llvm", "-O1", "-fno-vectorize", "-fno-slp-vectorize",
                     "-fno-unroll-loops", "-fno-exceptions", "-fno-rtti", "-fno-builtin", "-nostdinc++", "-w",
                     "-fno-discard-value-names" if False else "-g0",
                     "-I", os.path.join(HERE, "vf", "stubinc"), "-I", SRC, "-o", out, os.path.join(SRC, f)],
                    capture_output=True, text=True)
                if r.returncode:
                    raise RuntimeError("cannot lower the kernel: " + r.stderr[-2000:])
                text += open(out).read()
            _MOD = llir.Module(text)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return _MOD


class _Addr:
    def __init__(self, name):
        self.name = name


class _Buf:
    def __init__(self, name, n):
        self.name, self.n = name, n

    def __len__(self):
        return 1 << 20 if not isinstance(self.n, int) else self.n


def wrapper_args(src, dst, n, threads):
    """Arguments the Python-level function hands to the kernel, from the current _memory.pyx."""
    text = open(os.path.join(SRC, "_memory.pyx")).read()
    text = re.sub(r"^\s*c?import .*$|^\s*from .* c?import .*$", "", text, flags=re.M)
    text = re.sub(r"^(\s*)with nogil:", r"\1if True:", text, flags=re.M)
    text = re.sub(r"^(\s*)cdef [\w\s\*\[\]:]*?(\w+) = ", r"\1\2 = ", text, flags=re.M)
    text = re.sub(r"^\s*cdef [^=\n]*$", "", text, flags=re.M)
    text = re.sub(r"^@cython\..*$", "", text, flags=re.M)
    text = re.sub(r"(?<=[(,])\s*(?:const\s+)?(?:uint8_t|int64_t|unsigned char|int|long|size_t|Py_ssize_t|uintptr_t)(?:\[[:1,]*\])?\s+(\w+)", r" \1", text)
    text = re.sub(r"<\w+\s*\*?>", "", text)
    text = re.sub(r"&(\w+)\[0\]", r"_addr(\1)", text)
    got = {}

    class Rec:
        def __getattr__(self, name):
            def f(*a):
                got[name] = a
            return f

    ns = {"memory": Rec(), "_addr": lambda b: _Addr(b.name), "len": lambda b: b.n if isinstance(b, _Buf) else len(b)}
    exec(compile(text, "_memory.pyx", "exec"), ns)
    ns["parallel_memcopy"](_Buf("src", src[1]), _Buf("dst", dst[1]), threads)
    a = got["parallel_memcopy"]
    conv = []
    for x in a:
        conv.append({"src": src[0], "dst": dst[0]}[x.name] if isinstance(x, _Addr) else x)
    return conv


def kernel_name(mod):
    for n in mod.fns:
        if "parallel_memcopy" in n:
            return n
    raise RuntimeError("kernel not found")


def _bv(x, w):
    return z3.BitVecVal(x, w) if isinstance(x, int) else x


def copy_harness(threads, nbits):
    def h(ctx):
        src, dst = ctx.bv("src", 64), ctx.bv("dst", 64)
        n = ctx.bv("nbytes", 64)
        if not ctx.symbolic:
            return real_run(ctx, src, dst, n, threads)
        ctx.assume(z3.And(z3.UGE(n, 1), z3.ULE(n, 1 << nbits)))
        ctx.assume(z3.And(z3.UGE(src, 1 << 16), z3.ULT(src, 1 << 46), z3.UGE(dst, 1 << 16), z3.ULT(dst, 1 << 46)))
        ctx.assume(z3.Or(z3.ULE(src + n, dst), z3.ULE(dst + n, src)))
        mod = module()
        try:
            args = wrapper_args((src, n), (dst, n), n, threads)
        except (KeyError, SyntaxError, TypeError, NameError, AttributeError):
            args = [dst, src, n, 64, threads]
        copies = []
        st = {"open": 0, "joined": 0, "in": False}

        def memcpy(ex, a):
            copies.append((a[0], a[1], a[2], st["in"]))
            return a[0]

        def begin(ex, a):
            st["in"] = True
            st["open"] += 1

        def end(ex, a):
            st["in"] = False

        def join(ex, a):
            st["joined"] += 1

        def load(ex, a):
            addr, w = a
            t = ("byte", addr)
            v = z3.BitVec("ld!%d" % len(loads), w)
            loads.append((v, addr, w))
            return v

        loads = []

        def store(ex, a):
            addr, v = a
            for lv, la, w in loads:
                if lv.eq(v):
                    copies.append((addr, la, z3.BitVecVal(w // 8, 64), st["in"]))
                    return
            raise llir.Unsupported("store of a value not loaded from the source")

        fn = kernel_name(mod)
        widths = [llir.bits(t) for t, _ in mod.fns[fn].params]
        args = [_bv(a, w) if not z3.is_bv(_bv(a, w)) or _bv(a, w).size() == w else z3.Extract(w - 1, 0, a)
                for a, w in zip(args, widths)]
        ex = llir.Exec(mod, ctx, {"memcpy": memcpy, "memmove": memcpy, "vf_thread_begin": begin,
                                  "vf_thread_end": end, "vf_thread_join": join, "load": load, "store": store})
        ex.call(fn, args)
        ctx.check(st["open"] == st["joined"], "returns before all copying threads finished")
        live = []
        for i, (d, s, k, thr) in enumerate(copies):
            kk = z3.simplify(k)
            if z3.is_bv_value(kk) and kk.as_long() == 0:
                continue
            ctx.check(z3.Or(k == 0, z3.And(z3.ULE(k, n), z3.ULE(d - dst, n - k))),
                      "copy writes outside the destination range")
            ctx.check(z3.Or(k == 0, z3.ULE(s - src, n - k)), "copy reads outside the source range")
            ctx.check(z3.Or(k == 0, s - src == d - dst), "byte copied to a different position")
            live.append((d - dst, k, thr))
        # every byte of the destination is written, by one copy only
        total = z3.BitVecVal(0, 64)
        for o, k, _ in live:
            total = total + k
        pos = ctx.bv("at", 64)
        every = []
        for i in range(len(live)):
            for j in range(i):
                (o1, k1, t1), (o2, k2, t2) = live[i], live[j]
                apart = z3.Or(k1 == 0, k2 == 0, z3.ULE(o1 + k1, o2), z3.ULE(o2 + k2, o1))
                if t1 or t2:
                    ctx.check(apart, "two threads write the same bytes")
                every.append(apart)
        # disjoint pieces inside [0, n) whose lengths add up to n leave no gap; otherwise ask directly
        if not (ctx.proves(total == n) and all(ctx.proves(e) for e in every)):
            ctx.check(z3.Implies(z3.ULT(pos, n),
                                 z3.Or([z3.And(z3.UGE(pos, o), z3.ULT(pos - o, k)) for o, k, _ in live])),
                      "byte left uncopied")
        ctx.reach("kernel")

    return h


RUNNER = r"""
import ctypes, mmap, sys
so, src_mod, dst_mod, n, bs, th = sys.argv[1], *map(int, sys.argv[2:7])
lib = ctypes.CDLL(so)
f = lib.vf_copy
f.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_int64, ctypes.c_size_t, ctypes.c_int]
G = 8192
def buf(mod):
    m = mmap.mmap(-1, n + 3 * G)
    base = ctypes.addressof(ctypes.c_char.from_buffer(m))
    off = G + (mod - base) % 4096
    return m, base, off
a, ab, ao = buf(src_mod); b, bb, bo = buf(dst_mod)
pat = bytes((i * 131 + (i >> 8) * 17 + 7) & 255 for i in range(n))
a[ao:ao+n] = pat
b[:] = b"\xAA" * len(b)
f(bb + bo, ab + ao, n, bs, th)
if b[bo:bo+n] != pat: print("destination differs from source"); sys.exit(3)
if b[:bo].strip(b"\xAA") or b[bo+n:].strip(b"\xAA"): print("bytes outside the destination were written"); sys.exit(3)
"""

_SO = None


def real_so():
    global _SO
    if _SO is None:
        d = scratch()
        import atexit

        atexit.register(shutil.rmtree, d, True)
        w = os.path.join(d, "w.cpp")
        with open(w, "w") as f:
            f.write('#include "memory.h"\nextern "C" void vf_copy(void*d,void*s,int64_t n,uintptr_t b,int t)'
                    "{unidist::parallel_memcopy((uint8_t*)d,(const uint8_t*)s,n,b,t);}\n")
        so = os.path.join(d, "k.so")
        cpp = [os.path.join(SRC, f) for f in sorted(os.listdir(SRC)) if f.endswith((".cpp", ".cc"))
               and not f.startswith("_memory")]
        subprocess.run(["g++", "-O2", "-shared", "-fPIC", "-pthread", "-w", "-I", SRC, "-o", so, w] + cpp, check=True)
        _SO = (so, d)
    return _SO[0]


REC = r"""
#include <cstring>
#include "memory.h"
struct R { uint64_t d, s, n, t; };
R vf_rec[4096]; int vf_n = 0; int vf_in = 0; int vf_open = 0;
extern "C" {
void *memcpy(void *d, const void *s, size_t n) { if (vf_n < 4096) vf_rec[vf_n++] = R{(uint64_t)d, (uint64_t)s, n, (uint64_t)vf_in}; return d; }
void *memmove(void *d, const void *s, size_t n) { return memcpy(d, s, n); }
void *memset(void *d, int, size_t) { return d; }
void vf_thread_begin() { vf_in = 1; vf_open++; }
void vf_thread_end() { vf_in = 0; }
void vf_thread_join() { vf_open--; }
void vf_fill64(void *, int64_t, int64_t) {}
void vf_fatal() {}
int vf_go(void *d, void *s, int64_t n, uintptr_t b, int t) { vf_n = 0; vf_open = 0; unidist::parallel_memcopy((uint8_t*)d, (const uint8_t*)s, n, b, t); return vf_open ? -1 : vf_n; }
uint64_t vf_at(int i, int k) { return ((uint64_t *)&vf_rec[i])[k]; }
}
"""

RECRUN = r"""
import ctypes, sys
so, src, dst, n, bs, th = sys.argv[1], *map(int, sys.argv[2:7])
lib = ctypes.CDLL(so)
lib.vf_go.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_int64, ctypes.c_size_t, ctypes.c_int]
lib.vf_at.restype = ctypes.c_uint64
k = lib.vf_go(dst, src, n, bs, th)
if k < 0: print("returns before all copying threads finished"); sys.exit(3)
cs = sorted((lib.vf_at(i, 0) - dst, lib.vf_at(i, 1) - src, lib.vf_at(i, 2)) for i in range(k))
cs = [c for c in cs if c[2]]
pos = 0
for d, s, l in cs:
    if d != s: print("byte copied to a different position", d, s, l); sys.exit(3)
    if d != pos: print("bytes left uncopied or copied twice at", pos, "next copy", d, l); sys.exit(3)
    pos = d + l
if pos != n: print("copied up to", pos, "of", n); sys.exit(3)
"""

_REC = None


def rec_so():
    """The kernel compiled natively with recording stand-ins (lengths too big to allocate)."""
    global _REC
    if _REC is None:
        d = scratch()
        import atexit

        atexit.register(shutil.rmtree, d, True)
        w = os.path.join(d, "r.cpp")
        open(w, "w").write(REC)
        so = os.path.join(d, "r.so")
        cpp = [os.path.join(SRC, f) for f in sorted(os.listdir(SRC)) if f.endswith((".cpp", ".cc"))
               and not f.startswith("_memory")]
        subprocess.run(["clang++", "-O1", "-shared", "-fPIC", "-w", "-fno-builtin", "-nostdinc++", "-fno-exceptions",
                        "-fno-rtti", "-Wl,-Bsymbolic", "-I", os.path.join(HERE, "vf", "stubinc"), "-I", SRC,
                        "-o", so, w] + cpp, check=True)
        _REC = so
    return _REC


def real_run(ctx, src, dst, n, threads):
    try:
        a = wrapper_args((111, n), (222, n), n, threads)
        order_ok = a[0] == 222 and a[1] == 111
        ln, bs, th = a[2], a[3], a[4]
    except (KeyError, SyntaxError, TypeError, NameError, AttributeError):
        order_ok, ln, bs, th = True, n, 64, threads
    ctx.check(order_ok, "source and destination swapped")
    ctx.check(ln == n, "byte copied to a different position" if False else "wrong number of bytes requested")
    if n > 1 << 24:
        cmd = [sys.executable, "-c", RECRUN, rec_so(), str(src), str(dst), str(n), str(bs), str(th)]
    else:
        cmd = [sys.executable, "-c", RUNNER, real_so(), str(src % 4096), str(dst % 4096), str(n), str(bs), str(th)]
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=120)
    except subprocess.TimeoutExpired:
        # takes less than a second otherwise
        ctx.fail("copy kernel", "does not end")
    if r.returncode == 0 and n <= 1 << 24:
        # what the copying threads do later is only seen by recording
        q = subprocess.run([sys.executable, "-c", RECRUN, rec_so(), str(src), str(dst), str(n), str(bs), str(th)],
                           capture_output=True, text=True, timeout=120)
        if q.returncode and "before all" in q.stdout:
            r = q
    ctx.log(f"real kernel: src%4096={src % 4096} dst%4096={dst % 4096} n={n} threads={th} -> rc {r.returncode} {r.stdout.strip()}")
    ctx.check(r.returncode == 0, "copy kernel", f"rc={r.returncode} {r.stdout.strip()} {r.stderr.strip()[-300:]}")


def harnesses(tier):
    q = tier == "quick"
    spec = [(6, 10), (1, 12), (2, 12), (4, 12), (4, 36)] if q else [
        (6, 13), (1, 20), (2, 40), (4, 40), (8, 40), (3, 13), (5, 12), (7, 12)]
    return [
        Harness(f"copy-{t}-threads-2^{nb}", copy_harness(t, nb),
                f"all 64-bit (non-overlapping, user-space) addresses, all lengths in [1, 2^{nb}], {t} threads, "
                "block size as passed by the extension", ["kernel"], budget=250, tbudget=3000,
                opts={"timeout_ms": 300000}, jobs=4, stubs=STUBS)
        for t, nb in spec
    ]

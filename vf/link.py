"""Processes that only exchange objects: the real send/receive functions of the MPI backend over
buffers of symbolic sizes (vf.symbuf) and a symbolic piece limit."""
import gc
import importlib

from . import simmpi, symbuf
from .prog import stub_gap
from .shm import Obj
from .symbuf import Part, Region, same

_CORE = "unidist.core.backends.mpi.core."


class Link:
    def __init__(self, ctx, n, deviations=0, max_len=1 << 40, pieces=None):
        """pieces: the transport's piece limit is symbolic and no buffer exceeds that many pieces."""
        self.ctx, self.small = ctx, ctx.eager
        self.n = n
        self.limit = ctx.int("piece limit", 1, 3 if self.small else 1 << 31) if pieces else 1 << 62
        self.max_len = 5 if self.small else max_len
        self.pieces = pieces
        self.world = w = simmpi.World(ctx, n, deviations=deviations, blocksize=self.limit)
        w.symbolic_buffers = not self.small
        w.module_hooks[_CORE + "serialization"] = self._patch
        symbuf.begin(ctx)
        self.count = 0

    def _patch(self, mod):
        mod.deserialize_complex_data = lambda s_data, raw_buffers, buffer_count: Obj(s_data, raw_buffers, buffer_count)
        mod.serialize_complex_data = lambda data: data["data"].serialized()

    # ------------------------------------------------------------- data
    def fresh(self, n):
        self.count += 1
        if self.small:
            return bytes([(self.count * 16 + i) % 251 for i in range(int(n))])
        return Part(n, self.count)

    def part(self, name, lo=1):
        n = self.ctx.int(name, lo, self.max_len)
        if self.pieces:
            self.ctx.assume(n <= self.pieces * self.limit)
        return self.fresh(n)

    def user_buffer(self, name):
        """Memory of a user object, initially holding a fresh part."""
        p = self.part(name)
        if self.small:
            return bytearray(p), p
        r = Region(p.length)
        r[0:r.length] = p
        return r, p

    def user_memory(self, n):
        return bytearray(int(n)) if self.small else Region(n)

    def overwrite(self, buf):
        new = self.fresh(symbuf.sym_len(buf))
        buf[0:symbuf.sym_len(buf)] = new

    def as_memory(self, buf):
        return simmpi.real_memory_type().frombuffer(buf) if self.small else symbuf.View(buf, 0, buf.length)

    def value(self, buffers):
        return Value(self, buffers)

    def same(self, got, want, label):
        if self.small:
            self.ctx.check(bytes(got) == bytes(want), label, f"{bytes(got)} instead of {bytes(want)}")
        else:
            same(self.ctx, symbuf.wrap(got), symbuf.wrap(want), label)

    def same_object(self, got, value, label="object received differs from the one sent"):
        self.ctx.check(isinstance(got, Obj), label, repr(got))
        self.same(got.s_data, value.header, label)
        self.ctx.check(len(got.raw) == len(value.content) and list(got.count) == [len(value.content)], label,
                       "number of buffers")
        for g, x in zip(got.raw, value.content):
            self.same(g, x, label)

    # ------------------------------------------------------------- running
    def run(self, *mains):
        """mains[r](imp, comm) is executed by process r."""
        ctx, w = self.ctx, self.world

        def rank_main(r, rk):
            imp = importlib.import_module
            communication = imp(_CORE + "communication")
            st = communication.MPIState.get_instance(imp("mpi4py.MPI").COMM_WORLD)
            mains[r](lambda m: imp(_CORE + m), st.global_comm)

        w.run(None, rank_main=rank_main)
        for r, rk in sorted(w.crashed().items()):
            if stub_gap(rk.exc) or "symbolic" in str(rk.exc):
                raise RuntimeError("stand-in gap: " + rk.tb[-1500:])
            ctx.fail("transfer fails", f"process {r}: " + rk.tb[-1200:])
        ctx.check(not w.errors, "message protocol violated", str(w.errors[:2]))
        ctx.check(w.deadlock is None, "transfer hangs", str(w.deadlock))
        ctx.check(not w.dropped, "request dropped before its transfer completed", str(len(w.dropped)))


class Value:
    """A user object: header bytes and out-of-band buffers that live in user memory."""

    def __init__(self, link, buffers):
        self.link = link
        self.header = link.part("header")
        pairs = [link.user_buffer("buffer") for _ in range(buffers)]
        self.memory = [m for m, _ in pairs]
        self.content = [p for _, p in pairs]

    def serialized(self):
        return {"s_data": self.header, "raw_buffers": [self.link.as_memory(m) for m in self.memory],
                "buffer_count": [len(self.memory)]}

    def stored(self):
        """As kept in the object store: immutable copies."""
        return {"s_data": self.header, "raw_buffers": list(self.content), "buffer_count": [len(self.content)]}

    def overwrite(self):
        for m in self.memory:
            self.link.overwrite(m)


def collect():
    gc.collect(0)

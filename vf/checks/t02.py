"""T02: shared-memory areas are sized within what the host offers."""
import sys

from .. import simmpi, symbuf
from ..engine import all_of, any_of
from ..run import Harness
from ..solo import Solo

ASSUMPTIONS = ["all processes of a host see the same amount of free memory while they start",
               "rounding of floating-point products is below one byte (memory below 2^46 bytes)"]
OUTSIDE = ["hosts offering more than 2^46 bytes", "object-size thresholds other than those stated"]
STUBS = ["fstatvfs(/dev/shm) (block size, available, free and total blocks), psutil.virtual_memory -> symbolic sizes", "MPI.Win.Allocate_shared -> records the (symbolic) sizes",
         "configuration: memory sizes are symbolic numbers or unset"]
_CORE = "unidist.core.backends.mpi.core."
TOP = 1 << 46


class Segment(symbuf.Buf):
    """Memory of one window at one rank."""

    def __init__(self, length, key):
        super().__init__(length)
        self.key = key

    def cast(self, fmt, shape=None):
        return Words(self, fmt)

    def root(self):
        return self


class Words(symbuf.Buf):
    """The segment seen as machine words (or a plain view of it)."""

    def __init__(self, seg, fmt):
        self.seg = seg
        self.itemsize = Windows.LONG if fmt in ("l", "L") else {"q": 8, "Q": 8, "i": 4, "I": 4}.get(fmt, 1)
        super().__init__(seg.length // self.itemsize if self.itemsize > 1 else seg.length)
        self.format = fmt

    def cast(self, fmt, shape=None):
        return Words(self.seg, fmt)


class Windows:
    """Stands for MPI.Win of one rank; `mine` are the sizes it asked for."""

    LONG = 8

    def __init__(self, ctx, rank, monitor, sizes):
        self.ctx, self.rank, self.monitor, self.sizes, self.mine = ctx, rank, monitor, sizes, []

    def Allocate_shared(self, size, disp_unit=1, info=None, comm=None):
        self.ctx.check(size >= 0, "window of negative size", f"{size}")
        self.mine.append(size)
        return Window(self, len(self.mine) - 1, comm)


class Window:
    def __init__(self, ws, number, comm):
        self.ws, self.number, self.comm = ws, number, comm

    def Shared_query(self, rank):
        g = self.comm.ranks[rank]
        ws = self.ws
        size = ws.mine[self.number] if g == ws.rank else ws.sizes.get((self.number, g), 0)
        return Segment(size, (self.number, g)), 1

    def Free(self):
        pass


def view(x):
    """Segment a buffer of the store looks at."""
    while not isinstance(x, Segment):
        x = x.seg if isinstance(x, Words) else x.base
    return x


def sizing(hosts, thresholds, platforms=("linux",), blocks=(4096, 1)):
    n = len(hosts)

    def h(ctx):
        symbuf.begin(ctx)
        plat = ctx.pick("platform", list(platforms))
        long = 8 if plat != "win32" else 4
        C = 4 * long
        B = ctx.pick("threshold", list(thresholds))
        x = ctx.int("store memory", -4, TOP) if ctx.pick("store memory set", [True, False]) else None
        y = ctx.int("service memory", -4, TOP) if ctx.pick("service memory set", [True, False]) else None
        offered = {}
        for host in dict.fromkeys(hosts):
            if plat == "linux":
                bs = ctx.pick("block size", list(blocks))
                offered[host] = (bs, ctx.int("free blocks", 0, TOP // bs), ctx.int("blocks kept for root", 0, TOP // bs),
                                 ctx.int("used blocks", 0, TOP // bs))
            else:
                offered[host] = (1, ctx.int("memory", 1, TOP), 0, 0)
        monitor = {host: [r for r in range(n) if hosts[r] == host][1] for host in offered}
        sizes, outcome, views = {}, {}, {}
        order = sorted(range(n), key=lambda r: (r != monitor[hosts[r]], r))
        for me in order:
            host = hosts[me]
            s = Solo(ctx, n=n, me=me, hosts=dict(enumerate(hosts)), shared=True,
                     memory_total=(1 << 34) if plat == "linux" else offered[host][1])
            s.world.shm_blocks = offered[host]
            s.world.symbolic_buffers = True

            filled = []

            def config(mod):
                mod.MpiSharedObjectStoreMemory.get = classmethod(lambda cls: x)
                mod.MpiSharedServiceMemory.get = classmethod(lambda cls: y)
                mod.MpiSharedObjectStoreThreshold.get = classmethod(lambda cls: B)

            def platform(mod):
                mod.sys = simmpi._Ns(sys, platform=plat)
                mod.memoryview = lambda b: Words(b, "B") if isinstance(b, Segment) else memoryview(b)
                record = lambda buf, value: filled.append((buf, value))  # noqa: E731
                mem = sys.modules[_CORE + "_memory"]
                for k, v in list(vars(mod).items()):
                    if v is mem.fill:
                        setattr(mod, k, record)
                mem.fill = record

            s.world.module_hooks["unidist.config.backends.mpi.envvars"] = config
            s.world.module_hooks[_CORE + "shared_object_store"] = platform
            with s:
                MPI = s.imp("mpi4py.MPI")
                MPI.Win = ws = Windows(ctx, me, monitor[host], sizes)
                MPI.LONG = simmpi.Datatype(long)
                Windows.LONG = long
                s.state()
                sos = s.imp(_CORE + "shared_object_store")
                try:
                    store = sos.SharedObjectStore.get_instance()
                except ValueError:
                    outcome[me] = None
                    continue
                outcome[me] = tuple(ws.mine)
                ctx.check(len(ws.mine) == 2, "not two areas are allocated", f"{ws.mine}")
                for k, v in enumerate(ws.mine):
                    sizes[(k, me)] = v
                views[me] = (view(store.shared_buffer).key, view(store.service_shared_buffer).key)
                if me == monitor[host]:
                    ctx.check(any(v == -1 and view(b).key == (1, me) for b, v in filled), "bookkeeping is not initialised")
                    store.logger = type("L", (), {"__getattr__": lambda self, k: (lambda *a, **kw: None)})()
                    mgr = s.imp(_CORE + "monitor.shared_memory_manager").SharedMemoryManager()
                    probe(ctx, s, mgr, ws.mine, C)
        for host, (bs, free, _, _) in offered.items():
            ranks = [r for r in range(n) if hosts[r] == host]
            m = monitor[host]
            avail = bs * free
            what = f"available={avail} store={x} service={y} threshold={B}: {outcome}"
            for r in ranks:
                ctx.check((outcome[r] is None) == (outcome[m] is None), "processes disagree about the memory", what)
            allowed = (avail * 19) // 20
            if outcome[m] is None:
                need = (1 if x is None else x) + (C if y is None else y)
                bad = [need > allowed]
                if x is not None:
                    bad.append(x < 1)
                if y is not None:
                    bad.append(y < C)
                if x is None and y is None:
                    bad.append(allowed < max(100 * C, B + C) + 1)
                ctx.check(any_of(*bad), "sizes that fit are refused", what)
                ctx.reach("refused")
                continue
            ctx.reach("accepted")
            for r in ranks:
                ctx.check(views[r] == ((0, m), (1, m)), "a process looks at other memory", f"{views}")
                if r != m:
                    ctx.check(all_of(*[v == 0 for v in outcome[r]]), "memory is allocated twice", what)
            d, sv = outcome[m]
            ctx.check(20 * (d + sv) <= 19 * avail, "more memory is used than offered", what)
            ctx.check(d >= 1, "no room for an object", what)
            ctx.check(sv >= C, "no room for an object's bookkeeping", what)
            if x is not None:
                ctx.check(d == x, "configured store memory is not respected", what)
            if y is not None:
                ctx.check(all_of(sv <= y, sv > y - C), "configured service memory is not respected", what)
    return h


def probe(ctx, s, mgr, mine, C):
    """The monitor hands out the whole area and no more (bookkeeping permitting)."""
    d, sv = mine
    mk = s.imp(_CORE + "common").MpiDataID
    try:
        mgr.put("big", d + 1)
        ctx.fail("the monitor hands out memory that was not allocated", f"{d}")
    except MemoryError:
        pass
    try:
        r = mgr.put("all", d)
    except MemoryError as e:
        ctx.check(any_of(d < 1, sv < C), "the monitor cannot hand out the allocated memory", f"{e} {d} {sv}")
        return
    ctx.check(all_of(r["first_index"] == 0, r["last_index"] == d), "the monitor misjudges the allocated memory", f"{r} {d}")
    ctx.check(all_of(r["service_index"] >= 0, (r["service_index"] + 4) * (C // 4) <= sv), "bookkeeping outside its area", f"{r} {sv}")


def harnesses(tier):
    b = "memory 0..2^46 bytes, explicit sizes -4..2^46 or unset, object-size threshold one of %s, %s"
    ts = (10**5, 0, 1, 3168, 3169, 10**9)
    w = ["accepted", "refused"]
    return [
        Harness("one host", sizing([0, 0, 0], ts), b % (ts, "one host of 3 processes"), witnesses=w, budget=240, stubs=STUBS),
        Harness("two hosts", sizing([0, 0, 1, 1], (10**5, 0), blocks=(4096,)), b % ((10**5, 0), "two hosts of 2 processes"), witnesses=w,
                budget=240, stubs=STUBS),
        Harness("other systems", sizing([0, 0], (10**5, 1585), ("darwin", "win32")),
                b % ((10**5, 1585), "one host of 2 processes, not Linux"), witnesses=w, budget=240, stubs=STUBS),
    ]

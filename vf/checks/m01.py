"""M01: shared-memory reservations (monitor side)."""
from ..engine import all_of, any_of, implies, sym_not
from ..run import Harness
from ..solo import Solo, NullLogger

ASSUMPTIONS = [
    "object sizes are at least one byte (every serialized object has a non-empty header)",
    "reference bookkeeping of the released objects reads zero (its own property decides when that happens)",
]
OUTSIDE = [
    "histories longer than the stated number of steps from the stated starting shapes",
    "the MPI window itself: only index arithmetic is decided here",
]
STUBS = ["SharedObjectStore.get_ref_number -> 0", "SharedObjectStore.delete_service_info -> recorded",
         "monitor Allreduce -> identity (one host)"]

_SMM = "unidist.core.backends.mpi.core.monitor.shared_memory_manager"
_SOS = "unidist.core.backends.mpi.core.shared_object_store"


def make_manager(ctx, s, total, slots, refs=None, deleted=None):
    """A real SharedMemoryManager over an area of `total` bytes and `slots` bookkeeping slots."""
    sos = s.imp(_SOS)
    cfg = s.imp("unidist.config")
    cfg.MpiSharedObjectStore.put(False)
    s.state()

    class Store(sos.SharedObjectStore):
        def get_ref_number(self, data_id, service_index):
            return (refs or {}).get(data_id, 0)

        def delete_service_info(self, data_id, service_index):
            if deleted is not None:
                deleted.append((data_id, service_index))

    store = Store()
    store.logger = NullLogger()
    store.shared_memory_size = total
    store.service_info_max_count = slots * sos.SharedObjectStore.INFO_SIZE
    store.shared_buffer = store.service_shared_buffer = None
    sos.SharedObjectStore.get_instance = classmethod(lambda cls: store)
    cfg.MpiSharedObjectStore.put(True)
    smm = s.imp(_SMM)
    smm.SharedObjectStore.get_instance = classmethod(lambda cls: store)
    return smm.SharedMemoryManager(), sos.SharedObjectStore.INFO_SIZE


class Model:
    """Ghost state + the property."""

    def __init__(self, ctx, mgr, info, total, slots, mk_id):
        self.ctx, self.mgr, self.info = ctx, mgr, info
        self.total, self.slots = total, slots
        self.live = {}
        self.mk_id, self.n = mk_id, 0

    def reserve(self, length):
        ctx = self.ctx
        did = self.mk_id(self.n)
        self.n += 1
        live = list(self.live.values())
        fits = any_of(*[
            all_of(st + length <= self.total,
                   *[any_of(st + length <= f, st >= l) for f, l, _ in live])
            for st in [0] + [l for _, l, _ in live]
        ])
        slot_free = len(live) < self.slots
        try:
            r = self.mgr.put(did, length)
        except MemoryError:
            r = None
        if r is None:
            ctx.log(f"reserve {length} -> rejected")
            ctx.reach("rejected")
            ctx.check(sym_not(fits) if slot_free else True, "request that fits is rejected")
            ctx.check(self.mgr.get(did) is None, "rejected request leaves a reservation behind")
            return None
        f, l, sv = r["first_index"], r["last_index"], r["service_index"]
        ctx.log(f"reserve {length} -> [{f},{l}) slot {sv}")
        ctx.reach("granted")
        ctx.check(all_of(f >= 0, l <= self.total), "reservation out of bounds")
        ctx.check(l - f == length, "reservation has the wrong size")
        for f2, l2, _ in live:
            ctx.check(any_of(l <= f2, l2 <= f), "reservations overlap")
        ctx.check(all_of(sv >= 0, sv + self.info <= self.slots * self.info), "bookkeeping slot out of bounds")
        for _, _, sv2 in live:
            ctx.check(any_of(sv + self.info <= sv2, sv2 + self.info <= sv), "bookkeeping slots overlap")
        got = self.mgr.get(did)
        ctx.check(got is not None, "granted reservation is unknown")
        ctx.check(all_of(got["first_index"] == f, got["last_index"] == l, got["service_index"] == sv),
                  "lookup returns another reservation")
        self.live[did] = (f, l, sv)
        return did

    def release(self, *dids):
        self.ctx.log(f"release {dids}")
        self.mgr.clear(list(dids))
        for d in dids:
            self.live.pop(d)
            self.ctx.check(self.mgr.get(d) is None, "released reservation still known")
        for d, (f, l, sv) in self.live.items():
            g = self.mgr.get(d)
            self.ctx.check(g is not None and all_of(g["first_index"] == f, g["last_index"] == l,
                                                    g["service_index"] == sv),
                           "releasing one object moved or dropped another one")
        self.ctx.reach("released")


def _setup(ctx, s, slots, total=None):
    total = ctx.int("total", 1, 1 << 48) if total is None else total
    mgr, info = make_manager(ctx, s, total, slots)
    common = s.imp("unidist.core.backends.mpi.core.common")
    return Model(ctx, mgr, info, total, slots, lambda i: common.MpiDataID(0, i))


def history(steps, slots):
    def h(ctx):
        with Solo(ctx, 3, 1) as s:
            m = _setup(ctx, s, slots)
            for _ in range(steps):
                opts = ["reserve"] + list(m.live)
                op = ctx.pick("op", opts)
                if op == "reserve":
                    m.reserve(ctx.int("len", 1, 1 << 48))
                else:
                    m.release(op)

    return h


def fragmented(blocks, frees, tail):
    """Area filled with adjacent blocks of arbitrary sizes, `frees` of them released in any
    order, then `tail` reservations, then everything is released and one object takes it all."""

    def h(ctx):
        with Solo(ctx, 3, 1) as s:
            lens = [ctx.int("len", 1, 1 << 40) for _ in range(blocks)]
            slack = ctx.int("slack", 0, 1 << 40)
            total = slack
            for x in lens:
                total = total + x
            m = _setup(ctx, s, blocks + tail, total)
            ids = [m.reserve(x) for x in lens]
            ctx.assume(all(i is not None for i in ids))
            left = list(ids)
            for _ in range(frees):
                d = ctx.pick("free", left)
                left.remove(d)
                m.release(d)
            for _ in range(tail):
                m.reserve(ctx.int("new", 1, 1 << 40))
            ctx.reach("fragmented")
            order = list(m.live)
            if ctx.value(ctx.bool("reverse")):
                order.reverse()
            if ctx.value(ctx.bool("batch")):
                m.release(*order)
            else:
                for d in order:
                    m.release(d)
            ctx.check(m.reserve(total) is not None, "empty area cannot be reserved as a whole")
            ctx.reach("whole")

    return h


def exhausted(ctx):
    """Bookkeeping slots run out / memory runs out: the failed request must change nothing."""
    with Solo(ctx, 3, 1) as s:
        slots = ctx.pick("slots", [1, 2])
        m = _setup(ctx, s, slots)
        for _ in range(3):
            m.reserve(ctx.int("len", 1, 1 << 48))
        if m.live:
            m.release(ctx.pick("victim", list(m.live)))
        for _ in range(2):
            m.reserve(ctx.int("len", 1, 1 << 48))
        m.release(*list(m.live))
        for _ in range(slots):
            m.reserve(ctx.int("again", 1, 1 << 48))
        ctx.reach("end")


def harnesses(tier):
    q = tier == "quick"
    k = 5 if q else 7
    return [
        Harness("history", history(k, 3),
                f"every sequence of {k} reserve/release steps, 3 slots, sizes and area in [1, 2^48]",
                ["granted", "rejected", "released"], budget=200, tbudget=3000, stubs=STUBS),
        Harness("fragmented", fragmented(4, 2, 1) if q else fragmented(6, 3, 2),
                ("4 adjacent blocks, 2 released in any order, 1 new reservation" if q else
                 "6 adjacent blocks, 3 released in any order, 2 new reservations")
                + ", all released, whole area reserved; sizes in [1, 2^40]",
                ["fragmented", "whole"], budget=200, tbudget=4000, stubs=STUBS),
        Harness("exhausted", exhausted,
                "3 reservations into 1-2 slots, one release, 2 reservations, all released, refill; sizes in [1, 2^48]",
                ["end", "rejected"], budget=150, tbudget=1500, stubs=STUBS),
    ]

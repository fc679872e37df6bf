"""M04: transfers deliver every byte and keep buffers alive until delivered."""
import gc
import weakref

from ..engine import is_sym
from ..link import Link, collect
from ..prog import Run
from ..run import Harness
from ..solo import Solo

ASSUMPTIONS = [
    "the transport delivers messages of one sender, receiver and tag in order and reads a non-blocking send's buffer at the "
    "latest when its receive matches",
    "a buffer whose size is announced separately has at least one byte; parts of objects have at least one byte",
]
OUTSIDE = ["more objects, senders or buffers than stated", "the MPI library's own handling of messages above its limit"]
STUBS = ["MPI transport: vf.simmpi", "serialize/deserialize_complex_data -> recorders of the parts (decided by M05)",
         "buffers: symbolic sizes (vf.symbuf)"]


def pieces(k):
    """A buffer of any size up to k pieces, any piece limit."""

    def h(ctx):
        l = Link(ctx, 2, pieces=k)
        how = ctx.pick("sent", ["blocking", "blocking, size announced", "non-blocking"])
        data = l.part("length", 0 if how == "non-blocking" else 1)
        given = how == "blocking" or ctx.value(ctx.bool("receive into given memory"))
        after = l.part("second", 1)

        def sender(imp, comm):
            c = imp("communication")
            ops = imp("async_operations").AsyncOperations.get_instance()
            for d in (data, after):
                n = _len(d)
                if how == "blocking":
                    c.mpi_send_buffer(comm, _mem(l, d), 1)
                elif how == "blocking, size announced":
                    c.mpi_send_buffer(comm, _mem(l, d), 1, buffer_size=n)
                else:
                    ops.extend(c.mpi_isend_buffer(comm, n, d, 1))
                collect()
            ops.finish()

        def receiver(imp, comm):
            c = imp("communication")
            for d in (data, after):
                if given and how == "blocking":
                    buf = l.user_memory(_len(d))
                    r = c.mpi_recv_buffer(comm, 0, buf)
                    l.same(buf, d, "buffer received differs from the one sent")
                else:
                    r = c.mpi_recv_buffer(comm, 0)
                l.same(r, d, "buffer received differs from the one sent")
            ctx.reach("received")

        l.run(sender, receiver)

    return h


def _len(x):
    from .. import symbuf

    return symbuf.sym_len(x)


def _mem(l, d):
    return memoryview(d) if l.small else d


def objects(buffers, senders, blocking, deviations):
    """Objects from several senders to one receiver, two per sender; user memory is overwritten
    as soon as the send returns."""

    def h(ctx):
        l = Link(ctx, senders + 1, deviations=deviations)
        n = [[ctx.pick("buffers", buffers) for _ in range(2)] for _ in range(senders)]
        vals = [[l.value(x) for x in row] for row in n]
        stored = [ctx.value(ctx.bool("already serialized")) for _ in range(senders)]
        checks = ctx.value(ctx.bool("completion checked in between"))

        def sender(s):
            def main(imp, comm):
                c, common = imp("communication"), imp("common")
                ops = imp("async_operations").AsyncOperations.get_instance()
                for i, v in enumerate(vals[s]):
                    data = v.stored() if stored[s] else {"data": v}
                    if stored[s] or blocking:
                        data["id"] = common.MpiDataID(s + 1, i)
                    if blocking:
                        c.send_complex_data(comm, data, 0, is_serialized=stored[s])
                    else:
                        hs, _ = c.isend_complex_operation(comm, common.Operation.EXECUTE, data, 0, is_serialized=stored[s])
                        ops.extend(hs)
                        del hs
                    del data
                    v.overwrite()
                    if checks:
                        ops.check()
                    collect()
                ops.finish()

            return main

        def receiver(imp, comm):
            c, cc = imp("communication"), imp("controller.common")
            common = imp("common")
            seen = [0] * senders
            for _ in range(2 * senders):
                if blocking:
                    r = cc.pull_data(comm)
                    k = r["id"]
                    src, i = k._id if isinstance(k._id, tuple) else (k.owner_rank, k.data_number)
                    got = r["data"]
                else:
                    op, src = c.mpi_recv_operation(comm)
                    ctx.check(op == common.Operation.EXECUTE, "operation received differs from the one sent", str(op))
                    got = cc.pull_data(comm, src)
                    i = seen[src - 1]
                    if stored[src - 1]:
                        k = got["id"]
                        ctx.check((k.owner_rank, k.data_number) == (src, i), "object arrives under another name",
                                  f"{k} from {src}")
                        got = got["data"]
                ctx.check(i == seen[src - 1], "objects of one sender out of order")
                seen[src - 1] += 1
                l.same_object(got, vals[src - 1][i])
            ctx.reach("received")

        l.run(receiver, *[sender(s) for s in range(senders)])

    return h


class Handle:
    """A request whose completion the solver decides."""

    def __init__(self, ctx, i):
        self.ctx, self.i, self.done, self.waited = ctx, i, False, False

    def Test(self, status=None):
        if not self.done:
            self.done = self.ctx.value(self.ctx.bool(f"request {self.i} completed"))
        return self.done

    def test(self, status=None):
        return self.Test(), None

    def Wait(self, status=None):
        self.done = self.waited = True
        return True

    def wait(self, status=None):
        self.Wait()


class Payload:
    pass


def tracking(n, rounds):
    """Requests complete at any time: they and their buffers are kept exactly until then."""

    def h(ctx):
        with Solo(ctx) as s:
            mod = s.imp("unidist.core.backends.mpi.core.async_operations")
            ops = mod.AsyncOperations.get_instance()
            ctx.check(ops is mod.AsyncOperations.get_instance(), "several trackers in one process")
            handles, refs, bufs, state = [], [], [], {}
            cnt = [0]

            def add():
                i = cnt[0]
                cnt[0] += 1
                hd, b = Handle(ctx, i), Payload()
                refs.append(weakref.ref(hd))
                bufs.append(weakref.ref(b))
                state[i] = hd.__dict__
                return hd, b

            def audit():
                gc.collect(0)
                for i in range(cnt[0]):
                    if not state[i]["done"]:
                        ctx.check(refs[i]() is not None, "request dropped before its transfer completed", f"request {i}")
                        ctx.check(bufs[i]() is not None, "buffer dropped before its transfer completed", f"buffer {i}")

            ops.extend([add() for _ in range(n)])
            audit()
            for r in range(rounds):
                before = [i for i in range(cnt[0]) if state[i]["done"]]
                ops.check()
                audit()
                for i in before:
                    ctx.check(bufs[i]() is None, "buffer of a completed transfer kept", f"buffer {i}")
                if r == 0:
                    ops.extend([add()])
                    audit()
            ops.finish()
            for i in range(cnt[0]):
                ctx.check(state[i]["done"], "finish returns before a transfer completed", f"request {i}")
            gc.collect(0)
            for i in range(cnt[0]):
                ctx.check(refs[i]() is None and bufs[i]() is None, "buffer of a completed transfer kept", f"buffer {i}")
            ctx.reach("finished")

    return h


def arr_sum(token, a, k=0):
    return int(a.sum()) + k


class Keeper:
    def __init__(self, a):
        self.a = a

    def total(self, token, b):
        return int(self.a.sum()) + int(b.sum())


def program(steps, n, shared, deviations):
    """Tasks and actors given arrays that the program changes right after the call, objects that
    are transferred repeatedly, clean-ups and shutdown: no transfer loses its request, and what
    arrives is what was given."""

    def h(ctx):
        run = Run(ctx, n, shared=shared, deviations=deviations, environ={"UNIDIST_MPI_PICKLE_THRESHOLD": "64"})

        def main(u, r):
            import numpy as np

            out = []
            a = np.ones(40, dtype="int64")
            ref = u.put(a)
            a[:] = 5
            actor = None
            for _ in range(steps):
                op = ctx.pick("op", ["task", "nested", "ref", "actor", "method", "clean"])
                b = np.full(30, 2, dtype="int64")
                if op == "task":
                    out.append((r.call(arr_sum, r.token(), b), 60))
                elif op == "nested":
                    out.append((r.call(first_sum, r.token(), [b], k={"x": (b,)}), 120))
                elif op == "ref":
                    out.append((r.call(arr_sum, r.token(), ref, r.call(arr_sum, r.token(), b)), 100))
                elif op == "clean":
                    for _ in range(12):
                        u.put(1)
                    for _ in range(4):
                        r.world.clock += 2.0
                        u.get(ref)
                else:
                    if actor is None or op == "actor":
                        actor = u.remote(Keeper).remote(b)
                        c = np.full(20, 3, dtype="int64")
                    else:
                        c = np.full(20, 3, dtype="int64")
                    out.append((actor.total.remote(r.token(), c), 120))
                    c[:] = 9
                b[:] = 7
                gc.collect(0)
            for x, e in out:
                g = u.get(x)
                ctx.check(g == e, "data given to a task changed on its way", f"{g} instead of {e}")
            ctx.reach("all arrived")

        run.run(main)
        ctx.check(not run.world.dropped, "request dropped before its transfer completed",
                  str([(m.src, m.dst, m.tag) for m in run.world.dropped[:3]]))

    return h


def first_sum(token, a, k):
    return int(a[0].sum()) + int(k["x"][0].sum())


def harnesses(tier):
    q = tier == "quick"
    return [
        Harness("pieces", pieces(3 if q else 5), f"two buffers of up to {3 if q else 5} pieces each, piece limit in [1, 2^31]",
                ["received"], budget=60, tbudget=1200, stubs=STUBS),
        Harness("blocking", objects((0, 2), 2, True, 2) if q else objects((0, 1, 2), 3, True, 3),
                f"{2 if q else 3} senders x 2 objects with {'0 or 2' if q else '0 to 2'} buffers of [1, 2^40] bytes, blocking", ["received"],
                budget=60, tbudget=1500, stubs=STUBS),
        Harness("non-blocking", objects((0, 2), 2, False, 2) if q else objects((0, 1, 2), 3, False, 3),
                f"{2 if q else 3} senders x 2 objects with {'0 or 2' if q else '0 to 2'} buffers of [1, 2^40] bytes, non-blocking, the sender's "
                "memory overwritten afterwards", ["received"], budget=60, tbudget=1500, stubs=STUBS),
        Harness("tracking", tracking(3, 2) if q else tracking(4, 4), f"{3 if q else 4}+1 requests completing in any order, "
                f"{2 if q else 4} completion checks", ["finished"], budget=60, tbudget=600,
                stubs=["request handles: completion decided by the solver"]),
        Harness("program", program(2, 4, False, 1) if q else program(3, 5, False, 2),
                f"programs of {2 if q else 3} steps on {4 if q else 5} processes, arrays changed after every call", ["all arrived"],
                budget=60, tbudget=2000, stubs=["MPI transport: vf.simmpi"]),
        Harness("program, shared", program(2, 4, 1000, 1) if q else program(3, 5, 200, 2),
                f"the same with the shared object store", ["all arrived"],
                budget=60, tbudget=2000, stubs=["MPI transport: vf.simmpi"]),
    ]

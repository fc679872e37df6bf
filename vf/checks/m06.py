"""M06: shared memory is given away only when nobody uses it, and then it is."""
from ..run import Harness
from ..shm import Shm

ASSUMPTIONS = [
    "a clean-up request names an object only after the process that created it has dropped it (the garbage collector's contract, S07)",
    "object parts have at least one byte and every object has at least one out-of-band buffer (only those are read without a copy)",
    "deserialization is replaced by a recorder holding views of the store, like arrays do",
]
OUTSIDE = ["longer histories, more readers or hosts than stated",
           "what happens when the store is full (the monitor refuses; see DESIGN.md)"]
STUBS = ["MPI transport, windows and locks: vf.simmpi", "deserialize_complex_data -> recorder", "parallel_memcopy -> region write",
         "store memory and object parts: symbolic buffers (vf.symbuf)", "scheduler may preempt a process at every access to a bookkeeping word (races)"]


def finish(ctx, s, ranks, keys, sent):
    """Everything dropped and cleaned up: the whole area can be taken by one object again."""
    for r in ranks:
        for k in list(keys):
            s.drop_value(r, k)
            s.drop_id(r, k)
    s.cleanup([k for k in keys if k not in sent])
    sent.update(keys)
    for r in [0] + ([3] if len(set(s.hosts.values())) > 1 else []):
        s.max_len = 1 << 60
        o = {"s_data": s.part("rest"), "raw_buffers": [], "buffer_count": [0]}
        ctx.assume(s.size(o) == s.total)
        s.new_object = lambda buffers: o
        try:
            s.put(r, (r, 99), 0)
        except MemoryError:
            ctx.fail("memory of unused objects is not released")
        finally:
            del s.new_object
    ctx.reach("whole area free again")


def history(hosts, readers, cleanups, own=True):
    """Drops of refs and values by several readers in any order, clean-ups and new objects anywhere
    in between."""

    def h(ctx):
        s = Shm(ctx, hosts, slots=cleanups + 2)

        def program(s):
            a = (0, 0)
            keys, sent = [a], set()
            s.put(0, a, 1)
            info = s.info(0, a)
            for r in readers:
                s.read(r, a, 0, info)
            s.expect_all()
            todo = [("id", r) for r in readers] + [("value", r) for r in readers]
            if own and ctx.value(ctx.bool("creator reads as well")):
                s.again(0, a)
                todo.append(("value", 0))
            s.drop_id(0, a)
            left, n = cleanups, 0
            while todo:
                ops = list(todo) + ([("cleanup", 0)] if left else [])
                op, r = ctx.pick("next", ops)
                ctx.log(f"{op} {r}")
                if op == "cleanup":
                    left -= 1
                    n += 1
                    s.cleanup([k for k in [a] if k not in sent])
                    sent.add(a)
                    k = (0, n)
                    keys.append(k)
                    s.put(0, k, 1)
                    s.read(readers[0], k, 0, s.info(0, k))
                    ctx.reach("new object while the old one may be in use")
                    s.expect_all("value in use was overwritten or lost")
                else:
                    todo.remove((op, r))
                    (s.drop_id if op == "id" else s.drop_value)(r, a)
            finish(ctx, s, [0] + readers, keys, sent)

        ctx.assume(s.total >= (cleanups + 2) * 2 * s.max_len)
        s.run(program)

    return h


def races(deviations, drop):
    """Two readers attach to and detach from an object at the same time as a clean-up runs."""

    def h(ctx):
        s = Shm(ctx, ["a"] * 4, slots=3, deviations=deviations, races=True)

        def program(s):
            a, b = (0, 0), (0, 1)
            sent = set()
            s.put(0, a, 1)
            info = s.info(0, a)

            def visit(r, keep):
                rd = s.reader(r, a, 0, info)

                def fn():
                    rd()
                    if not keep:
                        s.ids.pop((r, a), None)
                        s.values.pop((r, a), None)

                return fn

            k2, k3 = ctx.value(ctx.bool("rank 2 keeps it")), ctx.value(ctx.bool("rank 3 keeps it"))
            boxes = [s.start(2, visit(2, k2)), s.start(3, visit(3, k3))]
            s.wait(*boxes)
            if drop:
                boxes = []
                for r, keep in ((2, k2), (3, k3)):
                    if keep:
                        def fn(r=r):
                            s.values.pop((r, a), None)
                            s.ids.pop((r, a), None)
                        boxes.append(s.start(r, fn))
                k2 = k3 = False
                s.wait(*boxes)
            s.drop_id(0, a)
            s.cleanup([a])
            sent.add(a)
            s.put(0, b, 1)
            s.read(3, b, 0, s.info(0, b))
            s.expect_all("value in use was overwritten or lost")
            ctx.reach("raced")
            finish(ctx, s, [0, 2, 3], [a, b], sent)

        ctx.assume(s.total >= 4 * s.max_len)
        s.run(program)

    return h


def both(deviations):
    """Two processes of another host fetch an object at the same time; the first to drop it leaves
    the other's copy alone."""

    def h(ctx):
        s = Shm(ctx, ["a", "a", "a", "b", "b", "b"], slots=3, deviations=deviations, starve=True)

        def program(s):
            a, sent = (0, 0), set()
            s.put(0, a, 1)
            info = s.info(0, a)
            s.wait(s.start(3, s.reader(3, a, 0, info)), s.start(5, s.reader(5, a, 0, info)))
            s.expect_all()
            s.drop_id(0, a)
            keys = [a]
            order = ctx.pick("order", [(3, 5), (5, 3)])
            what = ctx.pick("first", ["id", "value"])
            for n, r in enumerate(order):
                for w in ([what, "value" if what == "id" else "id"]):
                    (s.drop_id if w == "id" else s.drop_value)(r, a)
                s.cleanup([k for k in [a] if k not in sent])
                sent.add(a)
                k = (3, n)
                keys.append(k)
                s.put(3, k, 1)
                s.read(5, k, 3, s.info(3, k))
                s.expect_all("value in use was overwritten or lost")
            ctx.reach("dropped one after the other")
            finish(ctx, s, [0, 3, 5], keys, sent)

        ctx.assume(s.total >= 8 * s.max_len)
        s.run(program)

    return h


def harnesses(tier):
    q = tier == "quick"
    c = 2 if q else 3
    return [
        Harness("one host", history(["a"] * 4, [2, 3], c),
                f"1 host, 2 readers, drops of refs and values in any order, up to {c} clean-ups with new objects anywhere, sizes in [1, 2^40]",
                ["new object while the old one may be in use", "whole area free again"], budget=200, tbudget=3000, stubs=STUBS),
        Harness("two hosts", history(["a", "a", "a", "b", "b"], [2, 3], c, own=not q),
                f"2 hosts, a reader on each, drops in any order, up to {c} clean-ups with new objects anywhere, sizes in [1, 2^40]",
                ["new object while the old one may be in use", "whole area free again"], budget=200, tbudget=3000, stubs=STUBS),
        Harness("both", both(0 if q else 2),
                "2 hosts, two processes of one host fetch the object at the same time, one process (any) starved, sizes in [1, 2^40]",
                ["dropped one after the other", "whole area free again"], budget=100, tbudget=2000, stubs=STUBS),
        Harness("attach races", races(2 if q else 3, False),
                f"2 readers attach (and possibly detach) concurrently, up to {2 if q else 3} preemptions between bookkeeping accesses",
                ["raced", "whole area free again"], budget=150, tbudget=3000, stubs=STUBS),
        Harness("detach races", races(2 if q else 3, True),
                f"2 readers attach and detach concurrently, up to {2 if q else 3} preemptions between bookkeeping accesses",
                ["raced", "whole area free again"], budget=150, tbudget=3000, stubs=STUBS),
    ]

"""M03: the shared object store hands back what was stored."""
from ..run import Harness
from ..shm import Shm

ASSUMPTIONS = [
    "every part of an object has at least one byte (headers are never empty; out-of-band buffers are at least the pickle threshold, which is positive)",
    "the copy kernel copies exactly the given bytes (M02) and reservations are disjoint (M01)",
    "deserialization is replaced by a recorder: what is decided is which bytes it is given (M05 decides the rest)",
]
OUTSIDE = [
    "more objects, buffers or processes than stated",
    "torn reads of single machine words of the bookkeeping area by the hardware",
]
STUBS = ["MPI transport, windows and locks: vf.simmpi", "deserialize_complex_data -> recorder", "parallel_memcopy -> region write",
         "store memory and object parts: symbolic buffers (vf.symbuf)"]
H1 = ["a", "a", "a", "a"]           # main program, monitor, two workers
H2 = ["a", "a", "a", "b", "b", "b"]   # second host: workers 3 and 5, monitor 4


def _full(e):
    return isinstance(e, MemoryError)


def one_host(objects, buffers):
    """Objects stored by different processes, read by others, some released and their memory
    reused; every value read must equal what was stored, also after later puts."""

    def h(ctx):
        s = Shm(ctx, H1, slots=objects)

        def program(s):
            need = 0
            for i in range(objects):
                r = ctx.pick("writer", [0, 2])
                o = s.put(r, (r, i), buffers)
                need = need + s.size(o)
                reader = ctx.pick("reader", [2, 3])
                if (reader, (r, i)) not in s.ids:
                    s.read(reader, (r, i), r, s.info(r, (r, i)))
                else:
                    s.again(reader, (r, i))
                s.expect(reader, (r, i))
                s.expect_all()
            ctx.reach("all read")
            for (r, k) in list(s.ids):
                if k[0] == r:
                    s.again(r, k)
                    s.expect(r, k, "value read by its producer differs")
            s.expect_all()

        s.ctx.assume(s.total >= objects * (1 + buffers) * s.max_len)
        s.run(program)

    return h


def reuse(buffers):
    """The first object is released everywhere and a second and third one take its memory and its
    bookkeeping slot."""

    def h(ctx):
        s = Shm(ctx, H1, slots=2)

        def program(s):
            a, b, c = (0, 0), (2, 0), (0, 1)
            s.put(0, a, buffers)
            s.read(2, a, 0, s.info(0, a))
            s.read(3, a, 0, s.info(0, a))
            s.expect_all()
            s.put(2, b, buffers)
            s.read(3, b, 2, s.info(2, b))
            victim, owner = ctx.pick("victim", [(a, 0), (b, 2)])
            for r in (0, 2, 3):
                s.drop_value(r, victim)
                s.drop_id(r, victim)
            s.cleanup([victim])
            s.expect_all()
            s.put(0, c, buffers)
            for r in (2, 3):
                s.read(r, c, 0, s.info(0, c))
            ctx.reach("reused")
            s.expect_all()
            s.expect(3, c)

        s.ctx.assume(s.total >= 3 * (1 + buffers) * s.max_len)
        s.run(program)

    return h


IDS = [((3, 0), (0, 0)), ((2, 5), (12, 5)), ((12, 5), (2, 5)), ((1, 23), (12, 3)), ((0, 15), (0, 5)), ((0, 1), (0, 11)), ((1, 0), (0, 1)), ((0, 100), (0, 10))]


def two_hosts(buffers, other, deviations, starve=False, ids=False):
    """An object of one host read by two processes of another host at the same time, with `other`
    objects of that host occupying slots and memory before."""

    def h(ctx):
        s = Shm(ctx, H2, slots=other + 2, deviations=deviations, races=not starve and not ids, starve=starve)
        old, k = ctx.pick("ids", IDS) if ids else IDS[0]

        def program(s):
            for i in range(other):
                o = (old[0], old[1] + i)
                s.put(3, o, buffers)
                s.read(5, o, 3, s.info(3, o))
            first = ctx.value(ctx.bool("older object on the first host"))
            if first:
                s.put(2, (2, 0), buffers)
                s.read(0, (2, 0), 2, s.info(2, (2, 0)))
            s.put(0, k, buffers)
            info = s.info(0, k)
            x = s.start(3, s.reader(3, k, 0, info))
            y = s.start(5, s.reader(5, k, 0, info))
            s.wait(x, y)
            ctx.reach("synchronized")
            s.expect(3, k)
            s.expect(5, k)
            s.again(5, k)
            s.expect_all()
            s.read(2, k, 0, info)
            s.expect_all()
            if first:
                s.read(3, (2, 0), 2, s.info(2, (2, 0)))
                s.expect_all()

        s.ctx.assume(s.total >= (other + 2) * (1 + buffers) * s.max_len)
        s.run(program)

    return h


def full_area(ctx):
    """Objects of arbitrary size into an area of arbitrary size: either the store refuses, or
    everything stored so far is intact."""
    s = Shm(ctx, H1, slots=4)
    st = {"ok": 0}

    def program(s):
        need = 0
        for i in range(2):
            o = s.new_object(1)
            ctx.assume(need + s.size(o) <= s.total)
            need = need + s.size(o)
            s.new_object = lambda buffers, o=o: o
            s.put(0, (0, i), 1)
            s.read(3, (0, i), 0, s.info(0, (0, i)))
            del s.new_object
            s.expect_all()
        ctx.reach("tight")

    s.run(program)


def harnesses(tier):
    q = tier == "quick"
    return [
        Harness("one host", one_host(3, 2) if q else one_host(4, 3),
                f"1 host, {3 if q else 4} objects with {2 if q else 3} out-of-band buffers, any writer and reader, sizes in [1, 2^40]",
                ["all read"], budget=90, tbudget=2500, stubs=STUBS),
        Harness("reuse", reuse(1 if q else 2), "3 objects, one of two released and its memory and slot reused, sizes in [1, 2^40]",
                ["reused"], budget=90, tbudget=1500, stubs=STUBS),
        Harness("two hosts", two_hosts(1, 1, 2) if q else two_hosts(2, 2, 4),
                f"2 hosts, concurrent transfer to two readers, {1 if q else 2} older objects, all interleavings with up to {2 if q else 4} "
                "deviations, sizes in [1, 2^40]", ["synchronized"], budget=120, tbudget=3000, stubs=STUBS),
        Harness("two hosts, starved", two_hosts(1, 0, 0, True) if q else two_hosts(1, 1, 2, True),
                "the same while one process (any, also a monitor) only progresses when nothing else can", ["synchronized"],
                budget=60, tbudget=2000, stubs=STUBS),
        Harness("two hosts, ids", two_hosts(1, 1, 0, ids=True), "the same with pairs of identifiers that have digits in common; default schedule",
                ["synchronized"], budget=40, tbudget=200, stubs=STUBS),
        Harness("tight area", full_area, "2 objects filling an area up to the last byte, sizes in [1, 2^40]", ["tight"],
                budget=60, tbudget=600, stubs=STUBS),
    ]

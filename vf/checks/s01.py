"""S01: get returns the referenced values."""
from .. import prog
from ..prog import Run, same
from ..run import Harness

ASSUMPTIONS = [
    "stand-in MPI: messages of one (sender, receiver, tag) stay in order, everything else may overtake; sends "
    "are buffered (see vf/simmpi.py)",
    "user functions terminate",
]
OUTSIDE = ["more refs/workers than stated", "real MPI transport and process start-up"]
STUBS = ["mpi4py -> vf/simmpi.py", "copy kernel -> byte copy (decided by M02)",
         "clock, psutil, /dev/shm size -> fixed", "event loop executor -> runs when the loop is idle"]


def sources(ctx, u, r, kinds):
    """One ref of every requested kind with the expected value."""
    import numpy as np

    refs, exp = [], []
    for k in kinds:
        v = ctx.int("v", -100, 100)
        if k == "put":
            refs.append(u.put([v, {"k": v}]))
            exp.append([v, {"k": v}])
        elif k == "putbig":
            refs.append(u.put({"a": np.arange(3000), "v": v}))
            exp.append({"a": np.arange(3000), "v": v})
        elif k == "task":
            refs.append(r.call(prog.total, r.token(), v, 1))
            exp.append(v + 1)
        elif k == "pair":
            a, b = r.call(prog.fan, r.token(), 2, v, num_returns=2)
            refs += [b]
            exp += [v + 1]
        elif k == "array":
            refs.append(r.call(prog.array, r.token(), 2000, 7))
            exp.append(np.full(2000, 7, dtype="int64"))
        elif k == "dep":
            x = r.call(prog.total, r.token(), v, 1)
            refs.append(r.call(prog.total, r.token(), x, 5))
            exp.append(v + 6)
        elif k == "actor":
            a = u.remote(prog.Acc).remote(v)
            refs.append(a.add.remote(r.token(), 2))
            exp.append(v + 2)
            r.keep = a
        elif k == "none":
            refs.append(r.call(prog.nothing, r.token()))
            exp.append(None)
        elif k == "false":
            refs.append(u.put(ctx.pick("falsy", [0, "", [], False, {}])))
            exp.append(None)
            exp[-1] = u.get(refs[-1])
    return refs, exp


SLOT = [["put", "putbig", "pair", "none"], ["task", "array"], ["dep", "actor", "task"]]
LISTS = [[0, 1, 2], [2, 0, 1], [1, 1, 0], [2, 1, 2, 0, 0]]


def mixed(shared, dev, lists=LISTS, slots=SLOT, **kw):
    def h(ctx):
        thr = 1000 if shared else False
        run = Run(ctx, 4, shared=thr, deviations=dev, **kw)
        kinds = [ctx.pick("kind", s) for s in slots]
        idx = ctx.pick("list", lists)
        pre = ctx.pick("already", [None, 0, 1, 2])

        def program(u, r):
            refs, exp = sources(ctx, u, r, kinds)
            if pre is not None:
                got = u.get(refs[pre])
                ctx.check(same(got, exp[pre]), "single get returns another value", f"{kinds[pre]}: {got}")
                ctx.reach("single")
            got = u.get([refs[i] for i in idx])
            ctx.check(isinstance(got, list) and len(got) == len(idx), "get of a list has another length")
            for i, g in zip(idx, got):
                ctx.check(same(g, exp[i]), "get returns another value", f"{kinds} {idx}: {g!r} instead of {exp[i]!r}")
            got = u.get(list(reversed(refs)))
            for g, e in zip(got, reversed(exp)):
                ctx.check(same(g, e), "repeated get returns another value", f"{kinds}: {g!r} instead of {e!r}")
            one = u.get([refs[2]])
            ctx.check(isinstance(one, list) and len(one) == 1 and same(one[0], exp[2]),
                      "get of a one-element list is not a one-element list")
            ctx.check(u.get([]) == [], "get of an empty list is not an empty list")
            ctx.reach("list")

        run.run(program)

    return h


def many(shared, dev, **kw):
    """Outputs of several tasks on different workers, requested in an arbitrary order."""

    def h(ctx):
        run = Run(ctx, 5, shared=1000 if shared else False, deviations=dev, **kw)

        def program(u, r):
            vs = [ctx.int("v", -9, 9) for _ in range(4)]
            refs = [r.call(prog.total, r.token(), v, i) for i, v in enumerate(vs)]
            left, order = list(range(4)), []
            while left:
                i = ctx.pick("next", left)
                left.remove(i)
                order.append(i)
            got = u.get([refs[i] for i in order])
            for i, g in zip(order, got):
                ctx.check(same(g, vs[i] + i), "get returns another value")
            ctx.reach("many")

        run.run(program)

    return h


def nested_get(ctx):
    """A task retrieves values itself, concurrently with the main program."""
    run = Run(ctx, 4, deviations=2)

    def program(u, r):
        v = ctx.int("v", -9, 9)
        a = r.call(prog.nested, r.token(), v)
        b = r.call(prog.total, r.token(), v, 2)
        got = u.get([b, a, b])
        ctx.check(same(got, [v + 2, v + 1, v + 2]), "get returns another value")
        ctx.reach("nested")

    run.run(program)


def volume(ctx):
    """Far more refs than workers, in one request."""
    run = Run(ctx, 5, deviations=0, shared=ctx.pick("shared", [False, 1000]), max_steps=400000)
    step = ctx.pick("order", [1, 7, -1])

    def program(u, r):
        vs = [ctx.int("v", -9, 9) for _ in range(3)]
        refs, exp = [], []
        for i in range(130):
            v = vs[i % 3]
            if i % 4 == 0:
                refs.append(u.put(v + i))
                exp.append(v + i)
            elif i % 4 == 1 and i > 1:
                refs.append(r.call(prog.total, r.token(), refs[i - 3], v))
                exp.append(exp[i - 3] + v)
            else:
                refs.append(r.call(prog.total, r.token(), v, i))
                exp.append(v + i)
        idx = [(i * step) % 130 for i in range(150)]
        for _ in range(2):
            got = u.get([refs[i] for i in idx])
            ctx.check(isinstance(got, list) and len(got) == 150, "get of a list has another length")
            for i, g in zip(idx, got):
                ctx.check(same(g, exp[i]), "get returns another value")
        ctx.reach("volume")

    run.run(program)


def harnesses(tier):
    q = tier == "quick"
    d = 1 if q else 3
    return [
        Harness("mixed", mixed(False, d),
                f"3 refs of every listed kind (put, large put, task, multi-output, array, dependent, actor, None), 4 request "
                f"lists with duplicates, any ref already retrieved; 2 workers; schedules with <= {d} deviations; payload "
                "integers symbolic", ["single", "list"], budget=80, tbudget=3000, stubs=STUBS),
        Harness("mixed-shared", mixed(True, d, LISTS[1:3] if q else LISTS),
                f"the same with the shared object store, schedules with <= {d} deviations", ["single", "list"],
                budget=80, tbudget=3000, stubs=STUBS),
        Harness("many", many(False, 1 if q else 3), "4 tasks on 3 workers, every request order", ["many"], budget=40,
                tbudget=2000, stubs=STUBS),
        Harness("starved", many(False, 0 if q else 1, starve=True), "4 tasks on 3 workers, one process (any) only progresses when nothing else can",
                ["many"], budget=40, tbudget=2000, stubs=STUBS),
        Harness("starved-mixed", mixed(False, 0, LISTS[2:3] if q else LISTS, starve=True), "the mixed requests likewise", ["list"], budget=40, tbudget=2000, stubs=STUBS),
        Harness("volume", volume, "130 refs (put, task, dependent task), requests of 150 with duplicates in 3 orders, 3 workers; default schedule",
                ["volume"], budget=40, tbudget=300, stubs=STUBS),
        Harness("nested", nested_get, "tasks that call get themselves, 2 workers, <= 2 deviations", ["nested"],
                budget=30, tbudget=600, stubs=STUBS),
    ]

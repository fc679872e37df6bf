"""S03: tasks receive the values of their argument refs and their results land in the right refs."""
from .. import prog
from ..prog import Run, same
from ..run import Harness
from .s01 import ASSUMPTIONS, STUBS

OUTSIDE = ["containers other than list, tuple and dict; dict keys that are refs", "refs hidden inside user objects",
           "more tasks/workers than stated"]


def shape(kind, r, x):
    """(argument holding ref(s), what the task has to see)"""
    return {
        "bare": (r[0], x[0]),
        "list": ([r[0], 3, r[1]], [x[0], 3, x[1]]),
        "tuple": ((r[1], r[0], "s"), (x[1], x[0], "s")),
        "dict": ({"a": r[0], 5: r[1]}, {"a": x[0], 5: x[1]}),
        "deep": ([{"k": (r[0], [r[1]])}, []], [{"k": (x[0], [x[1]])}, []]),
        "twice": ([r[0], r[0]], [x[0], x[0]]),
        "plain": ([1, (2, {"z": None})], [1, (2, {"z": None})]),
        # look like containers but are values of their own
        "special": ([prog.Point(1, 2), prog.Tagged([3, 4]), prog.Table(a=5)], [prog.Point(1, 2), prog.Tagged([3, 4]), prog.Table(a=5)]),
        "mix": ((r[0], {"d": [r[1], r[0]]}), (x[0], {"d": [x[1], x[0]]})),
    }[kind]


def source(ctx, u, r, kind):
    import numpy as np

    v = ctx.int("v", -50, 50)
    if kind == "put":
        return u.put(v), v
    if kind == "task":
        return r.call(prog.total, r.token(), v), v
    if kind == "struct":
        return r.call(prog.echo, r.token(), [v, (1, {"q": v})], z=None), [[[v, (1, {"q": v})]], {"z": None}]
    if kind == "array":
        return r.call(prog.array, r.token(), 1500, 3), np.full(1500, 3, dtype="int64")
    if kind == "slow":
        return r.call(prog.slow, r.token(), v), v
    if kind == "none":
        return r.call(prog.nothing, r.token()), None
    if kind == "fan":
        return r.call(prog.fan, r.token(), 3, v, num_returns=3)[2], v + 2
    raise AssertionError(kind)


def arguments(dev, shapes, kinds, shared=False, via="kw", **kw):
    def h(ctx):
        sh = ctx.pick("shape", shapes)
        ks = ctx.pick("kind", kinds)
        place = ctx.pick("place", ["arg", "kw", "kwonly", "both", "actor", "actor arg", "actor kw"])
        run = Run(ctx, 4, deviations=dev, shared=1000 if shared else False, **kw)

        def program(u, r):
            rx = [source(ctx, u, r, k) for k in ks]
            refs, vals = [a for a, _ in rx], [b for _, b in rx]
            for _ in range(ctx.pick("shift", [0, 1])):
                r.call(prog.nothing, r.token())
            a, e = shape(sh, refs, vals)
            t = r.token()
            if place == "arg":
                out, exp = r.call(prog.echo, t, a, 9), [[e, 9], {}]
            elif place == "kw":
                out, exp = r.call(prog.echo, t, key=a, other=refs[1]), [[], {"key": e, "other": vals[1]}]
            elif place == "kwonly":
                out, exp = r.call(prog.echo, token=t, key=a, other=refs[0]), [[], {"key": e, "other": vals[0]}]
            elif place in ("actor arg", "actor kw"):
                # nothing else tells the actor's process about the refs
                r.keep = act = u.remote(prog.Acc).remote(0)
                if place == "actor arg":
                    out, exp = act.echo.remote(t, a), [[e], {}]
                else:
                    out, exp = act.echo.remote(t, key=a), [[], {"key": e}]
            elif place == "actor":
                r.keep = act = u.remote(prog.Acc).remote(0)
                out, exp = act.echo.remote(t, refs[1], a, k2=refs[0], k3=a), [[vals[1], e], {"k2": vals[0], "k3": e}]
            else:
                out, exp = r.call(prog.echo, t, refs[1], a, k2=refs[0]), [[vals[1], e], {"k2": vals[0]}]
            t2 = r.token()
            out2 = r.call(prog.echo, t2, out)
            got = u.get([out, out2])
            ctx.check(same(got[0], exp), "task saw other arguments", f"{sh} {ks} {place}: {got[0]!r} instead of {exp!r}")
            ctx.check(same(got[1], [[exp], {}]), "task saw another value of its argument", f"{got[1]!r}")
            ctx.check(prog.executed(t) == 1 and prog.executed(t2) == 1, "task executed more than once",
                      f"{prog.executed(t)} {prog.executed(t2)}")
            ctx.reach(sh)

        run.run(program)

    return h


def outputs(dev, shared=False):
    """num_returns maps result k to ref k, for consumers on any worker and for the main program."""

    def h(ctx):
        n = ctx.pick("n", [1, 2, 3])
        how = ctx.pick("how", ["options", "decorator"])
        run = Run(ctx, 4, deviations=dev, shared=60 if shared else False)

        def program(u, r):
            v = ctx.int("v", -50, 50)
            t = r.token()
            f = prog.fan if n > 1 else prog.ident
            args = (t, n, v) if n > 1 else (t, v)
            if how == "options":
                outs = r.call(f, *args, num_returns=n)
            else:
                outs = u.remote(num_returns=n)(f).remote(*args)
            if n == 1:
                outs = [outs]
            ctx.check(isinstance(outs, list) and len(outs) == n, "wrong number of refs")
            uses = [r.call(prog.total, r.token(), o, 10 * i) for i, o in enumerate(outs)]
            for i, g in enumerate(u.get(uses)):
                ctx.check(same(g, v + i + 10 * i), "result landed in another ref (seen by a task)")
            order = ctx.pick("order", [1, -1])
            for i, g in list(zip(range(n), u.get(outs[::order])[::order])):
                ctx.check(same(g, v + i), "result landed in another ref")
            z = u.remote(num_returns=0)(prog.nothing).remote(r.token())
            ctx.check(z is None, "num_returns=0 returns a ref")
            w = r.call(prog.total, r.token(), outs[-1], 1)
            ctx.check(same(u.get(w), v + n - 1 + 1), "result landed in another ref (seen by a task)")
            ctx.reach("n%d" % n)

        run.run(program)

    return h


def chain(dev, depth, n=4, shared=False, **kw):
    """Chains of dependent tasks: every task may use any earlier result."""

    def h(ctx):
        run = Run(ctx, n, deviations=dev, shared=1000 if shared else False, **kw)

        def program(u, r):
            v = ctx.int("v", -50, 50)
            refs, vals = [u.put(v)], [v]
            toks = []
            for i in range(depth):
                a = ctx.pick("dep", list(range(len(refs))))
                b = ctx.pick("dep", [a, len(refs) - 1] if a != len(refs) - 1 else [a])
                t = r.token()
                toks.append(t)
                refs.append(r.call(prog.total, t, refs[a], i, k=refs[b]))
                vals.append(vals[a] + i + vals[b])
            got = u.get(refs[1:][::-1])
            for g, e in zip(got, vals[1:][::-1]):
                ctx.check(same(g, e), "wrong result in a chain of tasks")
            for t in toks:
                ctx.check(prog.executed(t) == 1, "task executed more than once")
            ctx.reach("chain")

        run.run(program)

    return h


def reuse(ctx):
    """One remote function / one argument used many times, containers of the caller left alone."""
    run = Run(ctx, 4, deviations=1, shared=ctx.pick("shared", [False, 1000]))

    def program(u, r):
        v = ctx.int("v", -50, 50)
        p = u.put(v)
        lst = [p, [p]]
        outs = [r.call(prog.echo, r.token(), lst, k={"x": p}) for _ in range(4)]
        ctx.check(lst[0] is p and lst[1][0] is p and len(lst) == 2, "caller's container was modified")
        for g in u.get(outs):
            ctx.check(same(g, [[[v, [v]]], {"k": {"x": v}}]), "task saw other arguments")
        ctx.reach("reuse")

    run.run(program)


def names(ctx):
    """Different functions with the same name are different functions."""
    run = Run(ctx, 5, deviations=0, shared=ctx.pick("shared", [False, 60]))

    def program(u, r):
        v = ctx.int("v", -9, 9)
        fs = [(prog.adder(1), v + 1), (prog.adder(2), v + 2), (prog.adder(1, True), v - 1), (lambda x: x, v), (lambda x: [x, 3], [v, 3]),
              (prog.adder([4].pop()), v + 4)]
        kept = ctx.pick("remote functions", ["kept", "made anew", "dropped"])
        if kept == "kept":
            rs = [u.remote(f) for f, _ in fs]
            outs = [x.remote(v) for x in rs] + [x.remote(u.put(v)) for x in reversed(rs)]
        elif kept == "made anew":
            outs = [u.remote(f).remote(v) for f, _ in fs] + [u.remote(f).remote(x=v) for f, _ in reversed(fs)]
        else:
            outs = [None] * len(fs)
            for i, (f, _) in enumerate(fs):
                outs[i] = u.get(u.remote(f).remote(v))
                r.world.clock += 2.0
            outs = [u.put(x) for x in outs] + [u.remote(f).remote(v) for f, _ in reversed(fs)]
        exp = [e for _, e in fs]
        for i, g in enumerate(u.get(outs)):
            ctx.check(same(g, (exp + exp[::-1])[i]), "another function was executed")
        ctx.reach(kept)

    run.run(program)


def volume(ctx):
    """Many arguments, long containers, many outputs."""
    run = Run(ctx, 5, deviations=0, shared=ctx.pick("shared", [False, 1000]), max_steps=400000)

    def program(u, r):
        v = ctx.int("v", -9, 9)
        big = list(r.call(prog.fan, r.token(), 30, v, num_returns=30))
        refs = big + [u.put(v * 2 + i) for i in range(10)] + [r.call(prog.slow, r.token(), v)]
        exp = [v + i for i in range(30)] + [v * 2 + i for i in range(10)] + [v]
        t = r.token()
        how = ctx.pick("how", ["list", "positional", "keyword", "nested"])
        if how == "list":
            got = u.get(r.call(prog.ident, t, refs))
        elif how == "positional":
            got = u.get(r.call(prog.echo, t, *refs))[0]
        elif how == "keyword":
            d = u.get(r.call(prog.echo, t, **{f"k{i}": x for i, x in enumerate(refs)}))[1]
            got = [d[f"k{i}"] for i in range(len(refs))]
        else:
            d = u.get(r.call(prog.ident, t, {"a": [{"b": tuple(refs[:20])}], "c": refs[20:]}))
            got = list(d["a"][0]["b"]) + d["c"]
        ctx.check(same(list(got), exp), "task saw other arguments")
        ctx.reach(how)

    run.run(program)


def harnesses(tier):
    q = tier == "quick"
    full = ["bare", "list", "tuple", "dict", "deep", "twice", "plain", "special", "mix"]
    pairs = [("put", "task"), ("task", "fan"), ("struct", "slow"), ("array", "none")]
    d = 0 if q else 2
    return [
        Harness("arguments", arguments(d, full, pairs),
                f"9 argument shapes x 4 source pairs x positional/keyword/keyword only/both/to an actor (both, positional, keyword) x placement; schedules with <= {d} deviations",
                full, budget=70, tbudget=3000, stubs=STUBS),
        Harness("arguments-schedules", arguments(1 if q else 4, ["deep", "list"], [("task", "fan"), ("slow", "task")]),
                "nested arguments, schedules with <= %d deviations" % (1 if q else 4), ["deep", "list"], budget=50,
                tbudget=3000, stubs=STUBS),
        Harness("arguments-shared", arguments(0 if q else 2, ["tuple", "deep"], [("array", "task"), ("put", "array")], shared=True),
                "with the shared object store", ["tuple", "deep"], budget=40, tbudget=2000, stubs=STUBS),
        Harness("outputs", outputs(1 if q else 3), "1-3 outputs, both ways of asking for them", ["n1", "n2", "n3"], budget=50,
                tbudget=2000, stubs=STUBS),
        Harness("outputs-shared", outputs(0 if q else 2, True), "the same with the shared object store", ["n3"], budget=30,
                tbudget=2000, stubs=STUBS),
        Harness("chain", chain(0 if q else 1, 4), "every dependency pattern of 4 tasks over earlier results", ["chain"],
                budget=50, tbudget=3000, stubs=STUBS),
        Harness("chain-schedules", chain(2 if q else 4, 2, 5), "2 tasks, 3 workers, <= %d deviations" % (2 if q else 4), ["chain"],
                budget=40, tbudget=2000, stubs=STUBS),
        Harness("starved", arguments(0 if q else 1, ["deep", "mix"], [("task", "fan"), ("slow", "task")], starve=True),
                "nested arguments, one process (any) only progresses when nothing else can", ["deep", "mix"], budget=40, tbudget=2000, stubs=STUBS),
        Harness("starved-chain", chain(0, 2 if q else 4, 5, starve=True), "dependency patterns likewise", ["chain"], budget=40, tbudget=2000, stubs=STUBS),
        Harness("names", names, "6 functions of one name, each used twice", ["kept", "made anew", "dropped"], budget=20, tbudget=100, stubs=STUBS),
        Harness("volume", volume, "41 refs as positional or keyword arguments or in containers, 30 outputs; default schedule",
                ["list", "positional", "keyword", "nested"], budget=40, tbudget=300, stubs=STUBS),
        Harness("reuse", reuse, "one function and one ref used by 4 tasks", ["reuse"], budget=20, tbudget=300, stubs=STUBS),
    ]

"""S06: actors - isolated state, ordered calls, one home process."""
from .. import prog
from ..prog import Run, same, outcome
from ..run import Harness
from .s01 import ASSUMPTIONS as _A, STUBS

ASSUMPTIONS = _A + ["actor constructors do not raise and take no refs"]
OUTSIDE = ["order of calls whose arguments involve results of other tasks (they wait for their arguments)",
           "cyclic waiting between actors", "more actors/calls than stated"]


class Ref:
    """Sequential model of one actor."""

    def __init__(self, start):
        self.v, self.hist = start, []


def call(ctx, u, r, kind, a, m, x):
    """Makes one call; returns a list of (ref, expected outcome)."""
    t = r.token()
    if kind == "add":
        m.v = m.v + x
        m.hist.append(t)
        return [(a.add.remote(t, x), ("value", m.v))]
    if kind == "addput":
        m.v = m.v + x + 1
        m.hist.append(t)
        return [(a.add.remote(t, u.put(x), y=u.put(1)), ("value", m.v))]
    if kind == "set":
        m.v = x
        m.hist.append(t)
        return [(a.set.remote(t, x), ("value", x))]
    if kind == "two":
        m.hist.append(t)
        p, q = a.two.options(num_returns=2).remote(t)
        return [(p, ("value", m.v)), (q, ("value", len(m.hist)))]
    if kind == "boom":
        m.hist.append(t)
        return [(a.boom.remote(t, x), ("code", x))]
    if kind == "get":
        return [(a.get.remote(), ("value", m.v))]
    if kind == "none":
        m.v = m.v + x
        m.hist.append(t)
        z = a.add.options(num_returns=0).remote(t, x)
        ctx.check(z is None, "num_returns=0 returns a ref")
        return []
    if kind == "slow":
        return [(a.slow.remote(t, x), ("value", x))]
    raise AssertionError(kind)


def expect(ctx, u, ref, exp, what):
    how, got = outcome(u, ref)
    if exp[0] == "code":
        ctx.check(how == "raised" and isinstance(got, prog.Failure), what, repr(got))
        ctx.check(same(got.code, exp[1]), what)
    else:
        ctx.check(how == "value", what, repr(got) if how != "value" else "")
        ctx.check(same(got, exp[1]), what)


def final(ctx, u, a, m):
    ctx.check(same(u.get(a.get.remote()), m.v), "state of an actor differs from its call history")
    ctx.check(u.get(a.history.remote()) == m.hist, "calls were lost, repeated or reordered",
              f"{u.get(a.history.remote())} instead of {m.hist}")


def histories(dev, steps, kinds, n=5, shared=False, last=None, **kw):
    def h(ctx):
        run = Run(ctx, n, deviations=dev, shared=60 if shared else False, **kw)

        def program(u, r):
            s0, s1 = ctx.int("s", -9, 9), ctx.int("s", -9, 9)
            C = u.remote(prog.Acc)
            acts = [C.remote(s0), C.remote(start=s1)]
            ms = [Ref(s0), Ref(s1)]
            out = []
            for i in range(steps):
                k = ctx.pick("call", kinds if i < 2 or not last else last)
                w = ctx.pick("on", [0, 1]) if i else 0
                out += call(ctx, u, r, k, acts[w], ms[w], ctx.int("x", -9, 9))
                ctx.reach(k)
            order = ctx.pick("order", [1, -1])
            for ref, exp in out[::order]:
                expect(ctx, u, ref, exp, "actor method returned another value")
            for a, m in zip(acts, ms):
                final(ctx, u, a, m)
            homes = [u.get([a.where.remote(), a.where.remote()]) for a in acts]
            ctx.check(all(p == q for p, q in homes), "actor moved")
            ctx.check(homes[0][0] != homes[1][0], "two live actors share a process although others are free")

        run.run(program)

    return h


def handles(dev, forms, **kw):
    """Handles travel to tasks and to other actors."""

    def h(ctx):
        run = Run(ctx, 5, deviations=dev, **kw)

        def program(u, r):
            s = ctx.int("s", -9, 9)
            x, y, z = (ctx.int("x", -9, 9) for _ in range(3))
            C = u.remote(prog.Acc)
            a = C.remote(s)
            t1, t3 = r.token(), r.token()
            r1 = a.add.remote(t1, x)
            form = ctx.pick("form", forms)
            if form == "task":
                r2 = r.call(prog.use_actor, r.token(), a, y)
            elif form == "kw":
                r2 = r.call(prog.use_actor, r.token(), actor=a, x=y)
            elif form == "list":
                r2 = r.call(prog.use_actors, r.token(), [a, a], y)
            elif form == "put":
                r2 = r.call(prog.use_actor, r.token(), u.put(a), y)
            else:
                b = C.remote(0)
                b.keep.remote(a)
                r2 = b.relay.remote(r.token(), y)
            sync = ctx.pick("wait for it", [True, False])
            if sync:
                g = u.get(r2)
                e = s + x + y
                ctx.check(same(g, [e, e + y] if form == "list" else e), "call through a travelled handle gave another value")
            r3 = a.add.remote(t3, z)
            g3 = u.get(r3)
            u.get(r2)
            k = 2 if form == "list" else 1
            tot = s + x + z
            for _ in range(k):
                tot = tot + y
            ctx.check(same(u.get(a.get.remote()), tot), "travelled handle acts on another instance")
            ctx.check(same(u.get(r1), s + x), "actor method returned another value")
            if sync:
                ctx.check(same(g3, tot), "actor method returned another value")
            hist = u.get(a.history.remote())
            ctx.check([t for t in hist if t in (t1, t3)] == [t1, t3] and len(hist) == 2 + k, "calls were lost, repeated or reordered", str(hist))
            if form == "actor":
                ctx.check(same(u.get(b.get.remote()), 0), "actors share state")
            ctx.reach(form)

        run.run(program)

    return h


def release(dev):
    """Dropping a handle frees its worker; unfinished calls still finish and later actors start fresh."""

    def h(ctx):
        run = Run(ctx, 4, deviations=dev)

        def program(u, r):
            C = u.remote(prog.Acc)
            live, pend = [], []
            for i in range(4):
                x = ctx.int("x", -9, 9)
                if len(live) == 2 or (live and ctx.pick("drop", [False, True])):
                    del live[ctx.pick("which", list(range(len(live))))]
                a = C.remote(x)
                m = Ref(x)
                live.append([a, m])
                t = r.token()
                m.v = m.v + 1
                m.hist.append(t)
                pend.append((a.add.remote(t, 1), x + 1))
                del a
            for ref, e in pend:
                ctx.check(same(u.get(ref), e), "actor method returned another value")
            for a, m in live:
                final(ctx, u, a, m)
            ctx.reach("end")

        run.run(program)

    return h


def isolated(ctx):
    """Mutable constructor arguments and class attributes are not shared between actors or with the caller."""
    run = Run(ctx, 5, deviations=1, shared=ctx.pick("shared", [False, 60]))

    def program(u, r):
        x = ctx.int("x", -9, 9)
        box = [x]
        C = u.remote(prog.Box)
        if ctx.pick("made from", ["class", "options"]) == "options":
            C = C.options()
        a, b = C.remote(box), C.remote(items=box)
        ra = a.push.remote(1)
        box.append(99)
        rb = b.push.remote(2)
        ctx.check(same(u.get([ra, rb]), [[x, 1], [x, 2]]), "actors share state with each other or the caller",
                  str(u.get([ra, rb])))
        ctx.check(same(u.get([a.push.remote(3), b.push.remote(4)]), [[x, 1, 3], [x, 2, 4]]), "actors share state")
        ctx.check(same(box, [x, 99]), "actors share state with the caller")
        ctx.reach("end")

    run.run(program)


def names(ctx):
    """Classes with the same name and methods with similar names."""
    run = Run(ctx, 5, deviations=0, shared=ctx.pick("shared", [False, 60]))

    def program(u, r):
        v = ctx.int("v", -9, 9)
        acts = [u.remote(prog.meter(1)).remote(v), u.remote(prog.meter(2)).remote(v)]
        ms = ["update", "updates", "Update", "update_all", "_update", "date"]
        first = ctx.pick("first", ms)
        at = [v, v]
        for m in [first] + ms + [first]:
            for i in (0, 1):
                k = i + 1
                if m == "update":
                    at[i] = at[i] + 3
                exp = {"update": at[i], "updates": at[i] + 6, "Update": at[i] - 3, "update_all": k * 100, "_update": [at[i], k], "date": {"k": k}}[m]
                ctx.check(same(u.get(getattr(acts[i], m).remote(3)), exp), "another method was executed")
        ctx.reach(m)

    run.run(program)


def volume(ctx):
    """Many calls in a row, from the main program and from a task."""
    run = Run(ctx, 5, deviations=0, shared=ctx.pick("shared", [False, 60]), max_steps=400000)

    def program(u, r):
        v = ctx.int("v", -9, 9)
        acts = [u.remote(prog.Acc).remote(v), u.remote(prog.Acc).remote(0)]
        refs, exp, state = [], [], [v, 0]
        for i in range(150):
            k = 0 if i % 3 else 1
            refs.append(acts[k].add.remote(r.token(), i))
            state[k] = state[k] + i
            exp.append(state[k])
        for i in range(149, -1, -7):
            expect(ctx, u, refs[i], ("value", exp[i]), "method call result")
        got = u.get(refs)
        ctx.check(same(got, exp), "method call result")
        ctx.reach("volume")

    run.run(program)


def harnesses(tier):
    q = tier == "quick"
    ks = ["add", "addput", "set", "two", "boom", "get", "none", "slow"]
    return [
        Harness("history", histories(0, 3 if q else 4, ks, last=["add", "two", "boom"] if q else None), ("every history of 3 calls (8 kinds, 8 kinds, 3 kinds) over 2 actors" if q else "every history of 4 calls (8 kinds) over 2 actors") + "; default schedule",
                ks, budget=70, tbudget=3000, stubs=STUBS),
        Harness("history-schedules", histories(1 if q else 3, 2 if q else 3, ["add", "addput"]),
                f"{2 if q else 3} calls over 2 actors, <= {1 if q else 3} deviations", ["add"], budget=50, tbudget=3000, stubs=STUBS),
        Harness("history-shared", histories(0, 2 if q else 3, ["addput", "two", "set"], shared=True), "with the shared object store",
                ["two"], budget=30, tbudget=2000, stubs=STUBS),
        Harness("handles", handles(2 if q else 4, ["task", "kw", "list", "put", "actor"]),
                f"handles passed to tasks (5 forms) while the main program uses the actor; <= {2 if q else 4} deviations",
                ["task", "kw", "list", "put", "actor"], budget=60, tbudget=3000, stubs=STUBS),
        Harness("starved", histories(0, 2 if q else 3, ["add", "addput", "slow", "set"], starve=True),
                "one process (any) only progresses when nothing else can", ["add"], budget=40, tbudget=2000, stubs=STUBS),
        Harness("starved-handles", handles(0 if q else 1, ["task", "kw", "list", "put", "actor"], starve=True), "handles likewise",
                ["task", "kw", "list", "put", "actor"], budget=40, tbudget=2000, stubs=STUBS),
        Harness("release", release(1 if q else 3), "every create/drop pattern of 4 actors on 2 workers", ["end"], budget=40, tbudget=2000, stubs=STUBS),
        Harness("names", names, "6 methods of similar names of 2 classes of one name", ["update", "updates"], budget=20, tbudget=100, stubs=STUBS),
        Harness("volume", volume, "150 calls on two actors; default schedule", ["volume"], budget=40, tbudget=300, stubs=STUBS),
        Harness("isolated", isolated, "mutable constructor arguments", ["end"], budget=20, tbudget=300, stubs=STUBS),
    ]

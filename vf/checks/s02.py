"""S02: wait splits the refs into completed and remaining ones."""
from .. import prog
from ..prog import Run, same, outcome
from ..run import Harness
from .s01 import ASSUMPTIONS as _A, STUBS

ASSUMPTIONS = _A + ["1 <= num_returns <= number of refs, refs pairwise distinct"]
OUTSIDE = ["num_returns outside [1, number of refs], duplicate refs", "wait called by tasks on workers",
           "more refs/workers than stated"]


def make(ctx, u, r, kind):
    """(ref, is_complete predicate, expected outcome)"""
    v = ctx.int("v", -9, 9)
    t = r.token()
    if kind == "put":
        return u.put(v), (lambda: True), ("value", v)
    if kind == "task":
        return r.call(prog.total, t, v), (lambda: prog.finished(t)), ("value", v)
    if kind == "array":
        return r.call(prog.array, t, 2000, 1), (lambda: prog.finished(t)), ("len", 2000)
    if kind == "fail":
        return r.call(prog.fail, t, 7), (lambda: prog.finished(t)), ("code", 7)
    if kind == "slow":
        return r.call(prog.slow, t, v), (lambda: prog.finished(t)), ("value", v)
    if kind == "slowfail":
        return r.call(prog.slow_fail, t, 8), (lambda: prog.finished(t)), ("code", 8)
    if kind == "actor":
        a = u.remote(prog.Acc).remote(v)
        r.keep = a
        return a.slow.remote(t, v), (lambda: prog.finished(t)), ("value", v)
    if kind == "pair":
        return r.call(prog.fan, t, 2, v, num_returns=2)[0], (lambda: prog.finished(t)), ("value", v)
    if kind in ("pairfail", "slowpair"):
        # the last output; several outputs at once
        if kind == "slowpair":
            return r.call(prog.slow_fan, t, 2, v, num_returns=2)[1], (lambda: prog.finished(t)), ("value", v + 1)
        return r.call(prog.fail, t, 6, num_returns=2)[1], (lambda: prog.finished(t)), ("code", 6)
    if kind == "dep":
        x = r.call(prog.slow, r.token(), v)
        return r.call(prog.total, t, x, 1), (lambda: prog.finished(t)), ("value", v + 1)
    raise AssertionError(kind)


def check_outcome(ctx, u, ref, exp, what):
    how, got = outcome(u, ref)
    if exp[0] == "code":
        ctx.check(how == "raised" and getattr(got, "code", None) == exp[1], what, f"{how} {got!r}")
    elif exp[0] == "len":
        ctx.check(how == "value" and len(got) == exp[1], what)
    else:
        ctx.check(how == "value", what, repr(got) if how != "value" else "")
        ctx.check(same(got, exp[1]), what)


def one_wait(ctx, u, refs, done, n):
    ids = [x._ref for x in refs]
    ready, rest = u.wait(list(refs), num_returns=n)
    ctx.check(len(ready) == n, "wrong number of completed refs", f"{len(ready)} instead of {n}")
    got = [x._ref for x in ready] + [x._ref for x in rest]
    ctx.check(len(got) == len(ids) and all(sum(1 for g in got if g == i) == 1 for i in ids),
              "completed and remaining refs are not a partition of the given ones",
              f"{len(ready)} + {len(rest)} of {len(ids)}")
    for x in ready:
        k = [i for i, y in enumerate(ids) if y == x._ref][0]
        ctx.check(bool(done[k]()), "ref reported as completed before its task finished")
    return ready, rest


def basic(dev, slots, n=4, shared=False, **kw):
    def h(ctx):
        run = Run(ctx, n, deviations=dev, shared=1000 if shared else False, **kw)
        kinds = [ctx.pick("kind", s) for s in slots]
        nr = ctx.pick("num", list(range(1, len(slots) + 1)))
        pre = ctx.pick("already", [None, 0, 2] if len(slots) > 2 else [None, 0])

        def program(u, r):
            tri = [make(ctx, u, r, k) for k in kinds]
            refs, done, exp = [t[0] for t in tri], [t[1] for t in tri], [t[2] for t in tri]
            if pre is not None:
                outcome(u, refs[pre])
            ready, rest = one_wait(ctx, u, refs, done, nr)
            ctx.reach("waited")
            if rest:
                # keep waiting for the remaining ones, one by one, through the returned refs
                k = [i for i, x in enumerate(refs) if any(x._ref == y._ref for y in rest)]
                ready2, rest2 = one_wait(ctx, u, rest, [done[[i for i in k if refs[i]._ref == y._ref][0]] for y in rest],
                                         ctx.pick("num2", list(range(1, len(rest) + 1))))
                ctx.reach("again")
                allrefs = ready + ready2 + rest2
            else:
                allrefs = ready
            for y in allrefs:
                i = [i for i, x in enumerate(refs) if x._ref == y._ref][0]
                check_outcome(ctx, u, y, exp[i], "returned ref has another value")

        run.run(program)

    return h


def dropped(ctx):
    """Only the returned refs are kept."""
    run = Run(ctx, 4, deviations=0, shared=ctx.pick("shared", [False, 1000]))
    kinds = [ctx.pick("kind", s) for s in (["task", "put"], ["slow", "array"], ["dep", "fail"])]
    nr = ctx.pick("num", [1, 2, 3])

    def program(u, r):
        tri = [make(ctx, u, r, k) for k in kinds]
        exp = {hash(t[0]._ref): t[2] for t in tri}
        ready, rest = one_wait(ctx, u, [t[0] for t in tri], [t[1] for t in tri], nr)
        del tri
        ctx.reach("dropped")
        if rest and ctx.pick("again", [False, True]):
            more, rest = u.wait(rest, num_returns=1)
            ready += more
        for y in rest + ready:
            check_outcome(ctx, u, y, exp[hash(y._ref)], "returned ref has another value")
        ctx.reach("end")

    run.run(program)


def overlapping(dev):
    """Several waits in a row over overlapping sets, with results consumed in between."""

    def h(ctx):
        run = Run(ctx, 5, deviations=dev)

        def program(u, r):
            kinds = ["slow", "task", ctx.pick("kind", ["fail", "dep"]), "task"]
            tri = [make(ctx, u, r, k) for k in kinds]
            refs, done = [t[0] for t in tri], [t[1] for t in tri]
            for _ in range(3):
                sub = ctx.pick("subset", [[0, 1], [1, 2, 3], [3, 0, 2]])
                one_wait(ctx, u, [refs[i] for i in sub], [done[i] for i in sub],
                         ctx.pick("num", [1, len(sub)]))
            ctx.reach("end")

        run.run(program)

    return h


def single(ctx):
    """A bare ref instead of a list."""
    run = Run(ctx, 4, deviations=1)
    kind = ctx.pick("kind", ["put", "task", "fail", "slow", "pair", "pairfail", "slowpair"])

    def program(u, r):
        ref, done, exp = make(ctx, u, r, kind)
        ready, rest = u.wait(ref)
        ctx.check(len(ready) == 1 and rest == [], "wait for one ref")
        ctx.check(bool(done()), "ref reported as completed before its task finished")
        check_outcome(ctx, u, ready[0], exp, "returned ref has another value")
        ctx.reach("end")

    run.run(program)


def volume(ctx):
    """Far more refs than workers."""
    run = Run(ctx, 5, deviations=0, max_steps=400000)
    first = ctx.pick("num", [1, 77, 119, 120])

    def program(u, r):
        ks = ["task", "put", "slow", "fail", "pair", "task"]
        tri = [make(ctx, u, r, ks[i % 6]) for i in range(120)]
        refs, done, exp = [t[0] for t in tri], [t[1] for t in tri], [t[2] for t in tri]
        left, n = list(refs), first
        while left:
            pos = [[i for i, x in enumerate(refs) if x._ref == y._ref][0] for y in left]
            ready, left = one_wait(ctx, u, left, [done[i] for i in pos], n)
            n = min(41, len(left))
            for y in ready:
                i = [i for i, x in enumerate(refs) if x._ref == y._ref][0]
                check_outcome(ctx, u, y, exp[i], "returned ref has another value")
        ctx.reach("volume")

    run.run(program)


def harnesses(tier):
    q = tier == "quick"
    s1 = [["put", "task", "fail"], ["slow", "pairfail", "slowfail"], ["actor", "dep", "pair", "slowpair", "array"]]
    return [
        Harness("basic", basic(0 if q else 2, s1),
                "3 refs (put/task/failing/coroutine/failing coroutine/actor/dependent/multi-output/array), every "
                "num_returns, some already retrieved, second wait on the rest; 2 workers; "
                + ("default schedule" if q else "<= 2 deviations"),
                ["waited", "again"], budget=70, tbudget=3000, stubs=STUBS),
        Harness("schedules", basic(1 if q else 5, [["task", "fail"], ["slow"], ["dep", "task"]]),
                f"3 refs, every num_returns; <= {1 if q else 5} schedule deviations", ["waited", "again"], budget=70,
                tbudget=3000, stubs=STUBS),
        Harness("shared", basic(0 if q else 2, [["put", "array"], ["task", "array"], ["slow", "fail"]], shared=True),
                "3 refs with the shared object store", ["waited", "again"], budget=40, tbudget=2000, stubs=STUBS),
        Harness("starved", basic(0 if q else 1, [["task", "fail"], ["slow", "actor"], ["dep", "task"]], starve=True),
                "one process (any) only progresses when nothing else can", ["waited", "again"], budget=40, tbudget=2000, stubs=STUBS),
        Harness("hosts", basic(0 if q else 1, [["task", "put"], ["slow", "fail"], ["dep", "task"]], n=6, shared=True,
                               hosts=dict(enumerate("aaabbb"))), "two hosts with the shared object store", ["waited", "again"], budget=40, tbudget=2000, stubs=STUBS),
        Harness("overlapping", overlapping(0 if q else 2),
                "3 waits over overlapping subsets of 4 refs; 3 workers", ["end"], budget=40, tbudget=2000, stubs=STUBS),
        Harness("dropped", dropped, "only the refs wait returned are kept; default schedule", ["dropped", "end"], budget=40, tbudget=600, stubs=STUBS),
        Harness("volume", volume, "120 refs, num_returns 1/77/119/120 and then by 41; default schedule", ["volume"], budget=40, tbudget=300, stubs=STUBS),
        Harness("single", single, "bare ref, <= 1 deviation", ["end"], budget=20, tbudget=100, stubs=STUBS),
    ]

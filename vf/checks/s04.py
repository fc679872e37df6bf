"""S04: failures surface at get, every time, and do not break anything else."""
from .. import prog
from ..prog import Run, same, outcome
from ..run import Harness
from .s01 import ASSUMPTIONS as _A, STUBS

ASSUMPTIONS = _A + ["user code raises subclasses of Exception"]
OUTSIDE = ["failed refs nested inside container arguments", "exceptions put as ordinary values",
           "process crashes (a killed worker)", "more tasks/workers than stated"]

CODED = ("fail", "slowfail", "boom", "slowboom", "fail2")


def failing(ctx, u, r, kind, code):
    """Refs whose retrieval has to raise; `kind` in CODED has to raise Failure(code)."""
    t = r.token()
    if kind == "fail":
        return [r.call(prog.fail, t, code)]
    if kind == "fail2":
        return r.call(prog.fail, t, code, num_returns=2)
    if kind == "slowfail":
        return [r.call(prog.slow_fail, t, code)]
    if kind in ("boom", "slowboom"):
        r.keep = a = u.remote(prog.Acc).remote(0)
        return [(a.boom if kind == "boom" else a.slow_boom).remote(t, code)]
    if kind == "unpicklable":
        return [r.call(prog.fail_unpicklable, t)]
    if kind == "norebuild":
        return [r.call(prog.fail_norebuild, t)]
    if kind == "badoutput":
        return [r.call(prog.bad_output, t)]
    if kind == "short":
        return r.call(prog.fan, t, 1, 5, num_returns=2)
    if kind == "noniter":
        return r.call(prog.ident, t, 5, num_returns=2)
    if kind == "badslow":
        return [r.call(prog.slow_bad, t)]
    if kind == "shortslow":
        return r.call(prog.slow_fan, t, 1, 5, num_returns=2)
    raise AssertionError(kind)


def raises(ctx, u, ref, kind, code, what):
    how, e = outcome(u, ref)
    ctx.check(how == "raised", what, f"{kind}: got value {e!r}")
    if kind in CODED:
        ctx.check(isinstance(e, prog.Failure), what, f"{kind}: raised {e!r}")
        ctx.check(same(e.code, code), what, f"{kind}: another payload")


def depend(ctx, u, r, kind, ref, x):
    """(ref, token) of a task with failed argument `ref`."""
    t = r.token()
    if kind == "arg":
        return r.call(prog.total, t, 1, ref), t
    if kind == "kw":
        return r.call(prog.total, t, 1, k=ref), t
    if kind == "slow":
        return r.call(prog.slow, t, ref), t
    if kind == "slowkw":
        return r.call(prog.slow, t, x=ref), t
    if kind == "multi":
        return r.call(prog.fan, t, 2, ref, num_returns=2)[1], t
    if kind == "actor":
        r.keep2 = a = u.remote(prog.Acc).remote(x)
        return a.add.remote(t, ref), t
    if kind == "actorkw":
        r.keep2 = a = u.remote(prog.Acc).remote(x)
        return a.add.remote(t, x, y=ref), t
    if kind == "late":
        good = r.call(prog.slow, r.token(), x)
        return r.call(prog.total, t, good, ref), t
    raise AssertionError(kind)


def propagate(dev, kinds, deps, n=4, shared=False, **kw):
    def h(ctx):
        kind = ctx.pick("kind", kinds)
        dk = ctx.pick("dependent", deps)
        run = Run(ctx, n, deviations=dev, shared=60 if shared else False, **kw)

        def program(u, r):
            code, x = ctx.int("code", -50, 50), ctx.int("x", -50, 50)
            ok1 = r.call(prog.total, r.token(), x, 1)
            bad = failing(ctx, u, r, kind, code)
            b = bad[-1]
            early = ctx.pick("retrieved before use", [False, True])
            if early:
                raises(ctx, u, b, kind, code, "failure not raised by get")
            d1, t1 = depend(ctx, u, r, dk, b, x)
            d2, t2 = depend(ctx, u, r, ctx.pick("second", ["arg", "kw"]), d1, x)
            ok2 = r.call(prog.total, r.token(), ok1, x)
            ctx.check(same(u.get(ok2), 2 * x + 1), "other tasks are affected by a failure")
            for _ in range(2):
                for ref in bad:
                    raises(ctx, u, ref, kind, code, "failure not raised by get")
                raises(ctx, u, d2, kind, code, "failure of an argument not raised by get")
                raises(ctx, u, d1, kind, code, "failure of an argument not raised by get")
                raises(ctx, u, [ok1, b, ok2], kind, code, "failure not raised by get of a list")
                raises(ctx, u, [b, ok1], kind, code, "failure not raised by get of a list")
            ctx.check(prog.executed(t1) == 0 and prog.executed(t2) == 0, "task executed although its argument failed")
            if kind in ("boom", "slowboom"):
                ctx.check(same(u.get(r.keep.add.remote(r.token(), x)), x), "actor unusable after a failed method")
            if dk in ("actor", "actorkw"):
                ctx.check(same(u.get(r.keep2.add.remote(r.token(), 1)), x + 1), "actor changed by a method whose argument failed")
            for w in range(n - 2):
                ctx.check(same(u.get(r.call(prog.total, r.token(), x, w)), x + w), "worker unusable after a failure")
            ctx.reach(kind)
            ctx.reach(dk)

        run.run(program)

    return h


def together(dev, n=5, **kw):
    """Several failures in one request, and what is retrieved afterwards."""

    def h(ctx):
        run = Run(ctx, n, deviations=dev, **kw)

        def program(u, r):
            x = ctx.int("x", -50, 50)
            refs, exp = [], []
            for i in range(3):
                k = ctx.pick("kind", ["ok", "fail", "slowfail"] if i else ["ok", "fail"])
                if k == "ok":
                    refs.append(r.call(prog.total, r.token(), x, i))
                    exp.append(("ok", x + i))
                else:
                    refs.append(r.call(prog.fail if k == "fail" else prog.slow_fail, r.token(), i + 7))
                    exp.append(("raised", i + 7))
            codes = [e[1] for e in exp if e[0] == "raised"]
            for rnd in range(2):
                how, g = outcome(u, list(refs))
                if codes:
                    ctx.check(how == "raised" and isinstance(g, prog.Failure) and g.code in codes, "failure not raised by get of a list", repr(g))
                else:
                    ctx.check(how == "value" and same(g, [e[1] for e in exp]), "get returns another value")
                late = r.call(prog.total, r.token(), x, 30)
                for i in ctx.pick("order", [[3, 2, 1, 0], [0, 1, 2, 3]]):
                    ref, (what, v) = (refs + [late])[i], (exp + [("ok", x + 30)])[i]
                    how, g = outcome(u, ref)
                    if what == "ok":
                        ctx.check(how == "value" and same(g, v), "a failure shows up in another request", repr(g))
                    else:
                        ctx.check(how == "raised" and isinstance(g, prog.Failure) and g.code == v, "failure not raised by get", repr(g))
            ctx.reach("end")

        run.run(program)

    return h


def nowhere(dev):
    """Failures nobody asks for (outputs ignored or not requested) harm nobody."""

    def h(ctx):
        run = Run(ctx, 4, deviations=dev, shared=ctx.pick("shared", [False, 60]))

        def program(u, r):
            x = ctx.int("x", -50, 50)
            for _ in range(2):
                how = ctx.pick("ignored", ["num0", "dropped", "actor", "slow0"])
                if how == "num0":
                    r.call(prog.fail, r.token(), 1, num_returns=0)
                elif how == "slow0":
                    r.call(prog.slow_fail, r.token(), 1, num_returns=0)
                elif how == "dropped":
                    r.call(prog.fail_unpicklable, r.token())
                else:
                    u.remote(prog.Acc).remote(0).boom.remote(r.token(), 1)
            refs = [r.call(prog.total, r.token(), x, i) for i in range(4)]
            ctx.check(same(u.get(refs), [x, x + 1, x + 2, x + 3]), "other tasks are affected by a failure")
            ctx.reach("end")

        run.run(program)

    return h


def volume(ctx):
    """Many failures at once, and one failure through a long chain."""
    run = Run(ctx, 5, deviations=0, shared=ctx.pick("shared", [False, 60]), max_steps=400000)
    kind = ctx.pick("kind", ["fail", "slowfail", "boom"])

    def program(u, r):
        code = ctx.int("code", 1, 99)
        bad = failing(ctx, u, r, kind, code)[0]
        toks, chain = [], [bad]
        for i in range(40):
            t = r.token()
            toks.append(t)
            chain.append(r.call(prog.total, t, 1, chain[-1]) if i % 3 else r.call(prog.total, t, 1, k=chain[-1]))
        single = [r.call(prog.fail, r.token(), 200 + i) for i in range(40)]
        good = [r.call(prog.total, r.token(), i, code) for i in range(40)]
        for i in (40, 1, 39, 20):
            raises(ctx, u, chain[i], kind, code, "failure of an argument is not reported")
        for i in range(40):
            how, e = outcome(u, [good[i], single[i]] if i % 5 == 0 else single[i])
            ctx.check(how == "raised" and getattr(e, "code", None) == 200 + i, "another failure is reported", f"{how} {e!r}")
        ctx.check(same(u.get(good), [i + code for i in range(40)]), "value of an unaffected task")
        ctx.check(not any(prog.executed(t) for t in toks), "task with a failed argument was executed")
        ctx.reach(kind)

    run.run(program)


def harnesses(tier):
    q = tier == "quick"
    kinds = ["fail", "fail2", "slowfail", "boom", "slowboom", "unpicklable", "norebuild", "badoutput", "short",
             "noniter", "badslow", "shortslow"]
    deps = ["arg", "kw", "slow", "slowkw", "multi", "actor", "actorkw", "late"]
    d = 1 if q else 3
    return [
        Harness("propagate", propagate(0 if q else 1, kinds, deps, 5),
                "12 kinds of failure x 8 kinds of dependents x second-level dependents, retrieved before/after; "
                + ("default schedule" if q else "<= 1 deviation"), kinds + deps, budget=60, tbudget=3000, stubs=STUBS),
        Harness("schedules", propagate(d, ["fail", "slowfail"], ["arg", "late"]),
                f"schedules with <= {d} deviations", ["fail", "slowfail"], budget=50, tbudget=3000, stubs=STUBS),
        Harness("shared", propagate(0 if q else 2, ["fail", "badoutput", "slowfail", "short"], ["arg", "multi", "slow"], shared=True),
                "with the shared object store", ["fail", "badoutput"], budget=40, tbudget=2000, stubs=STUBS),
        Harness("starved", propagate(0 if q else 1, ["fail", "slowfail", "boom"], ["arg", "late", "actor"], 5, starve=True),
                "one process (any) only progresses when nothing else can", ["fail", "slowfail"], budget=40, tbudget=2000, stubs=STUBS),
        Harness("together", together(0 if q else 1), "3 tasks, any of them failing, retrieved together, then one by one with a later task, twice",
                ["end"], budget=40, tbudget=2000, stubs=STUBS),
        Harness("together-starved", together(0 if q else 1, starve=True), "the same, one process (any) only progresses when nothing else can",
                ["end"], budget=40, tbudget=2000, stubs=STUBS),
        Harness("volume", volume, "a chain of 40 tasks behind a failure, 40 failing tasks and 40 others; default schedule", ["fail", "slowfail", "boom"],
                budget=40, tbudget=300, stubs=STUBS),
        Harness("nowhere", nowhere(1 if q else 3), "failures whose outputs nobody holds", ["end"], budget=40, tbudget=2000, stubs=STUBS),
    ]

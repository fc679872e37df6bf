"""P02: the multiprocessing backend computes what plain Python would, on any schedule."""
from .. import prog, pyprog
from ..prog import same
from ..pyprog import Machine
from ..run import Harness
from ..simmp import MpRun

ASSUMPTIONS = [
    "stand-in multiprocessing: processes run one at a time and may be interrupted at every queue and manager operation; "
    "queues and the manager deliver in order and do not fail (see vf/simmp.py)",
    "user functions terminate without ending their process",
    "arguments and results of actor methods can be transferred by pickle (the backend uses a multiprocessing proxy)",
]
OUTSIDE = ["longer programs and more workers than stated", "real process start-up, signals, killed workers",
           "tasks that submit tasks (not supported by this backend)"]
STUBS = ["multiprocessing -> vf/simmp.py"]


def drain(u, r, workers):
    """Everything queued so far has been executed (queues are served in order)."""
    return lambda: u.get([r.call(prog.nothing, r.token()) for _ in range(workers)])


def programs(ops, steps, workers, dev):
    def h(ctx):
        run = MpRun(ctx, workers, deviations=dev)

        def program(u, r):
            Machine(ctx, u, r, drain(u, r, workers)).run(ops, steps)
            ctx.reach("end")

        run.run(program)

    return h


def waits(workers, dev):
    """wait while tasks are running: what it reports is complete, the rest is returned too."""

    def h(ctx):
        run = MpRun(ctx, workers, deviations=dev)

        def program(u, r):
            m = Machine(ctx, u, r)
            v = m.val()
            m._add(u.put(v), ("value", v))
            for _ in range(2):
                ref, _ = m._call(prog.total, v, 1)
                m._add(ref, ("value", v + 1))
            ref, _ = m._call(pyprog.cond, v, 60)
            m._add(ref, ("value", v - 1))
            m.op_wait()
            n = ctx.pick("wanted", [1, 4, 5, 9])
            if n > len(m.refs):
                ready, rest = u.wait([x for x, _ in m.refs], num_returns=n)
                ctx.check(len(ready) == len(m.refs) and not rest, "wait for more refs than given does not return all")
            else:
                ready, rest = u.wait([x for x, _ in m.refs], num_returns=n)
                ctx.check(len(ready) == n and len(rest) == len(m.refs) - n, "wait returns another number of refs")
            m.finish()
            ctx.reach("end")

        run.run(program)

    return h


def completed(workers, dev):
    """A ref reported as complete stays complete and keeps its value, whoever asks."""

    def h(ctx):
        run = MpRun(ctx, workers, deviations=dev)

        def program(u, r):
            v = ctx.int("v", -9, 9)
            a, b = r.call(prog.fan, r.token(), 2, v, num_returns=2)
            c = r.call(prog.total, r.token(), a, b)
            ready, rest = u.wait([c], num_returns=1)
            ctx.check(len(ready) == 1 and not rest, "wait does not return the only ref")
            ctx.check(same(u.get([b, a, c]), [v + 1, v, v + v + 1]), "get returns another value")
            d = r.call(prog.total, r.token(), c, a)
            ctx.check(same(u.get(d), v + v + 1 + v), "get returns another value")
            ctx.check(same(u.get([b, a, c]), [v + 1, v, v + v + 1]), "repeated get returns another value")
            ctx.reach("end")

        run.run(program)

    return h


def exotic(workers, dev):
    """Values and exceptions that only exist in the program, and objects that cannot be rebuilt."""

    def h(ctx):
        run = MpRun(ctx, workers, deviations=dev)

        def program(u, r):
            v = ctx.int("v", -9, 9)
            kind = ctx.pick("kind", ["closure", "put", "error", "norebuild", "unpicklable", "argument", "output", "two"])
            nxt = r.call(prog.total, r.token(), v, 1)
            out = None
            if kind == "closure":
                ref = r.call(pyprog.closure, r.token(), v)
                out = prog.outcome(u, r.call(pyprog.apply, r.token(), ref, 2))
                ctx.check(out[0] == "value" and same(out[1], v + 2), "get returns another value", repr(out))
                ctx.check(same(u.get(ref)[0](5), v + 5), "get returns another value")
            elif kind == "put":
                ref = u.put({"f": lambda y: v + y})
                ctx.check(same(u.get(ref)["f"](4), v + 4), "get returns another value")
            elif kind == "error":
                out = prog.outcome(u, r.call(pyprog.local_error, r.token(), v))
                ctx.check(out[0] == "raised" and type(out[1]).__name__ == "Local" and same(out[1].args[0], v),
                          "another exception is raised", repr(out))
            else:
                if kind == "norebuild":
                    ref = r.call(prog.fail_norebuild, r.token())
                elif kind == "unpicklable":
                    ref = r.call(prog.fail_unpicklable, r.token())
                elif kind == "argument":
                    ref = r.call(prog.ident, r.token(), prog.NoReduce("a", "b"))
                elif kind == "output":
                    ref = r.call(prog.bad_output, r.token())
                else:
                    ref = r.call(pyprog.half_bad, r.token(), num_returns=2)[1]
                ready, _ = u.wait([ref], num_returns=1)
                ctx.check(len(ready) == 1, "wait returns another number of refs")
                out = prog.outcome(u, ref)
                ctx.check(out[0] == "raised", "a failure is lost", repr(out))
                dep = prog.outcome(u, r.call(prog.ident, r.token(), ref))
                ctx.check(dep[0] == "raised", "a failure is not passed on", repr(dep))
            # the workers still work
            more = [r.call(prog.total, r.token(), nxt, i) for i in range(2 * workers)]
            for i, x in enumerate(more):
                ctx.check(same(u.get(x), v + 1 + i), "get returns another value")
            ctx.reach(kind)

        run.run(program)

    return h


def actors(workers, dev, steps):
    """Actors created, used and dropped, with ordinary tasks beside them."""

    def h(ctx):
        run = MpRun(ctx, workers, deviations=dev)

        def program(u, r):
            A = u.remote(prog.Acc)
            v = ctx.int("v", -9, 9)
            live, refs, bad = {}, [], []
            n = 0
            for i in range(steps):
                op = "new" if dev and not i else ctx.pick("op", ["new", "call", "boom", "drop", "task"])
                if op == "new":
                    if len(live) == workers:
                        try:
                            A.remote(v)
                        except RuntimeError:
                            ctx.reach("full")
                        else:
                            ctx.fail("an actor is created although every worker is taken")
                    else:
                        n += 1
                        live[n] = [A.remote(v + n), v + n]
                elif op == "call" and live:
                    k = ctx.pick("actor", list(live))
                    live[k][1] = live[k][1] + k
                    refs.append((live[k][0].add.remote(r.token(), k), live[k][1]))
                elif op == "boom" and live:
                    k = ctx.pick("actor", list(live))
                    bad.append((live[k][0].boom.remote(r.token(), v + k), v + k))
                elif op == "drop" and live:
                    live.pop(ctx.pick("actor", list(live)))
                    ctx.reach("drop")
                elif op == "task":
                    if len(live) == workers:
                        try:
                            r.call(prog.total, r.token(), v)
                        except RuntimeError:
                            pass
                        else:
                            ctx.fail("a task is accepted although every worker is taken")
                    else:
                        refs.append((r.call(prog.total, r.token(), v, len(refs)), v + len(refs)))
            for x, e in refs:
                ctx.check(same(u.get(x), e), "get returns another value")
            for x, e in bad:
                out = prog.outcome(u, x)
                ctx.check(out[0] == "raised" and type(out[1]).__name__ == "Failure" and same(out[1].args[0], e),
                          "another exception is raised", repr(out))
                ctx.reach("failed")
            for h_, e in live.values():
                ctx.check(same(u.get(h_.get.remote()), e), "actor state differs")
            ctx.reach("end")

        run.run(program)

    return h


def placement(workers, dev):
    """Methods of one actor never overlap with each other or with tasks of its worker, and run in call order."""

    def h(ctx):
        run = MpRun(ctx, workers, deviations=dev)

        def program(u, r):
            A = u.remote(prog.Acc)
            k = ctx.pick("tasks before", [0, 1])
            early = [r.call(prog.where, r.token()) for _ in range(k)]
            a = A.remote(0)
            toks = [r.token() for _ in range(3)]
            refs = []
            for i, t in enumerate(toks):
                refs.append(a.add.remote(t, 1))
                if i < 2 and ctx.pick("task between", [False, True]):
                    early.append(r.call(prog.where, r.token()))
            homes = a.where.remote()
            for i, x in enumerate(refs):
                ctx.check(same(u.get(x), i + 1), "actor methods do not run in call order")
            ctx.check(u.get(a.history.remote()) == toks, "actor methods do not run in call order")
            home = u.get(homes)
            spots = [u.get(x) for x in early[k:]]
            ctx.check(home not in spots, "a task runs on the worker an actor holds", f"{home} {spots}")
            ctx.check(u.get(a.where.remote()) == home, "an actor moves to another worker")
            ctx.reach("end")

        run.run(program)

    return h


def harnesses(tier):
    q = tier == "quick"
    d = 1 if q else 3
    SMALL = ("total", "cond", "outputs", "none", "container", "wait", "get")
    return [
        Harness("programs", programs([("put", "cond"), SMALL, SMALL], 3, 2, 0),
                "every program of 3 operations on 2 workers, default schedule, symbolic payloads and failure limits",
                ["end"], budget=60, tbudget=1500, stubs=STUBS),
        Harness("schedules", programs([("cond", "total")] + [("total", "cond")] * (1 if q else 2), 2 if q else 3, 2, d),
                f"programs of {2 if q else 3} tasks, <= {d} interruptions at any queue/manager operation", ["end"],
                budget=60, tbudget=3000, stubs=STUBS),
        Harness("waits", waits(2, d), f"wait for every number of 4 refs, <= {d} interruptions", ["end"], budget=40, tbudget=2000,
                stubs=STUBS),
        Harness("completed", completed(2 if q else 3, d), f"dependent tasks, <= {d} interruptions", ["end"], budget=40,
                tbudget=2000, stubs=STUBS),
        Harness("exotic", exotic(2, 0 if q else 1), "local classes, closures, unpicklable and unbuildable values and exceptions",
                ["closure", "put", "error", "norebuild", "unpicklable", "argument", "output", "two"], budget=40, tbudget=1000,
                stubs=STUBS),
        Harness("actors", actors(2, 0, 4 if q else 5), "every history of create/call/fail/drop/task over 2 workers", ["end", "drop", "full", "failed"],
                budget=60, tbudget=2000, stubs=STUBS),
        Harness("actors-schedules", actors(2, d, 3 if q else 4), f"the same, shorter, <= {d} interruptions", ["end"], budget=60,
                tbudget=3000, stubs=STUBS),
        Harness("volume", lambda ctx: MpRun(ctx, 3, deviations=0).run(lambda u, r: pyprog.volume(ctx, u, r, 60)),
                "60 values and tasks, 20 calls of an actor, 20 failures, 30 outputs; 3 workers", ["volume"], budget=30, tbudget=100, stubs=STUBS),
        Harness("placement", placement(2, d), f"method order and exclusivity, <= {d} interruptions", ["end"], budget=60, tbudget=2000,
                stubs=STUBS),
    ]

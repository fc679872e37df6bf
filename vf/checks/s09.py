"""S09: tasks and actors are placed only on eligible workers, in rotation."""
from .. import prog
from ..prog import Run
from ..run import Harness
from .s01 import ASSUMPTIONS, STUBS

OUTSIDE = ["more processes/hosts/steps than stated", "load-dependent placement (there is none)",
           "reservations made through handles inside other processes"]


def layout(ctx, n, hosts, shared):
    """The workers of this layout, from the documented rule: the main program, and one monitor (with the shared
    object store: one per host, the second process of it) do not execute tasks."""
    hs = hosts or {r: "h" for r in range(n)}
    if not shared:
        return [r for r in range(n) if r not in (0, 1)]
    mon = set()
    for h in dict.fromkeys(hs.values()):
        rs = sorted(r for r in hs if hs[r] == h)
        mon.add(rs[1] if len(rs) > 1 else rs[0])
    return [r for r in range(n) if r != 0 and r not in mon]


def history(steps, ns, hosts=None, shared=False, dev=0, copy=False):
    def h(ctx):
        n = ctx.pick("n", ns)
        run = Run(ctx, n, deviations=dev, hosts=hosts, shared=1000 if shared else False)
        workers = layout(ctx, n, hosts, shared)

        def program(u, r):
            f = u.remote(prog.where)
            C = u.remote(prog.Acc)
            live = []  # (handle, home)
            copies = []  # further handles of the actor
            streak = []
            for _ in range(steps):
                ops = ["task", "actor"] + (["drop"] if live and not copies else [])
                if copy:
                    ops += ["uncopy"] if copies else ["copy"] if len(live) == 1 else []
                op = ctx.pick("op", ops)
                home = [x[1] for x in live]
                free = [w for w in workers if w not in home]
                if op == "copy":
                    if not free:
                        continue
                    # a second handle of the same actor
                    copies.append(u.get(r.call(prog.ident, r.token(), live[0][0])))
                    streak = []
                    continue
                if op == "uncopy":
                    copies.clear()
                    streak = []
                    ctx.reach("uncopy")
                    continue
                if op == "drop":
                    del live[ctx.pick("which", list(range(len(live))))]
                    streak = []
                    ctx.reach("drop")
                    continue
                try:
                    if op == "task":
                        at = u.get(f.remote(r.token()))
                    else:
                        a = C.remote(0)
                        at = u.get(a.where.remote())
                        live.append((a, at))
                        del a
                except Exception as e:  # noqa: BLE001
                    ctx.check(not free, "submission refused although a worker is free", repr(e))
                    ctx.reach("refused")
                    continue
                ctx.check(bool(free), "task accepted although every worker is reserved", f"ran on {at}")
                ctx.check(at in workers, "user code runs on a process that is no worker", f"rank {at} of {workers}")
                ctx.check(at not in home, "placed on a worker reserved by a live actor", f"rank {at}")
                if op == "task":
                    streak.append(at)
                    k = len(free)
                    tail = streak[-k:]
                    if len(tail) == k:
                        ctx.check(sorted(tail) == sorted(free), "consecutive tasks are not spread over the eligible workers",
                                  f"{streak} over {free}")
                        ctx.reach("rotation")
                else:
                    streak = []

        run.run(program)

    return h


def rotation(ns):
    """Many consecutive tasks, submitted at once."""

    def h(ctx):
        n = ctx.pick("n", ns)
        k = ctx.pick("actors", [0, 1])
        run = Run(ctx, n, deviations=0)

        def program(u, r):
            acts = [u.remote(prog.Acc).remote(0) for _ in range(k)]
            homes = [u.get(a.where.remote()) for a in acts]
            free = [w for w in range(2, n) if w not in homes]
            if not free:
                return
            u.get([r.call(prog.total, r.token(), i) for i in range(ctx.pick("shift", [0, 1, 2]))])
            got = u.get([r.call(prog.where, r.token()) for _ in range(2 * len(free) + 1)])
            for i in range(len(got) - len(free) + 1):
                ctx.check(sorted(got[i:i + len(free)]) == sorted(free), "consecutive tasks are not spread over the eligible workers",
                          f"{got} over {free}")
            for v in free:
                ctx.check(got.count(v) in (2, 3), "unbalanced placement", f"{got}")
            ctx.reach("rotation")

        run.run(program)

    return h


def nested(ctx):
    n = ctx.pick("n", [4, 5])
    run = Run(ctx, n, deviations=1)

    def program(u, r):
        for _ in range(ctx.pick("before", [0, 1])):
            r.call(prog.total, r.token(), 1)
        own, at = u.get(r.call(prog.nested_where, r.token(), 3))
        for w in at:
            ctx.check(w in range(2, n) and w != own, "task submitted to the submitting worker or to a non-worker", f"{own} -> {at}")
        ctx.check(sorted(set(at)) == [w for w in range(2, n) if w != own], "consecutive tasks are not spread over the eligible workers", f"{own}: {at}")
        ctx.reach("nested")

    run.run(program)


def harnesses(tier):
    q = tier == "quick"
    two = {0: "10.0.0.1", 1: "10.0.0.1", 2: "10.0.0.1", 3: "10.0.0.2", 4: "10.0.0.2", 5: "10.0.0.2"}
    inter = {0: "10.0.0.1", 1: "10.0.0.2", 2: "10.0.0.1", 3: "10.0.0.2", 4: "10.0.0.1", 5: "10.0.0.2"}
    k = 6 if q else 8
    return [
        Harness("history", history(k, [3, 4, 5]), f"every history of {k} submissions, actor creations and releases; 1-3 workers",
                ["drop", "refused", "rotation"], budget=60, tbudget=2500, stubs=STUBS),
        Harness("handles", history(k, [4], copy=True), f"every history of {k} operations, also with a further handle of an actor made and dropped; 2 workers",
                ["drop", "uncopy", "rotation"], budget=60, tbudget=2500, stubs=STUBS),
        Harness("rotation", rotation([3, 4, 5, 6, 8]), "two rounds of consecutive tasks over 1-6 workers, 0-1 actors", ["rotation"],
                budget=30, tbudget=300, stubs=STUBS),
        Harness("nested", nested, "tasks submitted by tasks, <= 1 deviation", ["nested"], budget=30, tbudget=300, stubs=STUBS),
        Harness("hosts", history(4, [6], two, True), "two hosts with one monitor each", ["rotation"], budget=40, tbudget=600, stubs=STUBS),
        Harness("hosts-interleaved", history(4, [6], inter, True), "processes placed alternately on two hosts", ["rotation"], budget=40, tbudget=600, stubs=STUBS),
        Harness("hosts-plain", history(4, [6], two, False), "two hosts without the shared object store", ["rotation"], budget=40, tbudget=600, stubs=STUBS),
    ]

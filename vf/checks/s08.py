"""S08: shutdown terminates every process from any state."""
from .. import prog
from ..prog import Run, same
from ..run import Harness
from .s01 import ASSUMPTIONS as _A, STUBS

ASSUMPTIONS = _A + ["user code that is running when shutdown is requested ends by itself or is a suspended coroutine"]
OUTSIDE = ["signals interrupting the main program inside a runtime call", "crashed processes", "more processes than stated"]


def step(ctx, u, r, op, keep):
    if op == "put":
        keep.append(u.put([1, 2]))
    elif op == "big":
        import numpy as np

        keep.append(u.put(np.zeros(3000)))
    elif op == "task":
        keep.append(r.call(prog.total, r.token(), 1))
    elif op == "array":
        keep.append(r.call(prog.array, r.token(), 2000, 1))
    elif op == "slow":
        keep.append(r.call(prog.slow, r.token(), 1))
    elif op == "slowbig":
        keep.append(r.call(prog.slow_array, r.token(), 2000, 1))
    elif op == "usebig":
        keep.append(r.call(prog.asum, r.token(), r.call(prog.slow_array, r.token(), 2000, 1), 1))
    elif op == "slowfail":
        keep.append(r.call(prog.slow_fail, r.token(), 1))
    elif op == "pend":
        # waits on a worker for a coroutine's result
        keep.append(r.call(prog.total, r.token(), r.call(prog.slow, r.token(), 1), 2))
    elif op == "chain":
        x = r.call(prog.total, r.token(), 1)
        keep.append(r.call(prog.total, r.token(), x, r.call(prog.total, r.token(), x)))
    elif op == "fail":
        keep.append(r.call(prog.fail, r.token(), 1))
    elif op == "nout":
        r.call(prog.nothing, r.token(), num_returns=0)
    elif op == "drop":
        r.call(prog.array, r.token(), 2000, 1)
    elif op == "actor":
        a = u.remote(prog.Acc).remote(0)
        keep.append(a)
        a.add.remote(r.token(), 1)
    elif op == "slowactor":
        a = u.remote(prog.Acc).remote(0)
        keep.append(a)
        a.slow.remote(r.token(), r.call(prog.slow, r.token(), 1))
    elif op == "nest":
        # a task that waits for a task of its own
        keep.append(r.call(prog.nested, r.token(), 1))
    elif op == "get":
        u.get(r.call(prog.total, r.token(), 1))
    elif op == "wait":
        u.wait([r.call(prog.total, r.token(), 1), r.call(prog.slow, r.token(), 1)], num_returns=1)
    elif op == "use":
        keep.append(r.call(prog.asum, r.token(), r.call(prog.array, r.token(), 2000, 1), 1))
    else:
        raise AssertionError(op)


def ends(dev, ops, k, n=5, hosts=None, shared=False, **kw):
    def h(ctx):
        run = Run(ctx, n, deviations=dev, hosts=hosts, shared=1000 if shared else False, **kw)

        def program(u, r):
            keep = []
            for _ in range(k):
                op = ctx.pick("op", ops)
                step(ctx, u, r, op, keep)
                ctx.reach(op)
            how = ctx.pick("end", ["shutdown", "twice", "exit"])
            if how == "exit":
                # the program ends without an explicit shutdown: handlers registered for that run
                hs = [x for x in r.world.atexit if x[0] == 0]
                ctx.check(bool(hs), "nothing shuts the processes down when the program ends")
                for _, f, a, kw in reversed(hs):
                    f(*a, **kw)
            else:
                u.shutdown()
                if how == "twice":
                    u.shutdown()
                for _, f, a, kw in reversed([x for x in r.world.atexit if x[0] == 0]):
                    f(*a, **kw)
            ctx.reach(how)

        run.run(program, shutdown=False, health=False)
        w = run.world
        run.health()
        left = [rk.r for rk in w.ranks if rk.state != "done"]
        ctx.check(not left, "processes left running", f"{left}: {w.deadlock}")
        ctx.check(not w.unfinished, "process ends before its messages are delivered", str(w.unfinished))
        ctx.check(w.finalized == set(range(n)), "transport not finalized everywhere", str(sorted(w.finalized)))

    return h


def harnesses(tier):
    q = tier == "quick"
    ops = ["put", "task", "array", "slow", "slowfail", "pend", "chain", "fail", "nout", "drop", "actor", "slowactor", "get", "wait", "use"]
    two = {0: "10.0.0.1", 1: "10.0.0.1", 2: "10.0.0.1", 3: "10.0.0.2", 4: "10.0.0.2", 5: "10.0.0.2"}
    inter = {0: "10.0.0.1", 1: "10.0.0.2", 2: "10.0.0.1", 3: "10.0.0.2", 4: "10.0.0.1", 5: "10.0.0.2"}
    short = ["task", "pend", "use", "actor", "slow"]
    return [
        Harness("programs", ends(0, ops, 2 if q else 3), f"every program of {2 if q else 3} operations out of 15, ending at once; 3 ways of ending; default schedule",
                ops + ["shutdown", "twice", "exit"], budget=60, tbudget=2500, stubs=STUBS),
        Harness("schedules", ends(2 if q else 3, short, 1 if q else 2), f"<= {2 if q else 3} schedule deviations",
                short, budget=60, tbudget=3000, stubs=STUBS),
        Harness("nested", ends(1 if q else 2, ["nest"], 1), "a task that waits for a task of its own; <= %d deviations" % (1 if q else 2),
                ["nest"], budget=40, tbudget=2000, stubs=STUBS),
        Harness("shared", ends(0 if q else 2, ["big", "array", "use", "pend", "slowbig", "actor"], 2, shared=True), "shared object store, one host",
                ["big", "use"], budget=40, tbudget=2000, stubs=STUBS),
        Harness("shared-schedules", ends(2 if q else 4, ["slowbig", "usebig", "use"], 1, 4, shared=True), f"shared object store, <= {2 if q else 4} deviations",
                ["slowbig", "use"], budget=40, tbudget=2000, stubs=STUBS),
        Harness("hosts", ends(1 if q else 3, ["use", "pend", "usebig"], 1, 6, two, True), "two hosts of 3 processes with the shared object store",
                ["use"], budget=40, tbudget=2000, stubs=STUBS),
        Harness("hosts-interleaved", ends(1 if q else 3, ["use", "task"], 1, 6, inter, True), "processes placed alternately on two hosts",
                ["use"], budget=40, tbudget=2000, stubs=STUBS),
        Harness("unbuffered", ends(1 if q else 2, ops, 1 if q else 2, rendezvous=True), "no send completes before it is received; "
                f"<= {1 if q else 2} deviations", ops, budget=40, tbudget=2000, stubs=STUBS),
        Harness("unbuffered-hosts", ends(1 if q else 2, ["use", "pend", "usebig"], 1, 6, two, True, rendezvous=True),
                "the same with the shared object store on two hosts", ["use"], budget=40, tbudget=2000, stubs=STUBS),
        Harness("starved", ends(0, ops, 1 if q else 2, starve=True), "one process (any) only progresses when nothing else can", ops, budget=40, tbudget=2000, stubs=STUBS),
        Harness("starved-hosts", ends(0, ["use", "pend", "usebig", "slowbig"], 1 if q else 2, 6, two, True, starve=True), "the same with the shared object store on two hosts",
                ["use"], budget=40, tbudget=2000, stubs=STUBS),
        Harness("hosts-plain", ends(1 if q else 3, ["use", "slow"], 1, 6, two, False), "two hosts without the shared object store",
                ["use"], budget=40, tbudget=2000, stubs=STUBS),
    ]

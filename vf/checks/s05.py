"""S05: every submitted task runs exactly once and the program makes progress."""
from .. import prog
from ..prog import Run, same
from ..run import Harness
from .s01 import ASSUMPTIONS as _A, STUBS

ASSUMPTIONS = _A + ["coroutines are resumed eventually"]
OUTSIDE = ["tasks that submit tasks and wait for them when all workers are occupied that way",
           "graphs larger than stated", "more schedule deviations than stated"]


class Graph:
    def __init__(self, ctx, u, r, actors=1):
        self.ctx, self.u, self.r = ctx, u, r
        self.actors = [u.remote(prog.Acc).remote(0) for _ in range(actors)]
        self.state = [0] * actors
        self.refs, self.vals, self.toks, self.touched = [], [], [], [None] * actors

    def node(self, kind, deps, c):
        """Adds a node consuming deps (indices) and constant c."""
        r, t = self.r, self.r.token()
        rs, vs = [self.refs[i] for i in deps], [self.vals[i] for i in deps]
        s = c
        for v in vs:
            s = s + v
        if kind == "task":
            ref, val = r.call(prog.total, t, c, *rs), s
        elif kind == "kwtask":
            ref, val = r.call(prog.total, t, c, **{f"k{i}": x for i, x in enumerate(rs)}), s
        elif kind == "slow":
            ref, val = r.call(prog.slow, t, rs[0] if rs else c), vs[0] if rs else c
        elif kind == "fan":
            ref, val = r.call(prog.fan, t, 2, rs[0] if rs else c, num_returns=2)[1], (vs[0] if rs else c) + 1
        elif kind.startswith("slowfan"):
            # an output of a coroutine that has several of them
            i = int(kind[-1])
            ref, val = r.call(prog.slow_fan, t, 3, rs[0] if rs else c, num_returns=3)[i], (vs[0] if rs else c) + i
        elif kind.startswith("slowactor"):
            a = int(kind[-1])
            ref, val = self.actors[a].slow.remote(t, rs[0] if rs else c), vs[0] if rs else c
        elif kind.startswith("actor"):
            # stateless use (calls with unfinished arguments may be reordered): returns its arguments' sum
            a = int(kind[-1])
            ref, val = self.actors[a].plus.remote(t, c, *rs), s
        else:
            raise AssertionError(kind)
        self.refs.append(ref)
        self.vals.append(val)
        self.toks.append(t)

    def finish(self, order):
        u, ctx = self.u, self.ctx
        got = u.get([self.refs[i] for i in order])
        for i, g in zip(order, got):
            ctx.check(same(g, self.vals[i]), "wrong result")
        for i, t in enumerate(self.toks):
            ctx.check(prog.finished(t) == 1 and prog.executed(t) == 1, "task not executed exactly once",
                      f"node {i}: {prog.executed(t)} starts, {prog.finished(t)} ends")


def graph(dev, layers, n=4, actors=1, shared=False, use=("get", "wait"), **kw):
    """layers: list of (kinds, dependency choices)."""

    def h(ctx):
        run = Run(ctx, n, deviations=dev, shared=60 if shared else False, **kw)

        def program(u, r):
            g = Graph(ctx, u, r, actors)
            for kinds, deps in layers:
                k = ctx.pick("kind", kinds)
                d = ctx.pick("deps", deps)
                g.node(k, d, ctx.int("c", -9, 9))
                ctx.reach(k)
            how = ctx.pick("finish", list(use))
            k = len(layers)
            if how == "wait":
                u.wait(list(g.refs), num_returns=k)
            elif how == "last":
                u.wait([g.refs[-1]], num_returns=1)
            g.finish(list(range(k)) if how != "last" else list(reversed(range(k))))

        run.run(program)

    return h


def fire_and_forget(dev):
    """Tasks without outputs, or whose outputs are dropped at once, still run exactly once."""

    def h(ctx):
        run = Run(ctx, 4, deviations=dev, shared=ctx.pick("shared", [False, 60]))
        toks = []

        def program(u, r):
            a = u.remote(prog.Acc).remote(0)
            dep = r.call(prog.slow, r.token(), 1)
            for _ in range(2):
                t = r.token()
                toks.append(t)
                k = ctx.pick("kind", ["num0", "drop", "actor", "slow0", "dep"])
                if k == "num0":
                    r.call(prog.nothing, t, num_returns=0)
                elif k == "slow0":
                    r.call(prog.slow, t, 1, num_returns=0)
                elif k == "drop":
                    r.call(prog.total, t, 1)
                elif k == "dep":
                    r.call(prog.nothing, t, dep, num_returns=0)
                else:
                    a.add.remote(t, 1)
            # ordinary work afterwards
            x = ctx.int("x", -9, 9)
            got = u.get([r.call(prog.total, r.token(), x, dep), a.add.remote(r.token(), x), r.call(prog.nothing, r.token(), dep)])
            ctx.check(same(got[0], x + 1) and got[2] is None, "wrong result")
            # everything was started and finished by the time the system has been used some more
            for i in range(3):
                u.get([r.call(prog.total, r.token(), i), r.call(prog.slow, r.token(), i), a.add.remote(r.token(), 0)])
            for t in toks:
                ctx.check(prog.executed(t) <= 1, "task executed more than once")
            ctx.check(all(prog.finished(t) == 1 for t in toks), "task never executed", str([prog.finished(t) for t in toks]))
            ctx.reach("end")

        run.run(program)

    return h


def cross(dev):
    """A task waits for an actor method's result and vice versa, on the same two workers, behind a coroutine."""

    def h(ctx):
        run = Run(ctx, 4, deviations=dev)

        def program(u, r):
            g = Graph(ctx, u, r, 1)
            g.node(ctx.pick("head", ["slow", "slowactor0"]), [], ctx.int("c", -9, 9))
            g.node(ctx.pick("mid", ["task", "actor0", "slow", "slowactor0"]), [0], 1)
            g.node(ctx.pick("mid2", ["task", "actor0", "slowactor0"]), [1], 2)
            g.node(ctx.pick("tail", ["task", "actor0"]), [2, 0], 3)
            ctx.reach("cross")
            g.finish([3, 2, 1, 0])

        run.run(program)

    return h


def volume(ctx):
    """Far more tasks than workers, many of them pending at once."""
    run = Run(ctx, 5, deviations=0, shared=ctx.pick("shared", [False, 60]), max_steps=400000)
    head = ctx.pick("head", ["slow", "slowactor0"])

    def program(u, r):
        g = Graph(ctx, u, r, 1)
        g.node(head, [], ctx.int("c", -9, 9))
        for i in range(1, 135):
            kind = ["task", "actor0", "kwtask", "slow", "task"][i % 5]
            g.node(kind, [[0], [i - 1], [0, i - 1]][i % 3] if i % 7 else [], i)
        ctx.reach(head)
        g.finish([(i * 11) % 135 for i in range(135)])

    run.run(program)


def harnesses(tier):
    q = tier == "quick"
    ks = ["task", "slow", "actor0", "slowactor0"]
    return [
        Harness("graph", graph(0, [(ks, [[]]), (ks, [[], [0]]), (ks, [[0], [1], [0, 1]]), (["task", "actor0"] if q else ks, [[1, 2], [0, 2]])],
                               use=("get", "last") if q else ("get", "wait", "last")),
                "graphs of 4 nodes (tasks, coroutines, actor methods, actor coroutines), dependency patterns as listed; default schedule",
                ks, budget=60, tbudget=2500, stubs=STUBS),
        Harness("cross", cross(1 if q else 3), "chains alternating between tasks and actor methods behind a coroutine; "
                f"<= {1 if q else 3} deviations", ["cross"], budget=60, tbudget=3000, stubs=STUBS),
        Harness("schedules", graph(2 if q else 5, [(["slow"], [[]]), (["task"], [[0]]), (["task", "kwtask"], [[0, 1]])], use=("get",)),
                f"coroutine feeding two dependent tasks; <= {2 if q else 5} deviations", ["task"], budget=40, tbudget=3000, stubs=STUBS),
        Harness("schedules-3", graph(1 if q else 3, [(["task", "fan"], [[]]), (["task"], [[]]), (["slow", "task"], [[0, 1]]), (["actor0", "task"], [[2, 0]])],
                                     n=6, use=("get",)),
                f"joins across 4 workers; <= {1 if q else 3} deviations", ["actor0"], budget=40, tbudget=3000, stubs=STUBS),
        Harness("shared", graph(0 if q else 2, [(ks, [[]]), (["task", "fan"], [[0]]), (["task", "slow"], [[1, 0]])], shared=True, use=("get",)),
                "with the shared object store", ["fan"], budget=30, tbudget=2000, stubs=STUBS),
        Harness("unbuffered", graph(1 if q else 2, [(ks, [[]]), (["task", "fan", "actor0"], [[0]]), (["task", "slow"], [[1, 0]])], use=("get", "wait"), rendezvous=True),
                f"no send completes before it is received; <= {1 if q else 2} deviations", ["fan"], budget=40, tbudget=2000, stubs=STUBS),
        Harness("unbuffered-shared", graph(0 if q else 2, [(ks, [[]]), (["task", "fan"], [[0]]), (["task", "slow"], [[1, 0]])], shared=True,
                                           use=("get",), rendezvous=True),
                "the same with the shared object store", ["fan"], budget=30, tbudget=2000, stubs=STUBS),
        Harness("starved", graph(0 if q else 1, [(ks, [[]]), (["task", "fan", "actor0"], [[0], []]), (["task", "slow"], [[1, 0]])], n=5, use=("get", "wait"), starve=True),
                "one process (any) only progresses when nothing else can", ["fan"], budget=40, tbudget=2000, stubs=STUBS),
        Harness("hosts", graph(0 if q else 1, [(ks, [[]]), (["task", "fan"], [[0]]), (["task", "slow"], [[1, 0]])], n=7, shared=True,
                               use=("get", "wait"), hosts=dict(enumerate("aaabbbb"))),
                "two hosts with the shared object store", ["fan"], budget=40, tbudget=2000, stubs=STUBS),
        Harness("fanout", graph(0 if q else 2, [(["slow", "slowfan0", "slowfan1", "slowfan2"], [[]]), (["task", "kwtask", "actor0"], [[0]]), (["task", "slow"], [[0]]), (["task"], [[0, 1]])],
                                n=6 if q else 5, use=("get", "wait")),
                "several workers waiting for the same output of a coroutine", ["slowfan2"], budget=40, tbudget=2000, stubs=STUBS),
        Harness("volume", volume, "135 nodes on 3 workers, most of them waiting for one coroutine or for each other; default schedule",
                ["slow", "slowactor0"], budget=40, tbudget=300, stubs=STUBS),
        Harness("forget", fire_and_forget(0 if q else 2), "tasks whose outputs nobody asks for", ["end"], budget=30, tbudget=2000, stubs=STUBS),
    ]

"""S07: data is kept while reachable and eventually released afterwards."""
import gc

from .. import prog
from ..prog import Run, same
from ..run import Harness
from .s01 import ASSUMPTIONS as _A, STUBS

ASSUMPTIONS = _A + ["time advances (2 s) between user operations so that time thresholds do not postpone clean-up",
                    "refs are dropped by reference counting (no cycles)"]
OUTSIDE = ["refs inside objects the runtime cannot look into", "tasks submitted by other tasks",
           "histories longer than stated"]


class History:
    def __init__(self, ctx, u, r):
        self.ctx, self.u, self.r = ctx, u, r
        self.live = []  # [ref, value, mark or None]
        self.dropped = []
        self.mark = 0
        self.pin = None  # not the first object of the program
        self.out = []
        self.actor = None

    def tick(self):
        self.r.world.clock += 2.0

    def arm(self):
        """Enough dropped refs and operations for a clean-up to be due at the next opportunity."""
        for _ in range(12):
            self.u.put(1)
        self.pin = self.pin or self.u.put(0)
        for _ in range(4):
            self.tick()
            self.u.get(self.pin)

    def new(self, kind, big=False):
        ctx, u, r = self.ctx, self.u, self.r
        v = ctx.int("v", -9, 9)
        self.mark += 1
        m = self.mark
        self.tick()
        if kind == "put":
            ref = u.put((prog.Big if big else prog.Payload)(v, m))
        elif kind == "task":
            ref = r.call(prog.make_payload, r.token(), v, m, big)
        elif kind == "late":
            # its producer cannot run before an unfinished coroutine has ended
            ref = r.call(prog.make_payload, r.token(), v, m, big, r.call(prog.slow, r.token(), 1))
        elif kind == "pair":
            ref = r.call(prog.fan, r.token(), 2, v, num_returns=2)[1]
            self.live.append([ref, v + 1, None])
            return
        else:
            raise AssertionError(kind)
        self.live.append([ref, v, m])

    def use(self, kind, i):
        ref, v, m = self.live[i]
        u, r = self.u, self.r
        self.tick()
        if kind == "read":
            self.out.append((r.call(prog.read_payload, r.token(), ref), v))
        elif kind == "slow":
            self.out.append((r.call(prog.slow_read, r.token(), ref), v))
        elif kind == "late":
            # pending on a worker until a coroutine has ended
            gate = r.call(prog.slow, r.token(), 1)
            self.out.append((r.call(prog.read_payload, r.token(), gate, ref), v + 1))
        elif kind == "actor":
            if self.actor is None:
                self.actor = u.remote(prog.Acc).remote(0)
            gate = r.call(prog.slow, r.token(), 1)
            self.out.append((self.actor.see.remote(r.token(), gate, ref), v + 1))
        elif kind == "get":
            g = u.get(ref)
            self.ctx.check(same(g.v if isinstance(g, prog.Payload) else g, v), "another value is retrieved")
        else:
            raise AssertionError(kind)

    def drop(self, i):
        ref, v, m = self.live.pop(i)
        if m is not None:
            self.dropped.append(m)

    def settle(self):
        """Everything still reachable has its value."""
        ctx, u = self.ctx, self.u
        for ref, e in self.out:
            self.tick()
            ctx.check(same(u.get(ref), e), "task saw another value")
        for ref, v, m in self.live:
            self.tick()
            g = u.get(ref)
            ctx.check(same(g.v if isinstance(g, prog.Payload) else g, v), "another value is retrieved")
        self.out = []

    def release_all(self, rounds=30):
        ctx, u, r = self.ctx, self.u, self.r
        while self.live:
            self.drop(0)
        marks = list(self.dropped)
        for i in range(rounds):
            self.tick()
            # every worker takes part, with actor methods and with tasks
            if i == rounds // 2:
                self.actor = None
            u.get([r.call(prog.total, r.token(), i) for _ in range(r.world.n - 2)])
            if self.actor is not None:
                u.get(self.actor.see.remote(r.token(), i))
        gc.collect()
        for m in marks:
            ctx.check(prog.alive(m) == 0, "value is never released", f"{prog.alive(m)} copies of dropped value {m} are alive")
            ctx.check(not prog.stored_bytes(r.world, m), "serialized copy is never released", str(prog.stored_bytes(r.world, m)))
        ctx.reach("released")


def histories(dev, steps, makes, uses, n=4, shared=False, release=True, big=False, **kw):
    def h(ctx):
        run = Run(ctx, n, deviations=dev, shared=1000 if shared else False, **kw)

        def program(u, r):
            hs = History(ctx, u, r)
            hs.new(ctx.pick("make", makes), big)
            hs.new(ctx.pick("make", makes), big)
            for _ in range(steps):
                op = ctx.pick("op", ["use", "drop", "arm"])
                if op == "arm":
                    hs.arm()
                elif hs.live:
                    i = ctx.pick("which", list(range(len(hs.live))))
                    if op == "use":
                        hs.use(ctx.pick("how", uses), i)
                    else:
                        hs.drop(i)
                        ctx.reach("drop")
            hs.arm()
            hs.tick()
            hs.settle()
            hs.arm()
            hs.settle()
            ctx.reach("settled")
            if release:
                hs.release_all()

        run.run(program)

    return h


def used_while_pending(dev, forms, starve=False):
    """The classic hazard: a ref is dropped while tasks needing it wait on workers, and a clean-up becomes due."""

    def h(ctx):
        slow = ctx.pick("slow", [2, 3, 4]) if starve else None
        run = Run(ctx, 5, deviations=dev, shared=ctx.pick("shared", [False, 1000]), slow=[slow] if starve else [], eager=starve)

        def program(u, r):
            hs = History(ctx, u, r)
            hs.new(ctx.pick("make", ["put", "task", "late"]), ctx.pick("big", [False, True]))
            before = ctx.pick("before", ["get", None])
            if before and hs.live[0][2]:
                hs.use("get", 0)
            hs.use(ctx.pick("use", forms), 0)
            hs.drop(0)
            # something that failed / has no outputs must not confuse the accounting of finished tasks
            noise = ctx.pick("noise", ["none", "fail", "num0", "fan", "actor", "actor0"])
            # as many as unfinished tasks: a wrong count could make up for those
            for _ in range(ctx.pick("times", [1, 2, 3]) if noise != "none" and starve else 2):
                if noise == "fail":
                    r.call(prog.fail, r.token(), 1)
                elif noise == "num0":
                    r.call(prog.nothing, r.token(), num_returns=0)
                elif noise == "fan":
                    r.call(prog.fan, r.token(), 3, 1, num_returns=3)
                elif noise in ("actor", "actor0"):
                    if hs.actor is None:
                        hs.actor = u.remote(prog.Acc).remote(0)
                    if noise == "actor":
                        hs.actor.add.remote(r.token(), 1)
                    else:
                        hs.actor.add.options(num_returns=0).remote(r.token(), 1)
            for _ in range(2):
                # one clean-up, and another one after it
                hs.arm()
                for _ in range(2):
                    hs.tick()
                    u.get(hs.pin)
            hs.settle()
            hs.release_all()
            ctx.reach(noise)

        run.run(program)

    return h


def reuse_area(rounds):
    """Shared memory of dropped objects is given to new ones: many times the area passes through it."""

    def h(ctx):
        import numpy as np

        kind = ctx.pick("kind", ["put", "task", "used"])
        two = ctx.pick("two hosts", [False, True])
        if two:
            ctx.reach("two hosts")
        run = Run(ctx, 7 if two else 4, hosts=dict(enumerate("aaabbbb")) if two else None, shared=1000, deviations=0, environ={"UNIDIST_MPI_SHARED_OBJECT_STORE_MEMORY": "400000"}, max_steps=100000)

        def program(u, r):
            pin = u.put(0)
            for i in range(rounds):
                r.world.clock += 2.0
                if kind == "put":
                    ref = u.put(np.full(1250, i))
                elif kind == "task":
                    ref = r.call(prog.array, r.token(), 1250, i)
                else:
                    ref = u.put(np.full(1250, i))
                    ctx.check(u.get(r.call(prog.asum, r.token(), ref, 1)) == 1250 * i + 1, "task saw another value")
                g = u.get(ref)
                ctx.check(len(g) == 1250 and int(g[0]) == i and int(g[-1]) == i, "another value is retrieved")
                del ref, g
                for _ in range(3):
                    u.get(pin)
            ctx.reach(kind)

        run.run(program)

    return h


def many(count):
    """Many refs dropped at once."""

    def h(ctx):
        run = Run(ctx, 4, deviations=0, shared=ctx.pick("shared", [False, 1000]), max_steps=200000)

        def program(u, r):
            hs = History(ctx, u, r)
            kind = ctx.pick("make", ["put", "task"])
            for _ in range(count):
                hs.new(kind)
            hs.settle()
            hs.release_all(12)

        run.run(program)

    return h


def harnesses(tier):
    q = tier == "quick"
    makes, uses = ["put", "task", "late"], ["read", "slow", "late", "actor", "get"]
    return [
        Harness("history", histories(0, 2 if q else 4, makes if not q else ["put", "task"], uses),
                f"every history of {2 if q else 4} use/drop/clean-up steps over 2 refs; default schedule", ["drop", "settled", "released"],
                budget=60, tbudget=3000, stubs=STUBS),
        Harness("history-shared", histories(0, 2 if q else 3, ["put", "task"] if not q else ["task"], ["read", "late", "get"], shared=True, big=True),
                "with the shared object store", ["drop", "settled", "released"], budget=40, tbudget=3000, stubs=STUBS),
        Harness("history-hosts", histories(0, 1 if q else 2, ["put", "task"], ["read", "late", "get"], n=7, shared=True, big=True, hosts=dict(enumerate("aaabbbb"))),
                "with the shared object store on two hosts", ["drop", "settled", "released"], budget=40, tbudget=3000, stubs=STUBS),
        Harness("pending", used_while_pending(0 if q else 1, ["late", "slow", "actor"]), "ref dropped while a task needing it is unfinished, other "
                "tasks failing / without outputs / with several outputs / of actors in between; "
                + ("default schedule" if q else "<= 1 deviation"), ["none", "fail", "num0", "fan", "actor", "actor0", "released"],
                budget=60, tbudget=3000, stubs=STUBS),
        Harness("starved", used_while_pending(0 if q else 1, ["read"] if q else ["read", "late"], starve=True), "the same, while one worker (any) makes no progress "
                "as long as anything else can happen; " + ("default schedule otherwise" if q else "<= 1 deviation"),
                ["none", "fail", "num0", "fan", "actor", "actor0", "released"], budget=90, tbudget=3000, stubs=STUBS),
        Harness("pending-schedules", histories(2 if q else 3, 1, ["task"], ["late"], release=False),
                f"<= {2 if q else 3} deviations", ["settled"], budget=40, tbudget=3000, stubs=STUBS),
        Harness("many", many(150 if q else 600), "%d refs dropped at once" % (150 if q else 600), ["released"], budget=60, tbudget=900, stubs=STUBS),
        Harness("reuse", reuse_area(45 if q else 120), "%d objects of 1/40 of the shared area pass through it, on one host or two" % (45 if q else 120),
                ["put", "task", "used", "two hosts"], budget=60, tbudget=600, stubs=STUBS),
    ]

"""P01: the sequential backend computes what plain Python would."""
import os

from .. import prog, simmpi
from .. import pyprog
from ..pyprog import Machine
from ..run import Harness

ASSUMPTIONS = ["user functions terminate", "programs do not store exception objects as ordinary values"]
OUTSIDE = ["longer programs than stated", "threads of the user program"]


class SeqRun(prog.Run):
    """The real sequential backend in a private set of modules."""

    def __init__(self, ctx, backend="pyseq", init=True):
        self.ctx, self.tok, self.fns, self.backend, self.init = ctx, 0, {}, backend, init

    def run(self, program):
        prog.reset()
        drop = {k: os.environ.pop(k) for k in list(os.environ) if k.startswith("UNIDIST_")}
        env = simmpi.Env(environ={"UNIDIST_BACKEND": self.backend})
        try:
            with env:
                self.u = env.imp("unidist")
                if self.init:
                    self.u.init()
                prog.guarded(self.ctx, program, self.u, self)
        finally:
            os.environ.update(drop)
            self.fns.clear()


def programs(ops, steps, init=True):
    def h(ctx):
        def program(u, r):
            Machine(ctx, u, r).run(ops, steps)
            ctx.reach("end")

        SeqRun(ctx, init=init or ctx.pick("init", [True, False])).run(program)

    return h


ALL = ("put", "total", "echo", "outputs", "none", "cond", "container", "actor", "method", "get", "wait")


def reject(ctx):
    """What is not a ref is refused, not answered."""

    def program(u, r):
        x = ctx.pick("object", [3, "x", None, [3]])
        ref = u.put(1)
        arg = ctx.pick("form", [lambda: x if isinstance(x, list) else [x], lambda: [ref, x]])()
        try:
            got = u.get(arg)
        except Exception:  # noqa: BLE001
            ctx.reach("refused")
        else:
            ctx.fail("get of something that is not a ref returns", repr(got))

    SeqRun(ctx).run(program)


def harnesses(tier):
    q = tier == "quick"
    first = ("put", "cond", "outputs")
    k = 3 if q else 4
    return [
        Harness("programs", programs([first] + [ALL] * (k - 1), k),
                f"every program of {k} operations (11 kinds, the first a put, a failing or a multi-output task; every choice "
                "of arguments among earlier refs), all payload integers and failure limits symbolic",
                ["end"] + list(ALL), budget=110, tbudget=3000),
        Harness("actors", programs([("actor",), ("actor", "cond"), ("method",), ("method",)] + ([] if q else [("method", "total")]), 4 if q else 5, init=False),
                "two method calls on one or two actors", ["end"], budget=60, tbudget=2000),
        Harness("volume", lambda ctx: SeqRun(ctx).run(lambda u, r: pyprog.volume(ctx, u, r, 120)),
                "120 values and tasks, 40 calls of an actor, 20 failures, 30 outputs", ["volume"], budget=20, tbudget=60),
        Harness("reject", reject, "objects that are not refs", ["refused"], budget=10, tbudget=30),
    ]

"""User-level code and a sequential reference model for driving the real runtime.

Functions and actor classes are module level (they travel by reference).  Execution of every task is
recorded in `LOG` (all ranks live in this process), so that "executed", "finished" and "how often" are
observable.  `Model` mirrors what the program asked for in plain sequential Python.
"""
import typing

from . import simmpi
from .engine import is_sym, all_of

LOG = []  # (event, token)
GATES = {}
SERVING = []  # managed objects (multiprocessing backend) a method of which is running


def reset():
    LOG.clear()
    ALIVE.clear()


def executed(token):
    return sum(1 for e, t in LOG if e == "start" and t == token)


def finished(token):
    return sum(1 for e, t in LOG if e == "end" and t == token)


class Failure(Exception):
    """User exception carrying a payload."""

    def __init__(self, code):
        super().__init__(code)
        self.code = code


class Unpicklable(Exception):
    def __init__(self, a, b):
        super().__init__(a)
        self.lock = simmpi.threading.Lock()


class NoReduce(Exception):
    """Pickles, but cannot be rebuilt (constructor takes another number of arguments)."""

    def __init__(self, a, b):
        super().__init__(a)


def leaves(x):
    """Order-preserving flattening of nested lists / tuples / dicts with container markers."""
    if type(x) is list:
        return ["L"] + [y for v in x for y in leaves(v)] + ["l"]
    if type(x) is tuple:
        return ["T"] + [y for v in x for y in leaves(v)] + ["t"]
    if type(x) is dict:
        return ["D"] + [y for k, v in x.items() for y in [k] + leaves(v)] + ["d"]
    return [x]


class Point(typing.NamedTuple):
    x: int
    y: int


class Tagged(list):
    """A list with something more to it."""

    def __init__(self, items=()):
        super().__init__(items)
        self.tag = "t"


class Table(dict):
    pass


def echo(token, *args, **kwargs):
    """Returns exactly what it was called with."""
    LOG.append(("start", token))
    r = [list(args), dict(kwargs)]
    LOG.append(("end", token))
    return r


def total(token, *args, **kwargs):
    LOG.append(("start", token))
    s = 0
    for a in args:
        s = s + a
    for a in kwargs.values():
        s = s + a
    LOG.append(("end", token))
    return s


def fan(token, n, x):
    """n outputs x, x+1, ..."""
    LOG.append(("start", token))
    LOG.append(("end", token))
    return [x + i for i in range(n)]


def ident(token, x):
    LOG.append(("start", token))
    LOG.append(("end", token))
    return x


def nothing(token, *a):
    LOG.append(("start", token))
    LOG.append(("end", token))


def fail(token, code, *a, **k):
    LOG.append(("start", token))
    LOG.append(("end", token))
    raise Failure(code)


def fail_unpicklable(token, *a):
    LOG.append(("start", token))
    LOG.append(("end", token))
    raise Unpicklable("u", 2)


def fail_norebuild(token, *a):
    LOG.append(("start", token))
    LOG.append(("end", token))
    raise NoReduce("n", 2)


def bad_output(token, *a):
    LOG.append(("start", token))
    LOG.append(("end", token))
    return (i for i in range(3))


def array(token, n, x):
    import numpy as np

    LOG.append(("start", token))
    LOG.append(("end", token))
    return np.full(n, x, dtype="int64")


def asum(token, a, x):
    LOG.append(("start", token))
    LOG.append(("end", token))
    return int(a.sum()) + x


async def slow(token, x):
    LOG.append(("start", token))
    await simmpi.gate()
    LOG.append(("end", token))
    return x


async def slow_fail(token, code):
    LOG.append(("start", token))
    await simmpi.gate()
    LOG.append(("end", token))
    raise Failure(code)


async def slow_bad(token):
    LOG.append(("start", token))
    await simmpi.gate()
    LOG.append(("end", token))
    return (i for i in range(3))


async def slow_array(token, n, x):
    import numpy as np

    LOG.append(("start", token))
    await simmpi.gate()
    LOG.append(("end", token))
    return np.full(n, x, dtype="int64")


async def slow_fan(token, n, x):
    LOG.append(("start", token))
    await simmpi.gate()
    LOG.append(("end", token))
    return [x + i for i in range(n)]


class Acc:
    """Stateful actor: remembers everything it was told."""

    def __init__(self, start=0, *rest, **kw):
        self.v = start
        self.hist = []

    def add(self, token, x=0, y=0):
        LOG.append(("start", token))
        self.v = self.v + x + y
        self.hist.append(token)
        LOG.append(("end", token))
        return self.v

    def see(self, token, *ps):
        LOG.append(("start", token))
        s = 0
        for p in ps:
            s = s + (p.v if isinstance(p, Payload) else p)
        LOG.append(("end", token))
        return s

    def plus(self, token, *xs):
        LOG.append(("start", token))
        s = 0
        for x in xs:
            s = s + x
        LOG.append(("end", token))
        return s

    def keep(self, handle):
        self.peer = handle

    def relay(self, token, x):
        """Calls another actor through a kept handle."""
        import unidist

        LOG.append(("start", token))
        r = unidist.get(self.peer.add.remote(("relay", token), x))
        LOG.append(("end", token))
        return r

    def set(self, token, x):
        LOG.append(("start", token))
        self.v = x
        self.hist.append(token)
        LOG.append(("end", token))
        return x

    def two(self, token):
        LOG.append(("start", token))
        self.hist.append(token)
        LOG.append(("end", token))
        return self.v, len(self.hist)

    def history(self):
        return list(self.hist)

    def get(self):
        return self.v

    def boom(self, token, code):
        LOG.append(("start", token))
        self.hist.append(token)
        LOG.append(("end", token))
        raise Failure(code)

    def where(self):
        return here()

    def echo(self, token, *args, **kwargs):
        return echo(token, *args, **kwargs)

    async def slow(self, token, x=0):
        LOG.append(("start", token))
        await simmpi.gate()
        LOG.append(("end", token))
        return x

    async def slow_boom(self, token, code):
        LOG.append(("start", token))
        await simmpi.gate()
        LOG.append(("end", token))
        raise Failure(code)


ALIVE = []  # weak references to every payload object created or received anywhere


class Payload:
    """Value whose copies in all processes can be tracked."""

    def __init__(self, v, mark):
        import weakref

        self.v, self.mark = v, mark
        self.blob = b"mark<%d>" % mark * 20
        ALIVE.append((mark, weakref.ref(self)))

    def __reduce__(self):
        return Payload, (self.v, self.mark)


class Big(Payload):
    """The same with an out-of-band buffer."""

    def __init__(self, v, mark, arr=None):
        import numpy as np

        super().__init__(v, mark)
        self.arr = arr if arr is not None else np.full(400, mark, dtype="int64")

    def __reduce__(self):
        return Big, (self.v, self.mark, self.arr)


def alive(mark):
    return sum(1 for m, w in ALIVE if m == mark and w() is not None)


def make_payload(token, v, mark, big=False, *deps):
    LOG.append(("start", token))
    LOG.append(("end", token))
    return (Big if big else Payload)(v, mark)


def read_payload(token, *ps, **kw):
    LOG.append(("start", token))
    s = 0
    for p in list(ps) + list(kw.values()):
        s = s + (p.v if isinstance(p, Payload) else p)
    LOG.append(("end", token))
    return s


async def slow_read(token, *ps):
    LOG.append(("start", token))
    await simmpi.gate()
    s = 0
    for p in ps:
        s = s + (p.v if isinstance(p, Payload) else p)
    LOG.append(("end", token))
    return s


def stored_bytes(world, mark):
    """Ranks whose unidist state still holds serialized bytes of the payload."""
    import sys as _sys

    needle = b"mark<%d>" % mark
    out = []
    for rk in world.ranks:
        mods = _sys.modules if rk is world.cur else (rk.env.mods if rk.env is not None else {})
        seen, todo = set(), [m.__dict__ for k, m in list(mods.items()) if k.startswith("unidist") and m is not None]
        while todo:
            o = todo.pop()
            if id(o) in seen:
                continue
            seen.add(id(o))
            if isinstance(o, (bytes, bytearray)):
                if needle in o:
                    out.append(rk.r)
                    break
            elif isinstance(o, dict):
                todo += list(o.values())
            elif isinstance(o, (list, tuple, set, frozenset)):
                todo += list(o)
            elif type(o).__name__ in ("WeakKeyDictionary", "WeakValueDictionary"):
                todo += list(o.values())
            elif isinstance(o, type):
                if (o.__module__ or "").startswith("unidist"):
                    todo += list(vars(o).values())
            elif (type(o).__module__ or "").startswith("unidist"):
                todo.append(getattr(o, "__dict__", {}))
    return out


class Box:
    def __init__(self, items):
        self.items = items

    def push(self, x):
        self.items.append(x)
        return list(self.items)


CUR = [None]


def here():
    """Rank executing this code."""
    w = CUR[0]
    return w.cur.r if w is not None and w.cur is not None else -1


def where(token, *a):
    LOG.append(("start", token))
    LOG.append(("at", (token, here())))
    LOG.append(("end", token))
    return here()


def nested_where(token, k):
    """(own rank, ranks of k nested tasks)"""
    import unidist

    LOG.append(("start", token))
    f = unidist.remote(where)
    r = here(), unidist.get([f.remote(("nested", token, i)) for i in range(k)])
    LOG.append(("end", token))
    return r


def use_actor(token, actor, x):
    """Calls an actor through a handle that travelled to a worker."""
    import unidist

    LOG.append(("start", token))
    r = unidist.get(actor.add.remote(("via", token), x))
    LOG.append(("end", token))
    return r


def use_actors(token, handles, x):
    """Handles inside containers."""
    import unidist

    LOG.append(("start", token))
    r = [unidist.get(h.add.remote(("via", token), x)) for h in handles]
    LOG.append(("end", token))
    return r


def nested(token, x):
    import unidist

    LOG.append(("start", token))
    r = unidist.get(unidist.remote(total).remote(("nested", token), x, 1))
    LOG.append(("end", token))
    return r


def same(a, b):
    """Structural equality with symbolic leaves (non-forking)."""
    la, lb = leaves(a), leaves(b)
    if len(la) != len(lb):
        return False
    cs = []
    for x, y in zip(la, lb):
        if is_sym(x) or is_sym(y):
            if isinstance(x, str) or isinstance(y, str):
                return False
            cs.append(x == y)
        else:
            if type(x) is not type(y):
                return False
            if hasattr(x, "shape"):
                if x.dtype != y.dtype or x.shape != y.shape or not (x == y).all():
                    return False
            elif x != y:
                return False
    return all_of(*cs)


SHARED = {
    "UNIDIST_MPI_SHARED_OBJECT_STORE": "True",
    "UNIDIST_MPI_SHARED_OBJECT_STORE_MEMORY": "4000000",
    "UNIDIST_MPI_SHARED_SERVICE_MEMORY": "32000",
}


class Run:
    """One simulated run of `program(u, r)`; checks the basic health afterwards."""

    def __init__(self, ctx, n=4, shared=False, hosts=None, deviations=None, environ=None, **kw):
        self.ctx = ctx
        env = dict(SHARED) if shared else {}
        if shared and shared != True:  # noqa: E712 - threshold given
            env["UNIDIST_MPI_SHARED_OBJECT_STORE_THRESHOLD"] = str(shared)
        env.update(environ or {})
        if kw.pop("starve", False):
            # one process (any) makes no progress as long as anything else can happen
            kw["slow"] = ctx.pick("slow", [(k,) for k in range(1, n)])
            kw["eager"] = ctx.pick("eager", [True, False])
        self.world = simmpi.World(ctx, n, hosts=hosts, environ=env, deviations=deviations, **kw)
        self.tok = 0
        self.done = False
        self.fns = {}

    def token(self):
        self.tok += 1
        return self.tok

    def fn(self, f):
        """Remote function, created once per function and reused (as a program does)."""
        k = f
        if k not in self.fns:
            self.fns[k] = self.u.remote(f)
        return self.fns[k]

    def call(self, f, *args, num_returns=None, **kw):
        rf = self.fn(f)
        if num_returns is not None:
            k = f, num_returns  # kept like the function itself
            if k not in self.fns:
                self.fns[k] = rf.options(num_returns=num_returns)
            rf = self.fns[k]
        return rf.remote(*args, **kw)

    def run(self, program, shutdown=True, health=True):
        reset()
        CUR[0] = self.world

        def main(u):
            self.u = u
            program(u, self)
            self.done = True
            if shutdown:
                u.shutdown()

        try:
            self.world.run(main)
        finally:
            CUR[0] = None
            self.fns.clear()
        if health:
            self.health(shutdown)
        return self

    def health(self, shutdown=True):
        ctx, w = self.ctx, self.world
        for r, rk in w.crashed().items():
            e = rk.exc
            if stub_gap(e):
                raise RuntimeError("stand-in gap: " + rk.tb[-1500:])
            if r == 0:
                ctx.fail("program fails", rk.tb[-1200:])
            ctx.fail("runtime process died", f"rank {r}: " + rk.tb[-1200:])
        ctx.check(not w.errors, "message protocol violated", str(w.errors[:2]))
        ctx.check(w.deadlock is None, "program hangs" if not self.done else "shutdown hangs",
                  str(w.deadlock) + " unfinished: " + str([t for e, t in LOG if e == "start" and not finished(t)]))
        ctx.check(self.done, "program did not finish")


def guarded(ctx, program, *args):
    """Runs a program that has no reason to fail."""
    try:
        program(*args)
    except Exception as e:  # noqa: BLE001
        import traceback

        if stub_gap(e):
            raise
        ctx.fail("program fails", traceback.format_exc()[-1200:])


def stub_gap(e):
    """Did the code under test reach for something the stand-ins do not provide?"""
    if isinstance(e, AttributeError):
        o = getattr(e, "obj", None)
        m = getattr(type(o), "__module__", "") or ""
        n = getattr(o, "__name__", "") or ""
        if m.startswith("vf.") or (isinstance(n, str) and n.startswith("mpi4py")):
            return True
    if isinstance(e, (TypeError, ImportError)) and e.__traceback__ is not None:
        s = str(e)
        if "mpi4py" in s or ("unexpected keyword" in s and any(
                c in s for c in ("Comm.", "Win.", "WinNS.", "Request.", "SimLoop.", "make_memory_module", "Solo"))):
            return True
    return False


def outcome(u, ref):
    """('value', v) or ('raised', exception)."""
    try:
        return "value", u.get(ref)
    except Exception as e:  # noqa: BLE001 - the property is about what the user sees
        return "raised", e


def plain(v):
    return v


def plain2(v):
    return [v, v]


def held(token, box):
    LOG.append(("start", token))
    LOG.append(("end", token))
    return box.items


class Holder:
    """Opaque to the search for refs in arguments."""

    def __init__(self, items):
        self.items = items


def adder(k, minus=False):
    """Functions of one name (transferred by value)."""
    if minus:
        def f(x):
            return x - k
    else:
        def f(x):
            return x + k
    return f


def meter(k):
    """Classes of one name, methods of similar names (transferred by value)."""

    class Meter:
        def __init__(self, start):
            self.v = start

        def update(self, x):
            self.v = self.v + x
            return self.v

        def updates(self, x):
            return self.v + 2 * x

        def Update(self, x):
            return self.v - x

        def update_all(self, x):
            return k * 100

        def _update(self, x):
            return [self.v, k]

        def date(self, x):
            return {"k": k}

    return Meter

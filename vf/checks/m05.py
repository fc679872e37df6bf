"""M05: serialized values round-trip and are snapshots."""
import collections
import gc
import sys
import types

from .. import prog
from ..prog import Run
from ..run import Harness
from ..solo import Solo

ASSUMPTIONS = [
    "the buffer-size threshold is at least one byte",
    "values consist of what pickle/cloudpickle/msgpack can represent; dictionaries do not use the serializer's own keys",
]
OUTSIDE = ["deeper nesting or more elements than stated", "bytearray and memoryview (they come back as bytes)",
           "changes made by a reader to what it read, seen by tasks the same process gives the ref to afterwards"]
STUBS = ["MPI configuration: threshold is a symbolic number", "pickle, cloudpickle, msgpack, numpy, pandas: the real libraries"]


class Local:
    """Stands for a class of the main program: other processes cannot import it."""

    def __init__(self, x):
        self.x = x

    def __eq__(self, o):
        return type(o).__name__ == "Local" and eq(self.x, o.x)

    def __hash__(self):
        return 7


def main_program_objects():
    """A function and a class that exist only in the main program's __main__ module."""
    m = types.ModuleType("__main__")
    exec("class OnlyHere:\n"
         "    def __init__(self, x):\n        self.x = x\n"
         "    def __eq__(self, o):\n        return type(o).__name__ == 'OnlyHere' and self.x == o.x\n"
         "    def __hash__(self):\n        return 3\n"
         "def only_here(a, b=2):\n    return OnlyHere(a), b\n", m.__dict__)
    return m


def eq(a, b):
    import numpy as np
    import pandas as pd

    if type(a).__name__ == "OnlyHere" or type(a).__name__ == "Local":
        return type(b).__name__ == type(a).__name__ and eq(a.x, b.x)
    if isinstance(a, types.FunctionType):
        return isinstance(b, types.FunctionType) and eq(a(4), b(4))
    if isinstance(a, type) and a.__name__ == "OnlyHere":
        return isinstance(b, type) and b(1).x == 1
    if prog.is_sym(a) or prog.is_sym(b):
        return a == b
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and all(eq(x, y) for x, y in zip(
            a.ravel().tolist(), b.ravel().tolist()))
    if isinstance(a, (pd.DataFrame, pd.Series)):
        return a.equals(b) and eq(list(a.index), list(b.index))
    if isinstance(a, (list, tuple, collections.deque)):
        return len(a) == len(b) and prog.all_of(*[eq(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict):
        return list(a) == list(b) and prog.all_of(*[eq(a[k], b[k]) for k in a])
    return a == b


def leaf(ctx, kinds, main):
    import numpy as np
    import pandas as pd

    k = ctx.pick("leaf", kinds)
    if k == "number":
        return ctx.int("number", -(1 << 70), 1 << 70)
    if k == "plain":
        return ctx.pick("plain", [None, True, -1.5, 1 << 66, "\u00e9\x00", b"\x00\xff", 2j, range(3), frozenset([1]), {2, 3}])
    if k == "array":
        return np.arange(6, dtype="int64")            # 48 bytes
    if k == "array2":
        return np.arange(24.0).reshape(4, 6)          # 192 bytes
    if k == "layout":
        b = np.arange(20.0)
        return ctx.pick("layout", [np.asfortranarray(b.reshape(4, 5)), b[::2], b.reshape(4, 5).T[1:], b[::-1],
                                   np.zeros((0, 3)), np.array(5.0), np.array([1, "a", None], dtype=object),
                                   np.zeros(5, dtype=[("a", "i4"), ("b", "f8")]), np.broadcast_to(b[:4], (3, 4))])
    if k == "frame":
        return pd.DataFrame({"a": np.arange(9), "b": np.arange(9.0), "c": ["x"] * 9})
    if k == "series":
        return pd.Series(np.arange(12.0), index=range(3, 15))
    if k == "function":
        y = 3
        return ctx.pick("function", [lambda x: x + y, main.only_here, main.OnlyHere])
    if k == "object":
        return ctx.pick("object", [main.OnlyHere(5), Local([np.arange(9.0), 1]), collections.OrderedDict(a=[1]),
                                   collections.OrderedDict(b=main.OnlyHere(1), a=np.arange(9.0)),
                                   collections.defaultdict(main.OnlyHere, {1: 2}), collections.deque([main.OnlyHere(2), 3])])
    raise AssertionError(k)


def container(ctx, kinds, items):
    k = ctx.pick("container", kinds)
    if k == "list":
        return list(items)
    if k == "tuple":
        return tuple(items)
    if k == "dict":
        return {i: x for i, x in zip(("k", 2, (1, 2), None), items)}
    if k == "object array":
        import numpy as np

        a = np.empty(len(items), dtype=object)
        a[:] = list(items)
        return a
    raise AssertionError(k)


ARR = ["array", "array2", "frame", "series"]
ALL = ["number", "plain", "array", "layout", "frame", "series", "function", "object"]


def threshold_hook(s, t):
    def hook(mod):
        mod.MpiPickleThreshold.get = classmethod(lambda cls: t)

    s.world.module_hooks["unidist.config.backends.mpi.envvars"] = hook


def roundtrip(build, memories=("bytes", "receive buffers", "shared memory"), eager_threshold=(1, 49, 300)):
    def h(ctx):
        main = main_program_objects()
        s = Solo(ctx)
        t = ctx.pick("threshold", eager_threshold) if ctx.eager else ctx.int("threshold", 1, 400)
        threshold_hook(s, t)
        with s:
            ser = s.imp("unidist.core.backends.mpi.core.serialization")
            saved = sys.modules["__main__"]
            sys.modules["__main__"] = main
            try:
                v = build(ctx, main)
                d = ser.serialize_complex_data(v)
            finally:
                sys.modules["__main__"] = saved
            # what arrives: other memory with the same bytes
            head, count = bytes(d["s_data"]), list(d["buffer_count"])
            raw = [b.tobytes() for b in d["raw_buffers"]]
            mode = ctx.pick("memory", memories)
            if mode == "receive buffers":
                head, raw = bytearray(head), [bytearray(b) for b in raw]
            elif mode == "shared memory":
                head, raw = memoryview(head).cast("b"), [memoryview(b).cast("b").toreadonly() for b in raw]
            for n in range(2):
                g = ser.deserialize_complex_data(head, raw, count)
                ctx.check(eq(v, g), "value read differs from the one stored" if n == 0 else
                          "value read again differs from the one stored", lambda: f"{v!r} -> {g!r}"[:400])
            ctx.check(len(raw) == sum(count), "buffers and their counts do not match")
            if raw:
                ctx.reach("out-of-band")
            ctx.reach("read back")
            ctx.check(gc.isenabled(), "garbage collection of the process left disabled")

    return h


def flat(n, kinds, containers):
    def build(ctx, main):
        return container(ctx, containers, [leaf(ctx, kinds, main) for _ in range(n)])

    return build


def deep(kinds, inner, outer):
    def build(ctx, main):
        a = container(ctx, inner, [leaf(ctx, ARR, main), leaf(ctx, kinds, main)])
        b = leaf(ctx, ARR, main)
        c = container(ctx, outer, [a, b] if ctx.value(ctx.bool("container first")) else [b, a])
        return c

    return build


def bare(ctx, main):
    return leaf(ctx, ALL, main)


# --------------------------------------------------------------------------- snapshots

class Holder:
    """Keeps and changes what it gave away."""

    def __init__(self):
        import numpy as np

        self.list = [1, [2]]
        self.array = np.full(30, 4, dtype="int64")

    def give(self, token, what):
        return {"list": self.list, "array": self.array, "both": (self.list, self.array)}[what]

    def change(self, token):
        self.list.append(9)
        self.list[1].append(9)
        self.array[:] = 9
        return 1


def plain(x):
    if isinstance(x, (list, tuple)):
        return [plain(i) for i in x]
    return x.tolist() if hasattr(x, "tolist") else x


def look(token, x):
    return plain(x)


def spoil(x):
    """Change a value that was read, as far as it allows it."""
    for v in x if isinstance(x, tuple) else [x]:
        try:
            if isinstance(v, list):
                v.append(7)
                v[1].append(7)
            else:
                v[:] = 7
        except ValueError:  # read-only
            pass


def snapshots(steps, n, shared, deviations):
    """Values put or returned, then changed by their producer; read by the main program and by
    tasks on several workers, repeatedly."""

    def h(ctx):
        run = Run(ctx, n, shared=shared, deviations=deviations,
                  environ={"UNIDIST_MPI_PICKLE_THRESHOLD": str(ctx.pick("pickle threshold", [64, 10**6]))})

        def main(u, r):
            import numpy as np

            actor = u.remote(Holder).remote()
            kinds = {"list": [1, [2]], "array": [4] * 30, "both": [[1, [2]], [4] * 30]}
            what = ctx.pick("value", list(kinds))
            want = kinds[what]
            if ctx.value(ctx.bool("put")):
                orig = [1, [2]], np.full(30, 4, dtype="int64")
                ref = u.put({"list": orig[0], "array": orig[1], "both": orig}[what])

                def change():
                    orig[0].append(9)
                    orig[0][1].append(9)
                    orig[1][:] = 9
            else:
                ref = actor.give.remote(r.token(), what)

                def change():
                    u.get(actor.change.remote(r.token()))
            spoiled = False
            for _ in range(steps):
                op = ctx.pick("op", ["change", "task", "two tasks"] + ([] if spoiled else ["get"])
                              + (["spoil"] if shared and what == "array" and not spoiled else []))
                if op == "change":
                    change()
                elif op == "spoil":
                    # what is in shared memory must not change; the program's own view is its business
                    spoil(u.get(ref))
                    spoiled = True
                elif op == "get":
                    g = plain(u.get(ref))
                    ctx.check(g == want, "stored value changed", f"{g} instead of {want}")
                    ctx.reach("read")
                else:
                    for x in [r.call(look, r.token(), ref) for _ in range(2 if op == "two tasks" else 1)]:
                        g = u.get(x)
                        ctx.check(g == want, "stored value changed", f"{g} instead of {want}")
                    ctx.reach("read")

        run.run(main)

    return h


def harnesses(tier):
    q = tier == "quick"
    out = [
        Harness("values", roundtrip(bare), "single values of every kind, threshold any number in [1, 400]", ["read back", "out-of-band"],
                budget=40, tbudget=300, stubs=STUBS),
        Harness("several", roundtrip(flat(2, ALL, ["list", "tuple", "dict", "object array"]), ["receive buffers"]) if q else
                roundtrip(flat(3, ALL, ["list", "tuple", "dict"])),
                f"{2 if q else 3} values of every kind in a container, threshold any number in [1, 400]", ["read back", "out-of-band"],
                budget=70, tbudget=3000, stubs=STUBS),
        Harness("nested", roundtrip(deep(["number", "array", "function"], ["list", "tuple", "dict"], ["list", "dict"]), ["bytes", "shared memory"]) if q else
                roundtrip(deep(ALL, ["list", "tuple", "dict", "object array"], ["list", "tuple", "dict"])),
                "containers in containers with buffers of different sizes, threshold any number in [1, 400]", ["read back", "out-of-band"],
                budget=70, tbudget=3000, stubs=STUBS),
    ]
    for shared in (False, 100):
        out.append(Harness("snapshots" + (", shared" if shared else ""), snapshots(3 if q else 4, 4 if q else 5, shared, 0 if q else 1),
                           f"{3 if q else 4} steps of changing and reading, {'shared' if shared else 'local'} store", ["read"],
                           budget=60, tbudget=1500, stubs=["MPI transport: vf.simmpi"]))
    return out

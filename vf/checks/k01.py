"""K01: the front end forwards calls faithfully to every backend."""
import os
import pickle

from .. import prog, pyprog, simlibs, simmpi
from ..engine import is_sym
from ..prog import same
from ..pyprog import Machine
from ..run import Harness

ASSUMPTIONS = ["stand-ins for ray and distributed (vf/simlibs.py): tasks run when submitted, which of them count as completed at a "
               "wait is symbolic"]
OUTSIDE = ["the libraries ray and distributed themselves", "options the front end does not know", "longer programs than stated"]
STUBS = ["ray, distributed -> vf/simlibs.py"]
LIBS = {"ray": simlibs.Ray, "dask": simlibs.Dask}


class LibRun(prog.Run):
    def __init__(self, ctx, backend):
        self.ctx, self.tok, self.fns, self.backend = ctx, 0, {}, backend
        self.lib = LIBS[backend](ctx) if backend in LIBS else None

    def run(self, program, init=True):
        prog.reset()
        drop = {k: os.environ.pop(k) for k in list(os.environ) if k.startswith("UNIDIST_")}
        env = self.lib.env({"UNIDIST_RAY_OBJECT_STORE_MEMORY": "1000000000", "UNIDIST_CPUS": "3"}) if self.lib else simmpi.Env(
            environ={"UNIDIST_BACKEND": self.backend})
        try:
            with env:
                self.u = env.imp("unidist")
                if init:
                    self.u.init()
                prog.guarded(self.ctx, program, self.u, self)
        finally:
            os.environ.update(drop)
            self.fns.clear()


class LibMachine(Machine):
    outputs = [(2, "list", 2), (3, "tuple", 4)]

    def op_method(self, options=("add", "two", "none")):
        if self.actors and self.ctx.pick("handle", ["itself", "transferred"]) == "transferred":
            # a handle that was sent to another process and back is as good
            act = self.actors[-1]
            act[0] = pickle.loads(pickle.dumps(act[0]))
        super().op_method(options)


def programs(backend, ops, steps):
    def h(ctx):
        def program(u, r):
            LibMachine(ctx, u, r).run(ops, steps)
            ctx.reach("end")

        LibRun(ctx, backend).run(program)

    return h


def marker(token, *args, **kwargs):
    prog.LOG.append(("start", token))
    return [token, 1, 2, 3]


class Thing:
    def __init__(self, *args, **kwargs):
        self.args = (args, kwargs)

    def many(self, n, *args, **kwargs):
        return [n + i for i in range(6)]

    def seen(self):
        return self.args


def _maybe(ctx, name, make):
    return make() if ctx.pick(name + "?", [False, True]) else None


def options(backend):
    """Effective options of every call in a history of calls on one remote function."""

    def h(ctx):
        run = LibRun(ctx, backend)

        def program(u, r):
            ncpu = lambda: ctx.int("cpus", 0, 8)  # noqa: E731
            dec = {"num_cpus": _maybe(ctx, "decorator cpus", ncpu) if backend == "ray" else None,
                   "num_returns": ctx.pick("decorator returns", [None, 0, 1, 2]),
                   "resources": _maybe(ctx, "decorator resources", lambda: {"a": ncpu()}) if backend == "ray" else None}
            given = {k: v for k, v in dec.items() if v is not None}
            f = (u.remote(**given) if given else u.remote)(marker)
            for _ in range(2):
                opt = {}
                if ctx.pick("with options", [False, True]):
                    if backend == "ray":
                        opt = {"num_cpus": _maybe(ctx, "cpus", ncpu), "resources": _maybe(ctx, "resources", lambda: {"b": ncpu()})}
                    opt["num_returns"] = ctx.pick("returns", [None, 0, 1, 3])
                    call = f.options(**opt).remote
                else:
                    call = f.remote
                v = ctx.int("v", -9, 9)
                before = len(run.lib.calls)
                t = r.token()
                out = call(t, v, named=v)
                eff = {k: opt[k] if opt.get(k) is not None else dec[k] for k in dec}
                n = 1 if eff["num_returns"] is None else eff["num_returns"]
                mine = [c for c in run.lib.calls[before:] if c[1] and c[1][0] == t]
                ctx.check(len(mine) == 1, "a call reaches the backend another number of times", str(len(mine)))
                _, args, kwargs, opts = mine[0]
                ctx.check(same([list(args[1:]), dict(kwargs)], [[v], {"named": v}]), "arguments reach the backend changed",
                          f"{args} {kwargs}")
                if backend == "ray":
                    for k in ("num_cpus", "resources"):
                        a, b = opts.get(k), eff[k]
                        if a is None or b is None:
                            ctx.check(a is None and b is None, f"{k} reaches the backend changed", f"{a} instead of {b}")
                        else:
                            ctx.check(same(a, b), f"{k} reaches the backend changed", f"{a} instead of {b}")
                    ctx.check((opts.get("num_returns") or (0 if opts.get("num_returns") == 0 else 1)) == n,
                              "num_returns reaches the backend changed")
                if n == 0:
                    ctx.check(out is None, "a call with num_returns=0 does not return None")
                elif n == 1:
                    ctx.check(u.is_object_ref(out), "a call does not return a ref")
                    ctx.check(u.get(out) == [t, 1, 2, 3], "get returns another value")
                else:
                    ctx.check(isinstance(out, list) and len(out) == n and all(u.is_object_ref(o) for o in out),
                              "number of refs differs from num_returns")
                    ctx.check(u.get(out) == [t, 1, 2, 3][:n], "outputs are mixed up")
            ctx.reach("end")

        run.run(program)

    return h


def actor_options(ctx):
    run = LibRun(ctx, "ray")

    def program(u, r):
        ncpu = lambda: ctx.int("cpus", 0, 8)  # noqa: E731
        dec = {"num_cpus": _maybe(ctx, "decorator cpus", ncpu),
               "resources": _maybe(ctx, "decorator resources", lambda: {"a": ncpu()})}
        given = {k: v for k, v in dec.items() if v is not None}
        C = (u.remote(**given) if given else u.remote)(Thing)
        for _ in range(2):
            opt = {}
            if ctx.pick("with options", [False, True]):
                opt = {"num_cpus": _maybe(ctx, "cpus", ncpu), "resources": _maybe(ctx, "resources", lambda: {"b": ncpu()})}
                make = C.options(**opt).remote
            else:
                make = C.remote
            v = ctx.int("v", -9, 9)
            before = len(run.lib.calls)
            a = make(v, named=v)
            mine = [c for c in run.lib.calls[before:] if c[0] is Thing]
            ctx.check(len(mine) == 1, "an actor is created another number of times")
            ctx.check(same([list(mine[0][1]), dict(mine[0][2])], [[v], {"named": v}]), "constructor arguments are changed")
            for k in dec:
                want = opt[k] if opt.get(k) is not None else dec[k]
                got = mine[0][3].get(k)
                if got is None or want is None:
                    ctx.check(got is None and want is None, f"{k} reaches the backend changed", f"{got} instead of {want}")
                else:
                    ctx.check(same(got, want), f"{k} reaches the backend changed", f"{got} instead of {want}")
            b = make(v + 1)
            ctx.check(same(list(map(list, u.get(b.seen.remote()))), [[v + 1], []]), "constructor arguments are changed")
            got = u.get(a.seen.remote())
            ctx.check(same([list(got[0]), dict(got[1])], [[v], {"named": v}]), "two actors are the same")
            n = ctx.pick("returns", [1, 2, 3])
            m = a.many
            got = (m.options(num_returns=n).remote if n > 1 else m.remote)(v)
            ctx.check(same(u.get(got), [v + i for i in range(n if n > 1 else 6)]), "outputs are mixed up")
            got = m.remote(v)
            ctx.check(u.is_object_ref(got), "options of one method call leak into another")
        ctx.reach("end")

    run.run(program)


def unsupported(ctx):
    """Options a backend cannot honour are refused, whatever their value."""
    backend = ctx.pick("backend", ["dask", "pyseq"])
    run = LibRun(ctx, backend)

    def program(u, r):
        val = ctx.pick("value", ["number", "dict"])
        opt = {"num_cpus": ctx.int("cpus", 0, 4)} if val == "number" else {"resources": {"a": ctx.int("amount", 0, 4)}}
        where = ctx.pick("where", ["decorator", "options"])
        what = ctx.pick("what", [marker, Thing])
        t = r.token()
        target = u.remote(**opt)(what) if where == "decorator" else u.remote(what).options(**opt)
        try:
            target.remote(t)
        except NotImplementedError:
            ctx.reach("refused")
        else:
            ctx.fail("an option the backend does not support is ignored", f"{opt} {where}")
        ctx.check(not prog.executed(t), "a refused call is executed")
        plain = u.remote(what)
        plain.remote(r.token())

    run.run(program)


def invalid(ctx):
    """Decorator arguments are validated."""
    backend = ctx.pick("backend", ["ray", "dask", "pyseq"])
    run = LibRun(ctx, backend)

    def program(u, r):
        kind = ctx.pick("kind", ["integer", "other", "class", "object"])
        if kind == "integer":
            n = ctx.int("num_returns", -3, 5)
            try:
                f = u.remote(num_returns=n if not is_sym(n) else int(n))(marker)
            except ValueError:
                ctx.check(n < 0, "a valid number of outputs is refused")
            else:
                ctx.check(n >= 0, "a negative number of outputs is accepted")
                ctx.check(hasattr(f, "remote"), "no remote function")
        elif kind == "other":
            bad = ctx.pick("value", ["2", 1.5, [1], "x"])
            try:
                u.remote(num_returns=bad)(marker)
            except ValueError:
                pass
            else:
                ctx.fail("a number of outputs that is no integer is accepted", repr(bad))
        elif kind == "class":
            try:
                u.remote(num_returns=ctx.pick("n", [0, 1, 2]))(Thing)
            except TypeError:
                pass
            else:
                ctx.fail("num_returns is accepted for an actor class")
        else:
            try:
                u.remote(num_returns=1)(3)
            except TypeError:
                pass
            else:
                ctx.fail("something that is neither function nor class is accepted")
        for direct in (u.remote(marker), u.remote(Thing)):
            try:
                direct(1)
            except TypeError:
                pass
            else:
                ctx.fail("a direct call is not refused")
        ctx.reach(kind)

    run.run(program)


def refs(backend):
    """get and wait take refs singly and in lists; every ref is wrapped and unwrapped unchanged."""

    def h(ctx):
        run = LibRun(ctx, backend)

        def program(u, r):
            vals = [ctx.int("v", -9, 9), [ctx.int("w", -9, 9)], {"k": None}, (), None, "s"][: 6 if ctx.eager else 6]
            rs = [u.put(v) for v in vals]
            ctx.check(all(u.is_object_ref(x) for x in rs) and not any(u.is_object_ref(v) for v in vals), "refs are not recognised")
            i, j = ctx.pick("i", list(range(6))), ctx.pick("j", list(range(6)))
            got = u.get([rs[i], rs[j], rs[i]])
            ctx.check(isinstance(got, list) and same(got, [vals[i], vals[j], vals[i]]), "get of a list differs")
            ctx.check(same(u.get(rs[i]), vals[i]), "get of a ref differs")
            ctx.check(same(u.get([rs[j]]), [vals[j]]), "get of a one-element list differs")
            ctx.check(same(u.get((rs[j], rs[i])), [vals[j], vals[i]]), "get of a tuple differs")
            ready, rest = u.wait(rs[i])
            ctx.check(len(ready) == 1 and not rest and ready[0]._ref is rs[i]._ref, "wait of a single ref differs")
            if i < 4:
                n = ctx.pick("n", [1, 2, 3])
                three = [rs[i], rs[(i + 1) % 6], rs[(i + 2) % 6]]
                ready, rest = u.wait(three, num_returns=n)
                ctx.check(len(ready) == n and len(rest) == 3 - n, "wait returns another number of refs")
                ctx.check(sorted(repr(x._ref) for x in ready + rest) == sorted(repr(x._ref) for x in three),
                          "wait loses, duplicates or invents refs")
                ctx.check(all(u.is_object_ref(x) for x in ready + rest), "wait returns something else than refs")
            # refs as arguments, also nested
            back = u.get(r.call(prog.echo, r.token(), rs[i], k=rs[j]))
            ctx.check(same(back, [[vals[i]], {"k": vals[j]}]), "refs given as arguments are not replaced by their values", repr(back))
            nested = [rs[i], (rs[j], {"x": rs[i]}), 5]
            got = u.get(r.call(prog.echo, r.token(), nested))[0][0]
            if backend == "dask":
                ctx.check(same(got, [vals[i], (vals[j], {"x": vals[i]}), 5]), "nested refs are not replaced by their values", repr(got))
            else:
                flat = [got[0], got[1][0], got[1][1]["x"]]
                ctx.check(all(u.is_object_ref(x) for x in flat) and same(u.get(flat), [vals[i], vals[j], vals[i]]) and got[2] == 5,
                          "nested refs do not arrive", repr(got))
            ctx.check(len(nested) == 3 and nested[0] is rs[i] and type(nested[1]) is tuple, "the caller's arguments are changed")
            ctx.reach("end")

        run.run(program)

    return h


def repeat(backend):
    """Equal calls are as many calls."""

    def h(ctx):
        run = LibRun(ctx, backend)

        def program(u, r):
            f, A = u.remote(prog.total), u.remote(prog.Acc)
            v = ctx.int("v", -9, 9)
            n = ctx.pick("calls", [2, 3])
            what = ctx.pick("what", ["task", "outputs", "method", "method outputs", "actor"])
            args = ctx.pick("arguments", ["values", "refs"])
            x = u.put(v) if args == "refs" else v
            if what == "task":
                got = u.get([f.remote("same", x, 1) for _ in range(n)])
                ctx.check(same(got, [v + 1] * n), "get returns another value")
            elif what == "outputs":
                got = [u.get(u.remote(prog.fan).options(num_returns=2).remote("same", 2, x)) for _ in range(n)]
                ctx.check(same(got, [[v, v + 1]] * n), "get returns another value", repr(got))
            elif what == "method":
                a = A.remote(0)
                got = [u.get(a.add.remote("same", x)) for _ in range(n)]
                ctx.check(same(got, [v * (i + 1) for i in range(n)]), "equal method calls are not as many calls", repr(got))
            elif what == "method outputs":
                a = A.remote(v)
                got = [u.get(a.two.options(num_returns=2).remote("same")) for _ in range(n)]
                ctx.check(same(got, [[v, i + 1] for i in range(n)]), "equal method calls are not as many calls", repr(got))
            else:
                acts = [A.remote(v) for _ in range(n)]
                got = [u.get(a.add.remote("same", 1)) for a in acts]
                ctx.check(same(got, [v + 1] * n), "actors share state", repr(got))
            k = len([e for e in prog.LOG if e == ("start", "same")])
            ctx.check(k == n, "equal calls are not executed as many times", f"{k} times instead of {n}")
            ctx.reach(what)

        run.run(program)

    return h


def select(ctx):
    """The configured backend is the one that runs, and initialisation happens once and on demand."""
    backend = ctx.pick("backend", ["ray", "dask", "pyseq"])
    run = LibRun(ctx, backend)

    def program(u, r):
        first = ctx.pick("first", ["init", "put", "is_initialized"])
        if first == "is_initialized":
            ctx.check(not u.is_initialized(), "reported as initialized before it is")
            u.init()
        elif first == "init":
            u.init()
        else:
            ctx.check(same(u.get(u.put(7)), 7), "get returns another value")
        ctx.check(u.is_initialized(), "not initialized after initialization")
        u.init()
        ctx.check(same(u.get(u.put(8)), 8), "get returns another value")
        if run.lib:
            ctx.check(len(run.lib.refs) > 0, "another backend than the configured one is used")
            ctx.check(len([x for x in run.lib.log if x[0] == "init"]) == 1, "the backend is started another number of times")
            kw = [x for x in run.lib.log if x[0] == "init"][0][1]
            ctx.check(kw.get("num_cpus", kw.get("n_workers")) == 3, "the backend is started with another number of workers")
            want = {"ray": (5, {"10.0.0.7": {"CPU": 3}, "10.0.0.8": {"CPU": 2}}),
                    "dask": (2, {"10.0.0.7": {"CPU": 1}, "10.0.0.9": {"CPU": 2}})}[backend]
            ctx.check((u.num_cpus(), u.cluster_resources()) == want, "cluster resources differ",
                      f"{u.num_cpus()} {u.cluster_resources()}")
            ctx.check(u.get_ip() == "10.0.0.7", "address differs")
            u.shutdown()
            ctx.check(run.lib.log[-1] == ("shutdown",), "shutdown does not reach the backend")
        ctx.reach(backend)

    run.run(program, init=False)


def harnesses(tier):
    q = tier == "quick"
    ops = ("put", "total", "echo", "outputs", "none", "cond", "container", "actor", "method", "get", "wait")
    k = 2 if q else 3
    hs = []
    for b in ("ray", "dask"):
        hs += [
            Harness(f"programs-{b}", programs(b, [("put", "cond")] + [ops] * k, k + 1),
                    f"every program of {k + 1} operations on the {b} wrappers; payloads and failure limits symbolic, completion at wait "
                    "symbolic", ["end"], budget=60, tbudget=2000, stubs=STUBS),
            Harness(f"options-{b}", options(b), "every combination of decorator and per-call options over 2 calls, option values symbolic",
                    ["end"], budget=40, tbudget=600, stubs=STUBS),
            Harness(f"volume-{b}", lambda ctx, b=b: LibRun(ctx, b).run(lambda u, r: pyprog.volume(ctx, u, r, 120, wait=False)),
                    "120 values and tasks, 40 calls of an actor, 20 failures, 30 outputs", ["volume"], budget=20, tbudget=60, stubs=STUBS),
            Harness(f"repeat-{b}", repeat(b), "2..3 equal calls of a function, a method or a class", ["task", "outputs", "method", "method outputs",
                    "actor"], budget=30, tbudget=100, stubs=STUBS),
            Harness(f"refs-{b}", refs(b), "get, wait and arguments with refs to 6 kinds of values", ["end"], budget=30, tbudget=300,
                    stubs=STUBS),
        ]
    hs += [
        Harness("actor-options", actor_options, "decorator and per-call options of actors over 2 creations", ["end"], budget=40,
                tbudget=600, stubs=STUBS),
        Harness("unsupported", unsupported, "options refused by dask and the sequential backend, values symbolic (including 0)", ["refused"],
                budget=20, tbudget=60, stubs=STUBS),
        Harness("invalid", invalid, "decorator arguments, num_returns symbolic", ["integer", "other", "class", "object"], budget=20,
                tbudget=60, stubs=STUBS),
        Harness("select", select, "three configurable backends, three ways to start", ["ray", "dask", "pyseq"], budget=20, tbudget=60,
                stubs=STUBS),
    ]
    return hs

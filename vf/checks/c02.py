"""C02: spawned workers see the configuration of the main program."""
import os
import sys
import types

from .. import symstr
from ..run import Harness
from ..simmpi import _Ns
from ..solo import Solo
from .c01 import kind, parameters

ASSUMPTIONS = ["the code given to the spawned interpreters is executed by Python as given (-c)",
               "values are valid for their parameter (C01 decides validation)"]
OUTSIDE = ["values longer than stated", "what the MPI library does with the list of hosts"]
STUBS = ["MPI.COMM_SELF.Spawn -> records the interpreter's arguments and stops", "unidist.init of the spawned process -> nothing"]

NASTY = "a,'\"\\\n;{}"


def relevant(name):
    """Parameters of the MPI backend."""
    return name.startswith("Mpi") or name in ("Backend", "CpuCount")


class Spawned(BaseException):
    pass


def values(ctx, p, few=False):
    k = kind(p)
    if few:
        return ctx.pick(p.__name__, {"bool": [True, False], "int": [3, 1 << 33], "float": [0.25], "exact": ["h'1\n,h2"]}[k])
    if k == "bool":
        return ctx.pick(p.__name__, [True, False])
    if k == "int":
        return ctx.pick(p.__name__, [1, 3, 1 << 33])
    if k == "float":
        return ctx.pick(p.__name__, [0.25, 1e-9, 1e20])
    if k == "exact":
        s = symstr.string(ctx, p.__name__, range(1, 3), NASTY)
        return s.concrete() if isinstance(s, symstr.SymStr) else s
    return None


def text(v):
    return v if isinstance(v, str) else ("%f" % v if isinstance(v, float) else str(v))


def launch(ctx, library, environ, settings, runtime=None, cpus=None, early=None, interpreter=None):
    """init() of the main program up to the spawn; settings: [(parameter name, value)] put in this
    order.  Returns (arguments, number of processes, info, {parameter: value})."""
    s = Solo(ctx, n=1, me=0, library=library)
    s.world.environ = dict(environ)
    with s:
        if interpreter is not None:
            s.env.replace = ([(sys, _Ns(sys, **interpreter))] + [(getattr(sys, k), v) for k, v in interpreter.items()]
                             + s.env.replace)
        got = {}
        MPI = s.imp("mpi4py.MPI")

        def spawn(command, args=None, maxprocs=1, info=None, root=0, errcodes=None):
            got.update(args=list(args or []), n=maxprocs, info=dict(info or {}))
            raise Spawned()

        MPI.COMM_SELF.Spawn = spawn
        cfg = s.imp("unidist.config")
        if early == "before":
            for p in parameters(cfg):
                p.get()
        for name, v in settings:
            getattr(cfg, name).put(v)
        if cpus is not None:
            cfg.CpuCount.put(cpus)
        if runtime is not None:
            cfg.MpiRuntimeEnv.put({"env_vars": dict(runtime)})
        if early == "after":
            for p in parameters(cfg):
                p.get()
        try:
            s.imp("unidist.core.backends.mpi.core.controller.api").init()
        except Spawned:
            pass
        ctx.check("args" in got, "no process is spawned")
        vals = {p.__name__: p.get() for p in parameters(cfg) if relevant(p.__name__)}
    return got["args"], got["n"], got["info"], vals


def child(ctx, args, environ):
    """Configuration and environment a spawned interpreter ends up with."""
    ctx.check("-c" in args, "spawned interpreter gets no program", str(args))
    code = args[args.index("-c") + 1]
    s = Solo(ctx, n=1, me=0)
    s.world.environ = dict(environ)
    saved = dict(os.environ)
    try:
        with s:
            u = s.imp("unidist")
            u.init = lambda: None
            try:
                exec(compile(code, "<spawned>", "exec"), {"__name__": "__main__"})
            except Exception as e:  # noqa: BLE001 - the spawned interpreter would die
                ctx.fail("spawned process fails to start", f"{e!r}: {code}")
            cfg = s.imp("unidist.config")
            vals = {}
            for p in filter(lambda p: relevant(p.__name__), parameters(cfg)):
                try:
                    vals[p.__name__] = p.get()
                except ValueError as e:
                    vals[p.__name__] = repr(e)
            env = dict(os.environ)
    finally:
        os.environ.clear()
        os.environ.update(saved)
    return vals, env


def compare(ctx, mine, theirs):
    for k in mine:
        want = "mpi" if k == "Backend" else mine[k]
        ctx.check(type(theirs[k]) is type(want) and theirs[k] == want, "spawned process sees another configuration",
                  f"{k}: {theirs[k]!r} instead of {want!r}")


NAMES = None


def names(ctx):
    global NAMES
    if NAMES is None:
        with Solo(ctx, n=1, me=0) as s:
            NAMES = [(p.__name__, kind(p), p.varname) for p in parameters(s.imp("unidist.config")) if relevant(p.__name__) and p.__name__ != "Backend"]
    return NAMES


class P:
    def __init__(self, name, kind_):
        self.__name__ = name
        self.type = type("ExactStr" if kind_ == "exact" else kind_, (), {})


def config(k, usable):
    """k parameters set by the program or by the environment."""

    def h(ctx):
        todo = list(names(ctx))
        env, settings = {}, []
        for i in range(k):
            x = ctx.pick("parameter", todo)
            todo = todo[todo.index(x) + 1:] if i < k - 1 else todo
            name, kd, var = x
            v = values(ctx, P(name, kd), k > 1)
            if name == "CpuCount":
                v = min(v, 3)
            if name == "MpiSpawn":
                v = True
            if ctx.value(ctx.bool("by the program")):
                settings.append((name, v))
            elif kd == "float" and text(v) != "0.250000":
                env[var] = "0.5"
            elif "\x00" in text(v):
                continue
            else:
                env[var] = text(v)
            if not todo:
                break
        args, n, info, mine = launch(ctx, "Open MPI 4.1", env, settings, early=ctx.pick("read", [None, "before", "after"]))
        theirs, _ = child(ctx, args, env if ctx.value(ctx.bool("environment inherited")) else {})
        compare(ctx, mine, theirs)
        ctx.reach("compared")

    return h


def everything(ctx):
    """All parameters set at once, each by the program or by the environment."""
    how = ctx.pick("how", ["program", "environment", "mixed", "mixed2"])
    env, settings = {}, []
    for i, (name, kd, var) in enumerate(names(ctx)):
        v = {"bool": True, "int": 3 + i, "float": 0.5, "exact": "h1"}[kd]
        by_program = how == "program" or (how == "mixed" and i % 2 == 0) or (how == "mixed2" and i % 2 == 1)
        if by_program:
            settings.append((name, v))
        else:
            env[var] = text(v)
    args, n, info, mine = launch(ctx, "Open MPI 4.1", env, settings)
    theirs, _ = child(ctx, args, {})
    compare(ctx, mine, theirs)
    ctx.reach("compared")


def runtime(ctx):
    """Environment variables requested for the spawned processes."""
    s = symstr.string(ctx, "value", range(0, 3), NASTY)
    v = s.concrete() if isinstance(s, symstr.SymStr) else s
    more = ctx.pick("second", [None, 5, True, "x"])
    rt = {"VF_A": v}
    if more is not None:
        rt["VF_B"] = more
    args, n, info, mine = launch(ctx, "Open MPI 4.1", {}, [], runtime=rt)
    theirs, env = child(ctx, args, {})
    for k, x in rt.items():
        ctx.check(env.get(k) == str(x), "environment variable of the spawned processes differs", f"{k}: {env.get(k)!r} instead of {x!r}")
    compare(ctx, mine, theirs)
    ctx.reach("compared")


FLAGS = {"debug": "d", "isolated": "I", "optimize": "O", "dont_write_bytecode": "B", "no_user_site": "s", "no_site": "S",
         "ignore_environment": "E", "verbose": "v", "bytes_warning": "b", "quiet": "q", "inspect": "i", "interactive": "i"}


def interpreter(ctx):
    """Options the main program's interpreter was started with."""
    flags = {k: getattr(sys.flags, k) * 0 for k in dir(sys.flags) if isinstance(getattr(sys.flags, k), int)}
    for _ in range(2):
        flags[ctx.pick("flag", list(FLAGS))] = ctx.value(ctx.int("times", 1, 3))
    warn = ctx.pick("warnings", [[], ["ignore"], ["error", "default::UserWarning"]])
    xopts = ctx.pick("-X", [{}, {"dev": True}, {"utf8": "1", "other": "a=b"}])
    args, n, info, mine = launch(ctx, "Open MPI 4.1", {}, [], interpreter=dict(
        flags=types.SimpleNamespace(**flags), warnoptions=list(warn), _xoptions=dict(xopts)))
    opts = args[:args.index("-c")]
    letters = "".join(o[1:] for o in opts if o[1] not in "WX")
    ctx.check(all(o.startswith("-") and len(o) > 1 for o in opts), "option no interpreter understands", str(opts))
    for k, c in FLAGS.items():
        want = 0 if c == "i" else flags[k]
        ctx.check(letters.count(c) == want, "spawned interpreter runs with other options", f"{c} {want} times: {opts}")
    ctx.check([o[2:] for o in opts if o.startswith("-W")] == warn, "spawned interpreter runs with other warning filters", str(opts))
    x = dict((o[2:].split("=", 1) + [True])[:2] for o in opts if o.startswith("-X"))
    ctx.check(x == xopts, "spawned interpreter runs with other -X options", str(opts))
    theirs, _ = child(ctx, args, {})
    compare(ctx, mine, theirs)
    ctx.reach("compared")


LIBS = ["Open MPI 4.1", "Intel(R) MPI Library 2021.8", "MPICH Version: 4.1", "MPICH Version: 4.2.0"]


def processes(max_cpus, max_hosts):
    """Number of processes and their distribution."""

    def h(ctx):
        lib = ctx.pick("library", LIBS)
        shared = ctx.value(ctx.bool("shared store"))
        k = ctx.pick("hosts", range(0, max_hosts + 1))
        cpus = ctx.value(ctx.int("cpus", 1, max_cpus))
        hosts = [f"h{i}" for i in range(k)]
        settings = [("MpiSharedObjectStore", shared)]
        if k:
            settings.append(("MpiHosts", ",".join(hosts)))
        args, n, info, mine = launch(ctx, lib, {}, settings, cpus=cpus)
        supported = shared and lib != "MPICH Version: 4.1"
        monitors = max(1, k) if supported else 1
        ctx.check(n == cpus + monitors, "another number of processes is spawned than configured",
                  f"{n} for {cpus} workers and {monitors} monitors")
        text = ",".join(str(v) for v in info.values())
        if k > 1:
            for x in hosts:
                ctx.check(x in text.replace(":", ",").split(","), "host not given to MPI", f"{x}: {info}")
            if lib.startswith("Open MPI"):
                slots = [int(x.split(":")[1]) for x in text.split(",")]
                ctx.check(sum(slots) == n + 1 and max(slots) - min(slots) <= 1, "slots of the hosts do not fit the processes",
                          f"{slots} for {n}+1")
            ctx.reach("several hosts")
        ctx.reach("spawned")

    return h


def harnesses(tier):
    q = tier == "quick"
    return [
        Harness("one parameter", config(1, None), "each parameter with values of every kind; strings of up to 2 characters over a 9-character alphabet with "
                "quotes, separators and line breaks", ["compared"], budget=60, tbudget=600, stubs=STUBS),
        Harness("two parameters", config(2, None), "every pair of parameters", ["compared"], budget=60, tbudget=600, stubs=STUBS),
        Harness("three parameters", config(3, None), "every three parameters", ["compared"], budget=60, tbudget=3000, stubs=STUBS,
                tier="thorough"),
        Harness("all parameters", everything, "all parameters set at once", ["compared"], budget=60, tbudget=100, stubs=STUBS),
        Harness("environment variables", runtime, "two variables, values of up to 2 characters over the same alphabet", ["compared"],
                budget=60, tbudget=600, stubs=STUBS),
        Harness("interpreter", interpreter, "every two of 12 interpreter flags given 1..3 times, warning filters and -X options", ["compared"],
                budget=60, tbudget=600, stubs=STUBS + ["sys.flags, sys.warnoptions, sys._xoptions -> chosen by the solver"]),
        Harness("processes", processes(5, 3) if q else processes(40, 6), f"1..{5 if q else 40} workers, 0..{3 if q else 6} hosts, 4 MPI libraries",
                ["spawned", "several hosts"], budget=60, tbudget=1200, stubs=STUBS),
    ]

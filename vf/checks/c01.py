"""C01: configuration values are validated, normalised and correctly prioritised."""
import os as real_os

from .. import symstr
from ..run import Harness
from ..simmpi import _Ns
from ..solo import Solo
from ..symstr import SymStr, equal, spelled, string

ASSUMPTIONS = [
    "an environment variable keeps its value between the first and the last look at a parameter",
    "numbers in decimal digits (with at most one point for a float) are valid; other spellings may be refused",
]
OUTSIDE = ["strings longer or over other alphabets than stated", "the default of Backend (depends on installed packages)"]
STUBS = ["os.environ seen by unidist.config: a dictionary with symbolic strings", "strings: symbolic characters (vf.symstr)"]

TRUE, FALSE = ("true", "yes", "1"), ("false", "no", "0")
ALPHABET = " \tTe1fN0\u00b2.-_"


class Sandbox(Solo):
    """unidist.config with a private environment."""

    def __enter__(self):
        self.vars = {}
        r = super().__enter__()
        environ = self.vars
        fake = _Ns(real_os, environ=environ, getenv=lambda k, d=None: environ.get(k, d))
        self.env.replace = [(real_os, fake)] + [x for x in self.env.replace if x[0] is not real_os]
        return r


def parameters(cfg):
    import inspect

    out = []
    for k in sorted(vars(cfg)):
        c = getattr(cfg, k)
        if inspect.isclass(c) and isinstance(getattr(c, "varname", None), str) and hasattr(c, "put"):
            out.append(c)
    return out


def kind(p):
    """str, exact, bool, int or float"""
    t = p.type
    return "exact" if t.__name__ == "ExactStr" else t.__name__


def text(ctx, p, name, longest):
    """A string as found in an environment variable."""
    k = kind(p)
    form = ctx.pick(name + " form", ["any", "word"])
    if form == "any":
        return string(ctx, name, range(0, longest + 1), ALPHABET)
    if k == "bool":
        return spelled(ctx, name, ctx.pick(name + " word", TRUE + FALSE + ("on",)))
    if k == "int":
        return spelled(ctx, name, ctx.pick(name + " word", ("0", "17", "1048576")))
    if k == "float":
        return spelled(ctx, name, ctx.pick(name + " word", ("0.5", "2", "12.25", "1.2.3")))
    ws = list(getattr(p, "choices", None) or ("some,host",)) + ["nobackend"]
    return spelled(ctx, name, ctx.pick(name + " word", ws))


def member(s, ws):
    for w in ws:
        if bool(equal(s, w)):
            return True
    return False


def plain(s):
    return s.concrete() if isinstance(s, SymStr) else s


def digits(cs):
    return bool(cs) and all(bool(_digit(c)) for c in cs)


def _digit(c):
    return symstr.all_of(c >= 48, c <= 57)


def decode(p, raw):
    """Meaning of a string: (accepted, value); accepted is True, False or None (may be refused)."""
    k = kind(p)
    if k == "exact":
        return True, raw
    if k == "str":
        v = raw.strip().lower()
        ch = getattr(p, "choices", None)
        return (True if ch is None or member(v, ch) else False), v
    t = raw.strip()
    if k == "bool":
        t = t.lower()
        if member(t, TRUE):
            return True, True
        return (True, False) if member(t, FALSE) else (False, None)
    cs = symstr.chars(t)
    if k == "int":
        if digits(cs):
            return True, int(plain(t))
        conv = int
    else:
        points = [i for i, c in enumerate(cs) if bool(c == ord("."))]
        if len(points) <= 1 and digits([c for i, c in enumerate(cs) if i not in points]):
            return True, float(plain(t))
        conv = float
    try:
        return None, conv(plain(t))
    except ValueError:
        return False, None


def same(ctx, got, want):
    if isinstance(want, str):
        return isinstance(got, str) and equal(got, want)
    return type(got) is type(want) and got == want


def default(p):
    if p.__name__ == "CpuCount":
        import multiprocessing

        return multiprocessing.cpu_count()
    return p.default


def attempt(fn):
    try:
        return True, fn()
    except ValueError as e:
        return False, e


class Model:
    """What a parameter should yield."""

    def __init__(self, ctx, p, env):
        self.ctx, self.p, self.env, self.user = ctx, p, env, None

    def expect(self, ok, got):
        """Outcome of get() is right."""
        ctx, p = self.ctx, self.p
        if self.user is not None:
            acc, want = self.user
            src = "value set by the program"
        elif self.env is not None:
            acc, want = decode(p, self.env)
            src = "environment"
        else:
            if p.__name__ == "Backend":
                return
            acc, want, src = True, default(p), "default"
        name = p.__name__
        if not ok:
            ctx.check(acc is not True, "valid value refused", f"{name}: {src}")
            return
        ctx.check(acc is not False, "invalid value used", lambda: f"{name}: {src} {plain(self.env) if self.user is None else ''} -> {got!r}")
        ctx.check(same(ctx, got, want), "parameter yields another value than it should",
                  lambda: f"{name}: {got!r} instead of {want!r} ({src})")
        self.ctx.reach(src)


def put(ctx, m, value):
    """The program sets a parameter."""
    p, k = m.p, kind(m.p)
    if isinstance(value, str):
        acc, want = decode(p, value)
    else:
        good = {"bool": bool, "int": int, "float": float}.get(k)
        acc, want = (good is not None and type(value) is good), value
        if k in ("int", "float") and isinstance(value, (int, float)) and type(value) is not good:
            # bool given for a number, number of the other type: either refused or converted exactly
            acc, want = None, good(value)
            if want != value:
                acc = False
    ok, r = attempt(lambda: p.put(value))
    choices = getattr(p, "choices", None)
    if ok:
        if acc is False and choices is None:
            ctx.fail("invalid value accepted", f"{p.__name__}.put({value!r})")
        m.user = (acc, want)
    else:
        ctx.check(acc is not True, "valid value refused", lambda: f"{p.__name__}.put({plain(value)!r})")
        ctx.reach("refused")


def texts(longest, select):
    """A string for one parameter, from the environment or from the program."""

    def h(ctx):
        with Sandbox(ctx) as s:
            cfg = s.imp("unidist.config")
            p = ctx.pick("parameter", [x for x in parameters(cfg) if x.__name__ in select or kind(x) in select])
            m = Model(ctx, p, None)
            t = text(ctx, p, "text", longest)
            if ctx.value(ctx.bool("in the environment")):
                m.env = s.vars[p.varname] = t
            else:
                put(ctx, m, t)
            m.expect(*attempt(p.get))
            m.expect(*attempt(p.get))

    return h


WORDS = {"bool": ["TRUE", " no", "maybe"], "int": [" 12", "x"], "float": ["0.5 ", "y"], "str": ["Dask", "nobackend"], "exact": ["Aa ", "b"]}
OBJECTS = [True, False, 3, 0, 2.5, None, "x y", "0", b"1"]


def histories(steps):
    """Histories of put and get of one parameter with or without a value in the environment."""

    def h(ctx):
        with Sandbox(ctx) as s:
            cfg = s.imp("unidist.config")
            p = ctx.pick("parameter", parameters(cfg))
            env = ctx.pick("environment", [None] + WORDS[kind(p)])
            if env is not None:
                s.vars[p.varname] = env
            m = Model(ctx, p, env)
            for i in range(steps):
                if ctx.value(ctx.bool("read")):
                    m.expect(*attempt(p.get))
                put(ctx, m, ctx.pick("object", WORDS[kind(p)][:2] + OBJECTS))
            m.expect(*attempt(p.get))

    return h


def many(ctx):
    """Setting one parameter leaves all others alone."""
    with Sandbox(ctx) as s:
        cfg = s.imp("unidist.config")
        ps = parameters(cfg)
        valid = {"bool": ["true", "no"], "int": ["12", "7"], "float": ["0.5", "3"], "str": ["mpi", "dask"], "exact": ["Aa", "b"]}
        models = []
        for p in ps:
            m = Model(ctx, p, None)
            models.append(m)
        e = ctx.pick("in the environment", models)
        e.env = s.vars[e.p.varname] = ctx.pick("env value", valid[kind(e.p)])
        early = ctx.value(ctx.bool("everything read before"))
        shared = [m for m in models if m.p.__name__ == "MpiSharedObjectStore"]
        if early:
            for m in models:
                if m.p.__name__ != "MpiPickleThreshold":
                    m.expect(*attempt(m.p.get))
        t = ctx.pick("set", models)
        put(ctx, t, ctx.pick("value", valid[kind(t.p)]))
        ctx.reach("set")
        for m in models:
            if m.p.__name__ == "MpiPickleThreshold" and shared:
                # documented: the shared store's threshold takes precedence
                if attempt(shared[0].p.get)[1] is True:
                    other = [x for x in models if x.p.__name__ == "MpiSharedObjectStoreThreshold"][0]
                    ok, got = attempt(m.p.get)
                    ctx.check(ok, "valid value refused")
                    other.expect(ok, got)
                    ctx.reach("threshold of the shared store")
                    continue
            m.expect(*attempt(m.p.get))


def harnesses(tier):
    q = tier == "quick"
    n = 2 if q else 3
    out = []
    for sel in (("bool",), ("int",), ("float",), ("str", "exact")):
        out.append(Harness("text: " + "/".join(sel), texts(n, sel), f"every {'/'.join(sel)} parameter; strings of up to {n} characters over a "
                           "12-character alphabet, and keywords in any case with padding",
                           ["environment", "value set by the program"], budget=40, tbudget=1800, stubs=STUBS))
    out.append(Harness("history", histories(1 if q else 2), f"every parameter, environment unset, valid or invalid, {1 if q else 2} puts of values of every "
                       "type with gets in between", ["environment", "value set by the program", "default", "refused"], budget=40, tbudget=1800, stubs=STUBS))
    out.append(Harness("all together", many, "every pair (environment, program) of parameters", ["set", "threshold of the shared store"],
                       budget=60, tbudget=300, stubs=STUBS))
    return out

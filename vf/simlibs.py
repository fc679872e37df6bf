"""Stand-ins for ray and distributed: small in-process implementations of the calls the wrappers use.

Tasks run when they are submitted; which tasks count as completed at a wait is a symbolic choice.
Every task's function, arguments and effective options are recorded."""
import pickle
import sys
import types

from .simmpi import Env

_OBJS = {}


def _find(key):
    return _OBJS[key]


class Ref:
    """A backend reference."""

    def __init__(self, lib, thunk):
        self.lib = lib
        self.key = f"{lib.name}-ref-{len(lib.refs)}"
        lib.refs.append(self)
        _OBJS[self.key] = self
        try:
            self.out = ("value", thunk())
        except Exception as e:  # noqa: BLE001 - outcome of the task
            self.out = ("raised", e)

    def __reduce__(self):
        return _find, (self.key,)

    def __repr__(self):
        return self.key

    def get(self):
        if self.out[0] == "raised":
            raise self.out[1]
        return self.out[1]

    result = get


class Lib:
    name = "?"

    def __init__(self, ctx):
        self.ctx, self.refs, self.calls, self.log = ctx, [], [], []
        _OBJS.clear()
        self.up = False

    def subset(self, refs, least):
        """Which of the refs are complete: any subset with at least `least` members."""
        n = len(refs)
        opts = [m for m in range(1 << n) if bin(m).count("1") >= least]
        m = self.ctx.pick("completed", opts)
        return [r for i, r in enumerate(refs) if m >> i & 1], [r for i, r in enumerate(refs) if not m >> i & 1]

    def env(self, environ=None):
        lib = self

        class LibEnv(Env):
            def activate(self):
                super().activate()
                mods = lib.modules()
                self._old = {k: sys.modules.get(k) for k in mods}
                sys.modules.update(mods)

            def deactivate(self):
                for k, v in self._old.items():
                    if v is None:
                        sys.modules.pop(k, None)
                    else:
                        sys.modules[k] = v
                super().deactivate()

        return LibEnv(environ={"UNIDIST_BACKEND": self.name, **(environ or {})})


# ------------------------------------------------------------------ ray
class Ray(Lib):
    name = "ray"

    def modules(self):
        lib = self
        m = types.ModuleType("ray")
        m.__path__ = []
        m.__version__ = "2.6.0"
        u = types.ModuleType("ray.util")
        u.get_node_ip_address = lambda *a: "10.0.0.7"
        m.util = u
        m.ObjectRef = Ref

        def init(*a, **kw):
            lib.up = True
            lib.log.append(("init", kw))

        def remote(*a, **kw):
            if len(a) == 1 and not kw:
                return RayTarget(lib, a[0], {})
            return lambda f: RayTarget(lib, f, kw)

        def get(refs, **kw):
            if isinstance(refs, list):
                if not all(isinstance(r, Ref) for r in refs):
                    raise TypeError("object refs expected")
                return [r.get() for r in refs]
            if not isinstance(refs, Ref):
                raise TypeError("object ref expected")
            return refs.get()

        def wait(refs, num_returns=1, timeout=None, fetch_local=True):
            if not isinstance(refs, list):
                raise TypeError("wait() expected a list of object refs")
            if len(set(refs)) != len(refs):
                raise ValueError("duplicate refs")
            if not 0 < num_returns <= len(refs):
                raise ValueError("num_returns")
            done, rest = lib.subset(refs, num_returns)
            return done[:num_returns], [r for r in refs if r not in done[:num_returns]]

        m.init, m.remote, m.get, m.wait = init, remote, get, wait
        m.put = lambda x: Ref(lib, lambda: x)
        m.is_initialized = lambda: lib.up
        m.shutdown = lambda *a, **k: lib.log.append(("shutdown",))
        m.cluster_resources = lambda: {"CPU": 5.0, "memory": 1.0}
        m.nodes = lambda: [{"NodeManagerAddress": "10.0.0.7", "Resources": {"CPU": 3.0}},
                           {"NodeManagerAddress": "10.0.0.8", "Resources": {"CPU": 2.0}}]
        return {"ray": m, "ray.util": u}


class RayTarget:
    def __init__(self, lib, f, opts):
        self.lib, self.f, self.opts = lib, f, opts

    def options(self, **kw):
        # ray ignores options that are None in favour of the decorator's
        return RayTarget(self.lib, self.f, {**self.opts, **kw})

    def remote(self, *args, **kwargs):
        if isinstance(self.f, type):
            return RayHandle(self.lib, self.f, args, kwargs, self.opts)
        return _ray_call(self.lib, self.f, args, kwargs, self.opts)


def _ray_call(lib, f, args, kwargs, opts):
    n = opts.get("num_returns")
    n = 1 if n is None else n
    lib.calls.append((f, args, kwargs, opts))

    def val(x):
        return x.get() if isinstance(x, Ref) else x

    def run():
        r = f(*[val(a) for a in args], **{k: val(v) for k, v in kwargs.items()})
        if n == 1:
            return r
        if n == 0:
            return None
        r = list(r)
        if len(r) < n:
            raise ValueError("too few outputs")
        return r

    base = Ref(lib, run)
    if n == 0:
        return None
    if n == 1:
        return base
    return [Ref(lib, lambda i=i: base.get()[i]) for i in range(n)]


class RayHandle:
    def __init__(self, lib, cls, args, kwargs, opts):
        self._lib, self._opts = lib, opts
        self._key = f"actor-{len(_OBJS)}"
        _OBJS[self._key] = self
        lib.calls.append((cls, args, kwargs, opts))
        self._obj = cls(*args, **kwargs)

    def __reduce__(self):
        return _find, (self._key,)

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        return RayTarget(self._lib, getattr(self._obj, name), {})


# ------------------------------------------------------------------ dask
class Dask(Lib):
    name = "dask"

    def modules(self):
        lib = self
        d = types.ModuleType("distributed")
        d.__path__ = []
        c = types.ModuleType("distributed.client")
        ut = types.ModuleType("distributed.utils")
        ut.get_ip = lambda *a: "10.0.0.7"

        def get_client(*a, **k):
            if not lib.up:
                raise ValueError("No global client found and no address provided")
            return lib.client

        def Client(*a, **kw):
            lib.up = True
            lib.log.append(("init", kw))
            lib.client = DaskClient(lib)
            return lib.client

        def wait(fs, timeout=None, return_when="ALL_COMPLETED"):
            fs = list(fs)
            if not fs:
                raise ValueError("wait for nothing")
            if return_when == "ALL_COMPLETED":
                return set(fs), set()
            done, rest = lib.subset(fs, 1)
            return set(done), set(rest)

        c.get_client, c.Client, c.wait, c.Future = get_client, Client, wait, Ref
        d.client, d.utils, d.get_client, d.Client, d.wait = c, ut, get_client, Client, wait
        return {"distributed": d, "distributed.client": c, "distributed.utils": ut}


class DaskClient:
    def __init__(self, lib):
        self.lib, self.pure = lib, {}

    def _val(self, x):
        if isinstance(x, Ref):
            return x.get()
        if type(x) in (list, tuple):
            return type(x)(self._val(y) for y in x)
        if type(x) is dict:
            return {k: self._val(v) for k, v in x.items()}
        return x

    def submit(self, f, *args, pure=True, actor=False, key=None, **kwargs):
        lib = self.lib
        lib.calls.append((f, args, kwargs, {"pure": pure, "actor": actor}))
        if actor:
            a, k = self._val(args), self._val(kwargs)
            return Ref(lib, lambda: DaskActor(lib, f(*a, **k)))
        if pure:
            # equal calls share one execution
            for g, a, k, r in self.pure.get(f.__qualname__, []):
                if g.__code__ is f.__code__ and repr((a, k)) == repr((args, kwargs)):
                    return r
        r = Ref(lib, lambda: f(*self._val(args), **self._val(kwargs)))
        if pure:
            self.pure.setdefault(f.__qualname__, []).append((f, args, kwargs, r))
        return r

    def gather(self, futures):
        if isinstance(futures, Ref):
            return futures.get()
        if not all(isinstance(f, Ref) for f in futures):
            raise TypeError("futures expected")
        return [f.get() for f in futures]

    def scatter(self, data, hash=True, **kw):
        # the elements of a collection become separate futures
        if isinstance(data, dict):
            return {k: Ref(self.lib, lambda x=x: x) for k, x in data.items()}
        if isinstance(data, (list, tuple, set, frozenset)):
            return type(data)([Ref(self.lib, lambda x=x: x) for x in data])
        return Ref(self.lib, lambda: data)

    def ncores(self):
        return {"tcp://a": 1, "tcp://b": 1}

    def scheduler_info(self):
        return {"workers": {"a": {"host": "127.0.0.1", "nthreads": 1}, "b": {"host": "10.0.0.9", "nthreads": 2}}}

    def shutdown(self):
        self.lib.log.append(("shutdown",))


class DaskActor:
    def __init__(self, lib, obj):
        self._lib, self._obj = lib, obj
        self._key = f"actor-{len(_OBJS)}"
        _OBJS[self._key] = self

    def __reduce__(self):
        return _find, (self._key,)

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        m = getattr(self._obj, name)
        return lambda *a, **k: Ref(self._lib, lambda: m(*a, **k))

"""Stand-in for Python's multiprocessing, for driving the real multiprocessing backend.

Processes are threads of this process that run one at a time under the symbolic scheduler of
``simmpi.World``; each has its own copy of the program's modules.  Starting a process copies the data
the modules and classes of the backend hold at that moment (what fork does).  Everything that crosses
a process boundary - queue items, values of the manager's dictionary, arguments and results of calls
to managed objects - is pickled and unpickled with the standard ``pickle``, as multiprocessing does.
"""
import io
import multiprocessing as real_mp
import multiprocessing.managers as real_managers
import pickle
import sys
import threading
import types
import weakref

from . import engine, prog, simmpi
from .simmpi import Env, Rank

_CURRENT = [None]  # the world that runs


def world():
    return _CURRENT[0]


class _Fake:
    """Base of the stand-ins that may be pickled: travels as a reference."""

    def __reduce__(self):
        return _find, (self._key,)


def _find(key):
    return world().objects[key]


def _transfer(x):
    return pickle.loads(pickle.dumps(x))


# ------------------------------------------------------------------ processes
class Process:
    def __init__(self, group=None, target=None, name=None, args=(), kwargs={}, *, daemon=None):
        self._target, self._args, self._kwargs = target, args, dict(kwargs)
        self._daemon, self._rank, self._started = bool(daemon), None, False
        self.name = name or type(self).__name__

    @property
    def daemon(self):
        return self._daemon

    @daemon.setter
    def daemon(self, v):
        self._daemon = bool(v)

    @property
    def pid(self):
        return None if self._rank is None else 1000 + self._rank

    ident = pid

    @property
    def exitcode(self):
        if self._rank is None or world().ranks[self._rank].state != "done":
            return None
        return 1 if world().ranks[self._rank].exc else 0

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        w = world()
        assert not self._started, "cannot start a process twice"
        assert w.cur.r == 0, "daemonic processes are not allowed to have children"
        self._started = True
        w.fork(self)

    def is_alive(self):
        return self._rank is not None and world().ranks[self._rank].state != "done"

    def join(self, timeout=None):
        w = world()
        w.block(("join process", self._rank), lambda: w.ranks[self._rank].state == "done")

    def terminate(self):
        pass

    kill = close = terminate


class Queue(_Fake):
    def __init__(self, maxsize=0):
        self._key = world().register(self)
        self.items, self.unfinished = [], 0

    def put(self, obj, block=True, timeout=None):
        data = pickle.dumps(obj)  # the feeder thread would report a failure; none occurs unnoticed
        self.items.append(data)
        self.unfinished += 1
        w = world()
        w.seq += 1
        w.preempt()

    def get(self, block=True, timeout=None):
        w = world()
        w.preempt()
        w.block(("queue", self._key), lambda: bool(self.items))
        data = self.items.pop(0)
        w.seq += 1
        return pickle.loads(data)

    def task_done(self):
        if self.unfinished <= 0:
            raise ValueError("task_done() called too many times")
        self.unfinished -= 1
        w = world()
        w.seq += 1
        w.preempt()

    def join(self):
        world().block(("join queue", self._key), lambda: self.unfinished == 0)

    def empty(self):
        world().preempt()
        return not self.items

    def qsize(self):
        world().preempt()
        return len(self.items)

    put_nowait = put
    get_nowait = get

    def close(self):
        pass

    join_thread = cancel_join_thread = close


# ------------------------------------------------------------------ manager dictionary
class DictProxy(_Fake):
    """A dictionary in a server process: every operation is one atomic request."""

    def __init__(self, init=()):
        self._key = world().register(self)
        self.data = []  # [(pickled key, key in the server, pickled value)]
        self.reads = {}
        for k, v in dict(init).items():
            self[k] = v

    # the server unpickles what it receives
    def _at(self, key):
        for i, (k, _) in enumerate(self.data):
            if k == key:
                return i
        return None

    def _read(self, at=None):
        """Polling without change gives way to the other processes."""
        w = world()
        if not w.on_rank():
            return
        w.preempt()
        r = (w.cur.r, at)
        seen, n = self.reads.get(r, (None, 0))
        n = n + 1 if seen == w.seq else 1
        self.reads[r] = (w.seq, n)
        if n > 24:
            w.sleep()

    def _wrote(self):
        w = world()
        w.seq += 1
        if w.on_rank():
            w.preempt()

    def _server(self, x):
        """What the server process makes of a received object (it must be able to unpickle it)."""
        b = pickle.dumps(x)
        with world().server_modules():
            pickle.loads(b)
        return b

    def __getitem__(self, key):
        key = _transfer(key)
        self._read(self._at(key))
        i = self._at(key)
        if i is None:
            raise KeyError(key)
        return pickle.loads(self.data[i][1])

    def __setitem__(self, key, value):
        b = self._server(value)
        key = _transfer(key)
        i = self._at(key)
        if i is None:
            self.data.append((key, b))
        else:
            self.data[i] = (key, b)
        self._wrote()

    def __delitem__(self, key):
        key = _transfer(key)
        i = self._at(key)
        if i is None:
            raise KeyError(key)
        del self.data[i]
        self._wrote()

    def __contains__(self, key):
        key = _transfer(key)
        self._read(self._at(key))
        return self._at(key) is not None

    def __len__(self):
        self._read()
        return len(self.data)

    def get(self, key, default=None):
        key = _transfer(key)
        self._read(self._at(key))
        i = self._at(key)
        return default if i is None else pickle.loads(self.data[i][1])

    def pop(self, key, *default):
        key = _transfer(key)
        i = self._at(key)
        if i is None:
            if default:
                return default[0]
            raise KeyError(key)
        b = self.data.pop(i)[1]
        self._wrote()
        return pickle.loads(b)

    def setdefault(self, key, default=None):
        if self._at(_transfer(key)) is None:
            self[key] = default
        return self[key]

    def update(self, *a, **kw):
        for k, v in dict(*a, **kw).items():
            self[k] = v

    def keys(self):
        self._read()
        return [_transfer(k) for k, _ in self.data]

    def values(self):
        self._read()
        return [pickle.loads(b) for _, b in self.data]

    def items(self):
        self._read()
        return [(_transfer(k), pickle.loads(b)) for k, b in self.data]

    def __iter__(self):
        return iter(self.keys())

    def copy(self):
        return dict(self.items())

    def clear(self):
        self.data.clear()
        self._wrote()


class Manager:
    def dict(self, *a, **kw):
        return DictProxy(dict(*a, **kw))

    def JoinableQueue(self, *a):
        return Queue(*a)

    Queue = JoinableQueue

    def shutdown(self):
        pass


# ------------------------------------------------------------------ managed objects (actors)
class _Server:
    """The process behind a BaseManager: objects live while proxies refer to them and it runs."""

    def __init__(self):
        self.key = world().register(self)
        self.objs, self.refs, self.up, self.n = {}, {}, True, 0

    def incref(self, ident):
        if not self.up:
            raise ConnectionRefusedError(111, "Connection refused")
        if ident not in self.objs:
            raise real_managers.RemoteError(f"KeyError: {ident}")
        self.refs[ident] += 1

    def decref(self, ident):
        if self.up and ident in self.refs:
            self.refs[ident] -= 1
            if self.refs[ident] <= 0:
                self.refs.pop(ident)
                self.objs.pop(ident, None)

    def stop(self):
        self.up = False
        self.objs.clear()


class BaseManager:
    _registry = {}

    def __init__(self, *a, **kw):
        self._server = None

    @classmethod
    def register(cls, typeid, callable=None, *a, **kw):
        world().registry[typeid] = callable

    def start(self, *a, **kw):
        w = world()
        assert w.cur.r == 0, "daemonic processes are not allowed to have children"
        self._server = _Server()
        self._types = dict(w.registry)
        weakref.finalize(self, self._server.stop)
        w.preempt()

    def shutdown(self):
        self._server.stop()

    def __getattr__(self, typeid):
        types_ = self.__dict__.get("_types", {})
        if typeid not in types_:
            raise AttributeError(typeid)

        def make(*args, **kwds):
            srv = self._server
            args, kwds = _transfer((args, kwds))
            obj = types_[typeid](*args, **kwds)
            srv.n += 1
            ident = f"{srv.key}-{srv.n}"
            srv.objs[ident] = obj
            srv.refs[ident] = 0
            exposed = tuple(n for n in dir(obj) if not n.startswith("_") and callable(getattr(obj, n)))
            return AutoProxy(srv.key, ident, exposed, manager=self)

        return make


class AutoProxy:
    def __init__(self, server, ident, exposed, manager=None):
        self._server, self._ident, self._exposed, self._manager = server, ident, exposed, manager
        srv = world().objects[server]
        srv.incref(ident)
        weakref.finalize(self, srv.decref, ident)

    def __reduce__(self):
        return AutoProxy, (self._server, self._ident, self._exposed)

    def __getattr__(self, name):
        if name.startswith("_") or name not in self._exposed:
            raise AttributeError(name)
        return types.MethodType(_ProxyMethod(name), self)

    def _callmethod(self, name, args=(), kwds={}):
        w = world()
        srv = w.objects[self._server]
        if not srv.up:
            raise ConnectionRefusedError(111, "Connection refused")
        if self._ident not in srv.objs:
            raise real_managers.RemoteError(f"KeyError: {self._ident}")
        args, kwds = _transfer((args, kwds))
        w.preempt()
        prog.SERVING.append(self._ident)
        try:
            out = ("ok", getattr(srv.objs[self._ident], name)(*args, **kwds))
        except Exception as e:  # noqa: BLE001 - sent back to the caller
            out = ("error", e)
        finally:
            prog.SERVING.pop()
        try:
            b = pickle.dumps(out[1])
        except Exception as e:  # noqa: BLE001
            raise real_managers.RemoteError(f"unserializable: {e}")
        w.preempt()
        v = pickle.loads(b)
        if out[0] == "error":
            raise v
        return v


class _ProxyMethod:
    """Picklable bound method of a proxy."""

    def __init__(self, name):
        self.__name__ = name

    def __call__(self, proxy, *args, **kwds):
        return proxy._callmethod(self.__name__, args, kwds)


def _proxy_method(proxy, name):
    return getattr(proxy, name)


# ------------------------------------------------------------------ world
def _fake_modules(w):
    m = types.ModuleType("multiprocessing")
    m.__path__ = real_mp.__path__
    m.Process, m.JoinableQueue, m.Queue, m.SimpleQueue, m.Manager = Process, Queue, Queue, Queue, Manager

    class Current:
        def __init__(self):
            r = w.cur.r if w.cur else 0
            self.name, self.daemon, self.pid = f"P{r}", bool(r), 1000 + r

    m.current_process = Current
    m.cpu_count = lambda: w.n - 1
    m.__getattr__ = lambda k: getattr(real_mp, k)
    mm = types.ModuleType("multiprocessing.managers")
    mm.BaseManager = BaseManager
    mm.__getattr__ = lambda k: getattr(real_managers, k)
    m.managers = mm
    return {"multiprocessing": m, "multiprocessing.managers": mm}


class MpEnv(Env):
    mp = None

    def activate(self):
        super().activate()
        self._real = {k: sys.modules[k] for k in self.mp}
        sys.modules.update(self.mp)

    def deactivate(self):
        sys.modules.update(self._real)
        super().deactivate()


_CORE = "unidist.core.backends.pymp.core."


class MpWorld(simmpi.World):
    """rank 0: the program; ranks 1..n: worker processes in the order they are started."""

    def __init__(self, ctx, workers, deviations=None, max_steps=20000, **kw):
        super().__init__(ctx, 1, environ={"UNIDIST_BACKEND": "pymp", "UNIDIST_CPUS": str(workers)},
                         deviations=deviations, max_steps=max_steps, **kw)
        self.objects, self.registry = {}, {}
        self.mp = _fake_modules(self)

    def register(self, obj):
        k = len(self.objects)
        self.objects[k] = obj
        return k

    def _env_for(self, r):
        base = super()._env_for(0)
        env = MpEnv(fakes={}, replace=base.replace)
        env.mp = self.mp
        return env

    def server_modules(self):
        return _Nothing()

    def run(self, program, rank_main=None):
        _CURRENT[0] = self
        try:
            return super().run(program, rank_main)
        finally:
            _CURRENT[0] = None

    # ---- fork
    def fork(self, proc):
        """A new process with a copy of the backend's data."""
        rk = Rank(self, len(self.ranks))
        self.n += 1
        self.queues[rk.r] = []
        self.hosts[rk.r] = self.hosts[0]
        proc._rank = rk.r
        blob, names = self._snapshot(proc)
        rk.env = self._env_for(rk.r)

        def body(r, _rk):
            child = _restore(blob, names)
            child.run()

        rk.thread = threading.Thread(target=self._main, args=(rk, None, body), daemon=True)
        self.ranks.append(rk)
        rk.state = "ready"
        rk.thread.start()
        self.preempt()

    def _snapshot(self, proc):
        state = {}
        names = [k for k in sys.modules if k.startswith("unidist.core.")]
        for name in names:
            if not name.startswith(("unidist.core.backends.pymp", "unidist.core.backends.common", "unidist.core.base")):
                continue
            for where, v in _data_of(sys.modules[name]):
                try:
                    pickle.dumps(v)
                except Exception:  # noqa: BLE001 - not data
                    continue
                state[(name,) + where] = v
        return pickle.dumps((state, type(proc).__module__, type(proc).__qualname__, proc.__dict__)), names


class _Nothing:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def _plain(v):
    return not (isinstance(v, (type, types.ModuleType, types.FunctionType, property, staticmethod, classmethod))
                or callable(v))


def _data_of(mod):
    for k, v in list(vars(mod).items()):
        if k.startswith("__"):
            continue
        if isinstance(v, type) and v.__module__ == mod.__name__:
            for a, x in list(vars(v).items()):
                if not a.startswith("__") and _plain(x):
                    yield (k, a), x
        elif _plain(v):
            yield (k,), v


def _restore(blob, names):
    import importlib

    for n in names:
        importlib.import_module(n)
    state, mod, cls, attrs = pickle.loads(blob)
    for where, v in state.items():
        o = sys.modules[where[0]]
        for a in where[1:-1]:
            o = getattr(o, a)
        setattr(o, where[-1], v)
    cls = getattr(sys.modules[mod], cls)
    p = cls.__new__(cls)
    p.__dict__.update(attrs)
    return p


class MpRun(prog.Run):
    def __init__(self, ctx, workers=2, deviations=None, **kw):
        self.ctx = ctx
        self.world = MpWorld(ctx, workers, deviations=deviations, **kw)
        self.tok, self.done, self.fns = 0, False, {}

    def run(self, program, health=True):
        return super().run(program, shutdown=False, health=health)

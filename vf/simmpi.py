"""Deterministic multi-rank world for the *real* unidist MPI backend.

Every rank is a thread that owns a private copy of all ``unidist`` modules
(executed from /repo's current sources) and a stand-in ``mpi4py``.  Exactly one
rank runs at a time; the scheduler decides at every point where a receive from
ANY_SOURCE can match more than one sender which one matches, by asking the
engine (``ctx``) - i.e. message interleavings are symbolic choices.

Stand-in MPI semantics (part of every claim that uses this module):
 * per (sender, receiver, communicator, tag) FIFO order, nothing else;
 * standard sends are buffered; pickled payloads are snapshotted at the call,
   ``Isend`` payloads are read only when the receive matches (latest legal time);
 * ``Request.Test`` reports completion only after the message was matched;
   ``Wait`` blocks until matched or until nothing else can progress;
 * a Recv into a too small buffer is an error; collectives synchronise;
 * windows are real shared memory; Lock is exclusive.
"""
import asyncio as real_asyncio
import atexit as real_atexit
import importlib.abc
import importlib.machinery
import importlib.util
import os as real_os
import pickle
import psutil as real_psutil
import signal as real_signal
import socket as real_socket
import sys
import threading
import time as real_time
import types
import gc
import weakref

from . import engine, symbuf

import logging

logging.getLogger("asyncio").setLevel(logging.CRITICAL + 1)
from . import REPO  # noqa: E402
# errors in destructors are ignored by Python; keep them off the checks' output
sys.unraisablehook = lambda u: None

_CODE = {}


def _code_for(path):
    st = real_os.stat(path)
    key = (path, st.st_mtime_ns, st.st_size)
    c = _CODE.get(key)
    if c is None:
        with open(path, "rb") as f:
            c = compile(f.read(), path, "exec", dont_inherit=True)
        _CODE[key] = c
    return c


class KillRank(SystemExit):
    """Ends a rank thread (SystemExit: asyncio lets it through)."""


class Interrupted(BaseException):
    """A parked background operation gives way to other event loop work."""


# --------------------------------------------------------------------------
# module isolation
# --------------------------------------------------------------------------

_PREFIXES = ("unidist", "mpi4py")


def _mine(name):
    return name.startswith(_PREFIXES)


def make_version_module():
    """versioneer shells out to git on import; not part of any property."""
    m = types.ModuleType("unidist._version")
    m.get_versions = lambda: {"version": "0", "full-revisionid": "", "dirty": False, "error": None, "date": None}
    return m


class _Loader(importlib.abc.Loader):
    def __init__(self, env, name, path, is_pkg):
        self.env, self.name, self.path, self.is_pkg = env, name, path, is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        module.__file__ = self.path
        rewrite = self.env.rewrite.get(self.name)
        if rewrite is not None:
            rewrite(self.path, module)
        else:
            exec(_code_for(self.path), module.__dict__)
        self.env.post_import(module)


class _FakeLoader(importlib.abc.Loader):
    def __init__(self, mod):
        self.mod = mod

    def create_module(self, spec):
        return self.mod

    def exec_module(self, module):
        pass


class _Finder(importlib.abc.MetaPathFinder):
    """Resolves unidist / mpi4py imports for the currently active environment."""

    env = None

    def find_spec(self, name, path=None, target=None):
        env = _Finder.env
        if env is None or not _mine(name):
            return None
        fake = env.fakes.get(name)
        if fake is not None:
            spec = importlib.machinery.ModuleSpec(
                name, _FakeLoader(fake), is_package=hasattr(fake, "__path__")
            )
            return spec
        if name.startswith("mpi4py"):
            return None
        base = real_os.path.join(REPO, *name.split("."))
        if real_os.path.isfile(real_os.path.join(base, "__init__.py")):
            p = real_os.path.join(base, "__init__.py")
            spec = importlib.machinery.ModuleSpec(
                name, _Loader(env, name, p, True), origin=p, is_package=True
            )
            spec.submodule_search_locations = [base]
            spec.has_location = True
            return spec
        if real_os.path.isfile(base + ".py"):
            p = base + ".py"
            spec = importlib.machinery.ModuleSpec(
                name, _Loader(env, name, p, False), origin=p
            )
            spec.has_location = True
            return spec
        return None


_FINDER = _Finder()


class Env:
    """One private set of modules."""

    def __init__(self, fakes=None, replace=None, environ=None):
        self.mods = {}
        self.fakes = dict(fakes or {})
        self.fakes.setdefault("unidist._version", make_version_module())
        # [(real object, stand-in)]: swapped in module globals after import
        self.replace = replace or []
        self.environ = environ or {}
        self.hooks = {}
        self.rewrite = {}  # module name -> loads the module from its (transformed) source
        self.prev = None

    def post_import(self, module):
        d = module.__dict__
        for k, v in list(d.items()):
            for real, fake in self.replace:
                if v is real:
                    d[k] = fake
        h = self.hooks.get(module.__name__)
        if h:
            h(module)

    def activate(self):
        if _FINDER not in sys.meta_path:
            sys.meta_path.insert(0, _FINDER)
        sm = sys.modules
        self.prev = ({k: sm[k] for k in list(sm) if _mine(k)}, _Finder.env)
        for k in self.prev[0]:
            del sm[k]
        sm.update(self.mods)
        _Finder.env = self

    def deactivate(self):
        sm = sys.modules
        for k in [k for k in sm if _mine(k)]:
            self.mods[k] = sm.pop(k)
        prev, _Finder.env = self.prev
        sm.update(prev)
        self.prev = None

    def __enter__(self):
        self.activate()
        self._saved_env = {k: real_os.environ.get(k) for k in self.environ}
        real_os.environ.update(self.environ)
        return self

    def __exit__(self, *a):
        self.deactivate()
        for k, v in self._saved_env.items():
            if v is None:
                real_os.environ.pop(k, None)
            else:
                real_os.environ[k] = v

    def imp(self, name):
        return importlib.import_module(name)


# --------------------------------------------------------------------------
# stand-in MPI
# --------------------------------------------------------------------------

ANY_SOURCE, ANY_TAG = -1, -1
_REAL_MPI = None


def real_memory_type():
    """mpi4py's buffer type (the real class; no MPI initialisation happens)."""
    global _REAL_MPI
    if _REAL_MPI is None:
        saved, senv = _Finder.env, {k: sys.modules.pop(k) for k in list(sys.modules) if k.startswith("mpi4py")}
        _Finder.env = None
        try:
            import mpi4py

            mpi4py.rc(recv_mprobe=False, initialize=False, finalize=False)
            from mpi4py import MPI

            _REAL_MPI = MPI
        finally:
            for k in list(sys.modules):
                if k.startswith("mpi4py"):
                    del sys.modules[k]
            sys.modules.update(senv)
            _Finder.env = saved
    return _REAL_MPI.memory


class Status:
    def __init__(self):
        self.source = -1
        self.tag = -1

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag


class Msg:
    __slots__ = ("src", "dst", "comm", "tag", "kind", "payload", "seq", "matched", "late")

    def data(self):
        if isinstance(self.payload, symbuf.Buf):
            return self.payload.frozen()
        return bytes(self.payload) if self.late else self.payload


class Request:
    def __init__(self, world, msg, owner):
        self.world, self.msg, self.done = world, msg, False
        world.requests.setdefault(owner, []).append(weakref.ref(self))

    def Test(self, status=None):
        if self.msg.matched or self.world.eager:
            self.done = True
        return self.done

    def test(self, status=None):
        return (self.Test(), None)

    def Wait(self, status=None):
        w = self.world
        if w.rendezvous:
            w.block(("wait", self.msg.dst, self.msg.tag), lambda: self.msg.matched)
        else:
            w.block(("wait", self.msg), lambda: self.msg.matched or w.stalled, soft=True)
        self.done = True
        return True

    def wait(self, status=None):
        self.Wait()

    @classmethod
    def Waitall(cls, reqs, statuses=None):
        for r in reqs:
            r.Wait()

    @classmethod
    def Testall(cls, reqs, statuses=None):
        return all([r.Test() for r in reqs])

    def Free(self):
        self.done = True

    def __del__(self):
        try:
            if not self.done and not self.msg.matched and self.world.active:
                self.world.dropped.append(self.msg)
        except Exception:
            pass


class RecvRequest:
    def __init__(self, comm, source, tag):
        self.comm, self.source, self.tag, self.val, self.ok = comm, source, tag, None, False

    def test(self, status=None):
        if not self.ok:
            w = self.comm.world
            m = w.find(self.comm, self.source, self.tag)
            if m is None:
                # polling loop: park until something arrives
                w.block(("irecv", self.source, self.tag),
                        lambda: w.find(self.comm, self.source, self.tag) is not None)
                m = w.find(self.comm, self.source, self.tag)
            self.val = self.comm.recv(source=self.source, tag=self.tag)
            self.ok = True
        return True, self.val

    def wait(self, status=None):
        return self.test()[1]


class Group:
    def __init__(self, world, ranks):
        self.world, self.ranks = world, list(ranks)

    def Incl(self, idx):
        return Group(self.world, [self.ranks[i] for i in idx])

    def Excl(self, idx):
        return Group(self.world, [r for i, r in enumerate(self.ranks) if i not in set(idx)])

    def Get_size(self):
        return len(self.ranks)


class Comm:
    def __init__(self, world, cid, ranks, me):
        self.world, self.cid, self.ranks, self.me = world, cid, list(ranks), me
        self.rank_ = self.ranks.index(me)
        self.coll = 0

    def __eq__(self, o):
        return isinstance(o, Comm) and o.cid == self.cid

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.cid)

    # -- basics
    def Get_rank(self):
        return self.rank_

    def Get_size(self):
        return len(self.ranks)

    rank = property(Get_rank)
    size = property(Get_size)

    def Get_group(self):
        return Group(self.world, self.ranks)

    def Free(self):
        pass

    def Disconnect(self):
        pass

    # -- p2p objects
    def _post(self, kind, payload, dest, tag, late=False):
        w = self.world
        if not (0 <= int(dest) < len(self.ranks)):
            raise RuntimeError(f"MPI_ERR_RANK: invalid rank {dest}")
        m = Msg()
        m.src, m.dst, m.comm, m.tag = self.rank_, int(dest), self.cid, int(tag)
        m.kind, m.payload, m.late, m.matched = kind, payload, late, False
        m.seq = w.seq = w.seq + 1
        w.queues.setdefault(self.ranks[int(dest)], []).append(m)
        w.on_post(m, self)
        return m

    def _sync(self, m):
        """A blocking send may return only when the message is received (no buffering by the library)."""
        if self.world.rendezvous and not m.matched:
            self.world.block(("send", self.cid, m.dst, m.tag), lambda: m.matched)

    def send(self, obj, dest, tag=0):
        self._sync(self._post("obj", pickle.dumps(obj, 5), dest, tag))

    bsend = ssend = send

    def isend(self, obj, dest, tag=0):
        return Request(self.world, self._post("obj", pickle.dumps(obj, 5), dest, tag), self.me)

    ibsend = issend = isend

    def Send(self, buf, dest, tag=0):
        v = _view(buf)
        self._sync(self._post("buf", v.frozen() if isinstance(v, symbuf.Buf) else bytes(v), dest, tag))

    Ssend = Bsend = Send

    def Isend(self, buf, dest, tag=0):
        return Request(self.world, self._post("buf", _view(buf), dest, tag, late=True), self.me)

    Issend = Isend

    def iprobe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        m = self.world.wild(self, source, tag)
        if m is None:
            return False
        if status is not None:
            status.source, status.tag = m.src, m.tag
        return True

    Iprobe = iprobe

    def probe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        while not self.iprobe(source, tag, status):
            self.world.sleep()
        return True

    Probe = probe

    def _take(self, source, tag, status):
        w = self.world
        if source == ANY_SOURCE:
            m = None
            while m is None:
                m = w.wild(self, source, tag)
        else:
            m = w.find(self, source, tag)
            if m is None:
                w.block(("recv", self.cid, source, tag),
                        lambda: w.find(self, source, tag) is not None)
                m = w.find(self, source, tag)
        w.queues[self.me].remove(m)
        m.matched = True
        w.on_match(m, self)
        if status is not None:
            status.source, status.tag = m.src, m.tag
        return m

    def recv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        m = self._take(source, tag, status)
        if m.kind != "obj":
            self.world.protocol_error(f"object receive matched a raw buffer (tag {m.tag})")
        return pickle.loads(m.payload)

    def irecv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG):
        return RecvRequest(self, source, tag)

    def Recv(self, buf, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        m = self._take(source, tag, status)
        if m.kind != "buf":
            self.world.protocol_error(f"buffer receive matched a pickled object (tag {m.tag})")
        data = m.data()
        if isinstance(data, symbuf.Buf) and isinstance(buf, symbuf.Flex):
            symbuf.need(data.length == len(buf), "receive buffer and message differ in size")
            buf[0:len(buf)] = data
            return
        view = _view(buf)
        if isinstance(view, symbuf.Buf) or isinstance(data, symbuf.Buf):
            if not isinstance(view, symbuf.Buf):
                raise engine.Inconclusive("symbolic message received into plain memory")
            symbuf.need(symbuf.wrap(data).length == view.length, "receive buffer and message differ in size")
            view[0:view.length] = data
            return
        if len(data) > len(view):
            self.world.protocol_error("MPI_ERR_TRUNCATE: message truncated")
        if len(data) != len(view):
            self.world.protocol_error("receive buffer longer than the message")
        view[: len(data)] = data

    # -- collectives
    def _collective(self, name, value):
        w = self.world
        self.coll += 1
        key = (self.cid, self.coll)
        slot = w.colls.setdefault(key, {"name": name, "vals": {}})
        if slot["name"] != name:
            w.protocol_error(f"collective mismatch {slot['name']} vs {name}")
        slot["vals"][self.me] = value
        n = len(self.ranks)
        w.block(("coll", name, key), lambda: len(slot["vals"]) == n)
        return [slot["vals"][r] for r in self.ranks]

    def Barrier(self):
        self._collective("barrier", None)

    barrier = Barrier

    def allgather(self, obj):
        return [pickle.loads(x) for x in self._collective("allgather", pickle.dumps(obj, 5))]

    def allreduce(self, obj, op=None):
        vals = self.allgather(obj)
        return op.fold(vals)

    def Allreduce(self, sendbuf, recvbuf, op=None):
        vals = self._collective("Allreduce", list(sendbuf))
        n = {len(v) for v in vals}
        if len(n) != 1:
            self.world.protocol_error(f"Allreduce length mismatch {n}")
        for i in range(len(vals[0])):
            recvbuf[i] = op.fold([v[i] for v in vals])

    def bcast(self, obj, root=0):
        vals = self._collective("bcast", pickle.dumps(obj, 5))
        return pickle.loads(vals[root])

    def Split(self, color=0, key=0):
        vals = self._collective("split", (color, key))
        members = sorted(
            [(k, i) for i, (c, k) in enumerate(vals) if c == color], key=lambda t: (t[0], t[1])
        )
        ranks = [self.ranks[i] for _, i in members]
        return Comm(self.world, (self.cid, "split", self.coll, color), ranks, self.me)

    def Split_type(self, split_type, key=0, info=None):
        w = self.world
        vals = self._collective("split_type", None)
        host = w.hosts[self.me]
        ranks = [r for r in self.ranks if w.hosts[r] == host]
        return Comm(w, (self.cid, "host", self.coll, host), ranks, self.me)

    def Create_group(self, group, tag=0):
        if self.me not in group.ranks:
            return None
        w = self.world
        key = ("group", self.cid, tuple(group.ranks))
        k = w.group_counts.get((key, self.me), 0)
        w.group_counts[(key, self.me)] = k + 1
        c = Comm(w, key + (k,), group.ranks, self.me)
        c.Barrier()
        return c

    Create = Create_group

    def Abort(self, code=0):
        raise KillRank()


def _view(buf):
    if isinstance(buf, (list, tuple)):
        buf = buf[0]
    if isinstance(buf, symbuf.Buf):
        return buf
    mv = memoryview(buf)
    if mv.nbytes == 0:
        return memoryview(bytearray())
    return mv.cast("B") if mv.format != "B" or mv.ndim != 1 else mv


class Op:
    def __init__(self, f):
        self.fold = f


class Datatype:
    def __init__(self, size):
        self.size = size

    def Get_size(self):
        return self.size


class Info(dict):
    @classmethod
    def Create(cls):
        return cls()

    def Set(self, k, v):
        self[k] = v


class Win:
    def __init__(self, world, key, comm):
        self.world, self.key, self.comm = world, key, comm
        self.freed = False

    def Shared_query(self, rank):
        buf = self.world.windows[self.key]["mem"][self.comm.ranks[rank]]
        return real_memory_type().frombuffer(buf) if len(buf) else real_memory_type()(), 1

    def tomemory(self):
        return self.Shared_query(self.comm.rank)[0]

    def Lock(self, rank, lock_type=None, assertion=0):
        w = self.world
        if not w.on_rank():
            return      # a finalizer outside the simulated processes (atomic there)
        st = w.windows[self.key]["locks"]
        if st.get(rank) == self.comm.me:
            w.protocol_error("window lock taken twice by the same process")
        w.block(("lock", rank), lambda: st.get(rank) is None)
        st[rank] = self.comm.me

    def Unlock(self, rank):
        if not self.world.on_rank():
            return
        st = self.world.windows[self.key]["locks"]
        if st.get(rank) != self.comm.me:
            self.world.protocol_error("window unlocked by a process that does not hold the lock")
        st[rank] = None

    def Sync(self):
        pass

    def Free(self):
        self.freed = True

    def Fence(self, *a):
        pass


def make_mpi(world, rank):
    """A fresh stand-in ``mpi4py`` package for one rank."""
    mpi4py = types.ModuleType("mpi4py")
    mpi4py.__path__ = []
    mpi4py.__version__ = "3.1.5"

    class rc:
        def __call__(self, **kw):
            pass

    mpi4py.rc = rc()
    MPI = types.ModuleType("mpi4py.MPI")
    MPI.ANY_SOURCE, MPI.ANY_TAG = ANY_SOURCE, ANY_TAG
    MPI.Status, MPI.Request, MPI.Group = Status, Request, Group
    MPI.COMM_TYPE_SHARED = 0
    MPI.THREAD_MULTIPLE = 3
    MPI.VERSION = 3
    MPI.CHAR, MPI.BYTE, MPI.LONG = Datatype(1), Datatype(1), Datatype(8)
    MPI.MAX, MPI.MIN, MPI.SUM = Op(max), Op(min), Op(sum)
    MPI.LOR = Op(lambda v: int(any(v)))
    MPI.LAND = Op(lambda v: int(all(v)))
    MPI.LOCK_EXCLUSIVE, MPI.LOCK_SHARED = 1, 2
    MPI.Info = Info
    MPI.INFO_NULL = None
    MPI.COMM_NULL = object()
    MPI.memory = real_memory_type()
    MPI.buffer = MPI.memory
    state = {"init": True, "fin": False}
    MPI.Is_initialized = lambda: state["init"]
    MPI.Is_finalized = lambda: state["fin"]
    MPI.Query_thread = lambda: 3
    MPI.Init_thread = lambda *a: 3
    MPI.Init = lambda: None

    def finalize():
        state["fin"] = True
        world.finalized.add(rank)
        for w in world.requests.get(rank, ()):
            r = w()
            if r is not None and not r.done and not r.msg.matched:
                world.unfinished.append((rank, r.msg.dst, r.msg.tag))

    MPI.Finalize = finalize
    MPI.Get_library_version = lambda: world.library_version
    MPI.Intracomm = MPI.Intercomm = MPI.Comm = type(
        "Comm_", (), {"Get_parent": staticmethod(lambda: MPI.COMM_NULL)}
    )
    MPI.COMM_WORLD = Comm(world, "world", list(range(world.n)), rank)
    MPI.COMM_SELF = Comm(world, ("self", rank), [rank], rank)

    class WinNS:
        @staticmethod
        def Allocate_shared(size, disp_unit=1, info=None, comm=None):
            comm.coll_win = getattr(comm, "coll_win", 0) + 1
            key = ("win", comm.cid, comm.coll_win)
            slot = world.windows.setdefault(key, {"mem": {}, "locks": {}})
            slot["mem"][comm.me] = bytearray(int(size))
            comm.Barrier()
            return Win(world, key, comm)

    MPI.Win = WinNS
    util = types.ModuleType("mpi4py.util")
    util.__path__ = []
    pkl5 = types.ModuleType("mpi4py.util.pkl5")

    class _BigMPI:
        blocksize = world.blocksize

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        def __call__(self, buf):
            return buf

    pkl5._bigmpi = _BigMPI()
    pkl5.Intracomm = lambda c: c
    util.pkl5 = pkl5
    mpi4py.MPI, mpi4py.util = MPI, util
    return {
        "mpi4py": mpi4py,
        "mpi4py.MPI": MPI,
        "mpi4py.util": util,
        "mpi4py.util.pkl5": pkl5,
    }


def make_memory_module(world):
    """Stand-in for the compiled copy kernel (decided separately by its own check)."""
    m = types.ModuleType("unidist.core.backends.mpi.core._memory")

    def parallel_memcopy(src, dst, memcopy_threads):
        if isinstance(dst, symbuf.Buf):
            dst[0:symbuf.wrap(src).length] = src
            return
        s, d = _view(src), _view(dst)
        if len(d) < len(s):
            raise ValueError("destination shorter than source")
        d[: len(s)] = s

    def fill(buff, value):
        for i in range(len(buff)):
            buff[i] = value

    m.parallel_memcopy, m.fill = parallel_memcopy, fill
    return m


class _Ns:
    """Module proxy: overrides + fall through to the real module."""

    def __init__(self, real, **over):
        self.__dict__["_real"] = real
        self.__dict__.update(over)

    def __getattr__(self, k):
        return getattr(self._real, k)


class SimLoop(real_asyncio.SelectorEventLoop):
    """Event loop of a worker rank: executor jobs run when the loop is idle."""

    def __init__(self, world, rank):
        super().__init__()
        self.world, self.rank_ = world, rank
        self.jobs = []
        self.gates = []

    def run_in_executor(self, executor, func, *args):
        fut = self.create_future()
        self.jobs.append((fut, func, args))
        self.call_soon(self._pump)
        return fut

    def _pump(self):
        if not self.jobs:
            return
        if self._ready:
            # let other ready callbacks go first
            self.idle_rounds = getattr(self, "idle_rounds", 0) + 1
            if self.idle_rounds < 50:
                self.call_soon(self._pump)
                return
        self.idle_rounds = 0
        fut, func, args = self.jobs.pop(0)
        try:
            r = func(*args)
        except Interrupted:
            self.jobs.insert(0, (fut, func, args))
            self.call_soon(self._pump)
            return
        except KillRank:
            raise
        except engine.Stop:
            raise KillRank()
        except BaseException as e:
            if not fut.cancelled():
                fut.set_exception(e)
            return
        if not fut.cancelled():
            fut.set_result(r)

    def _run_once(self):
        if not self._ready and not self._scheduled and not self._stopping:
            # idle loop: only a gate can wake it up
            try:
                w = self.world
                while not self._ready:
                    w.wild(Comm(w, ("idle", self.rank_), [self.rank_], self.rank_), 0, 0)
            except Interrupted:
                pass
        super()._run_once()

    def close(self):
        if not self.is_running():
            super().close()


class Rank:
    def __init__(self, world, r):
        self.world, self.r = world, r
        self.go = threading.Semaphore(0)
        self.state = "new"
        self.pred = None
        self.desc = None
        self.wildreq = None
        self.match = None
        self.exc = None
        self.env = None
        self.thread = None
        self.loop = None
        self.interrupt = None
        self.probed, self.nap, self.napped = False, False, None


class World:
    def __init__(self, ctx, n, hosts=None, environ=None, blocksize=1 << 30, max_steps=20000,
                 deviations=None, memory_total=1 << 34, library="Open MPI 4.1",
                 choose=True, rendezvous=False, slow=(), eager_gates=False, eager=False):
        self.ctx, self.n = ctx, n
        self.hosts = hosts or {r: "10.0.0.1" for r in range(n)}
        self.environ = {
            "UNIDIST_BACKEND": "mpi",
            "UNIDIST_MPI_SPAWN": "False",
            "UNIDIST_CPUS": str(max(1, n - 2)),
        }
        self.environ.update(environ or {})
        self.blocksize = blocksize
        self.library_version = library
        self.memory_total = memory_total
        self.shm_blocks = None  # (block size, free blocks, blocks kept for root, used blocks) of /dev/shm
        self.queues = {r: [] for r in range(n)}
        self.seq = 0
        self.colls = {}
        self.group_counts = {}
        self.windows = {}
        self.finalized = set()
        self.dropped = []
        self.requests = {}
        self.unfinished = []  # sends not complete when their process finalized the transport
        self.active = True
        self.stalled = False
        self.errors = []
        self.ranks = [Rank(self, r) for r in range(n)]
        self.sched = threading.Semaphore(0)
        self.cur = None
        self.steps, self.max_steps = 0, max_steps
        self.deviations = deviations
        self.devs_used = 0
        self.deadlock = None
        self.control = None
        self.clock = 1000.0
        self.posted = []
        self.atexit = []
        self.post_hooks = []
        self.choose = choose
        self.rendezvous = rendezvous
        self.eager = eager  # non-blocking sends complete at once (buffered), not when they are matched
        self.slow = set(slow)  # ranks that only receive when nothing else can happen
        self.eager_gates = eager_gates  # coroutines go on as soon as they can
        self.symbolic_buffers = False
        self.module_hooks = {}
        self.module_rewrites = {}
        self.idle_events = []  # callables tried when nothing can progress

    # ---- hooks
    def on_post(self, m, comm):
        for h in self.post_hooks:
            h(m, comm)

    def on_match(self, m, comm):
        pass

    def protocol_error(self, msg):
        self.errors.append(f"rank {self.cur.r if self.cur else '?'}: {msg}")
        raise RuntimeError(msg)

    # ---- message lookup
    def find(self, comm, source, tag):
        for m in self.queues[comm.me]:
            if m.comm == comm.cid and (source == ANY_SOURCE or m.src == source) and (
                tag == ANY_TAG or m.tag == tag
            ):
                return m
        return None

    def candidates(self, comm, source, tag):
        seen, out = set(), []
        for m in self.queues[comm.me]:
            if m.comm == comm.cid and (source == ANY_SOURCE or m.src == source) and (
                tag == ANY_TAG or m.tag == tag
            ):
                if m.src not in seen:
                    seen.add(m.src)
                    out.append(m)
        return out

    # ---- switching (called on rank threads)
    def on_rank(self):
        """Whether the caller is the simulated process that is running."""
        me = self.cur
        return me is not None and me.thread is threading.current_thread() and self.control != "kill"

    def _switch(self):
        me = self.cur
        self.sched.release()
        me.go.acquire()
        if self.control == "kill":
            raise KillRank()
        if me.interrupt is not None:
            f, me.interrupt = me.interrupt, None
            f()

    def block(self, desc, pred, soft=False):
        me = self.cur
        # replacing a value may run finalizers, which may come here: the state is set last
        while not pred():
            me.desc, me.pred, me.soft = desc, pred, soft
            me.state = "block"
            self._switch()
            me.state = "run"

    def wild(self, comm, source, tag):
        """Park in a probe / wildcard receive until the scheduler matches it."""
        me = self.cur
        me.wildreq, me.match = (comm, source, tag), None
        me.desc = ("probe", source, tag)
        me.state = "wild"
        me.probed = True
        self._switch()
        me.state = "run"
        return me.match

    def sleep(self):
        me = self.cur
        me.desc = ("sleep",)
        me.state = "sleep"
        # a sleep in a loop probing for messages matters only through the probe
        me.nap, me.probed = not me.probed, False
        self._switch()
        me.state = "run"

    def _others(self, me):
        """Resumable alternatives to a rank that could be preempted."""
        out = []
        for rk in self.ranks:
            if rk is me or rk.state in ("done", "new"):
                continue
            if rk.state in ("ready", "yield", "sleep") or (rk.state == "block" and rk.pred()):
                out.append((rk, None))
            elif rk.state == "wild":
                out += [(rk, m) for m in self.candidates(*rk.wildreq)]
        return out

    def preempt(self):
        """A point between two accesses to shared memory: another process may run here."""
        me = self.cur
        if me is None or me.thread is not threading.current_thread() or self.control == "kill":
            return
        if self.deviations is not None and self.devs_used >= self.deviations:
            return
        if not self._others(me):
            return
        self.yields = getattr(self, "yields", 0) + 1
        me.desc, me.yseq = ("preempted",), self.yields
        me.state = "yield"
        self._switch()
        me.state = "run"

    # ---- set-up
    def _env_for(self, r):
        w = self

        class FakeTime(_Ns):
            pass

        def sleep(s=0):
            w.sleep()

        def perf():
            return w.now(r)

        ftime = _Ns(real_time, sleep=sleep, perf_counter=perf, time=perf, monotonic=perf)
        fsock = _Ns(
            real_socket, gethostname=lambda: f"host{r}", gethostbyname=lambda h: w.hosts[r]
        )

        def register(f, *a, **k):
            w.atexit.append((r, f, a, k))
            return f

        fatexit = _Ns(real_atexit, register=register, unregister=lambda f: w.atexit[:] and None)
        fsignal = _Ns(real_signal, signal=lambda *a, **k: None)
        fps = _Ns(
            real_psutil,
            virtual_memory=lambda: types.SimpleNamespace(total=w.memory_total, available=w.memory_total),
        )

        def fopen(path, *a, **k):
            return -77 if path == "/dev/shm" else real_os.open(path, *a, **k)

        def fclose(fd):
            return None if fd == -77 else real_os.close(fd)

        def fstatvfs(fd):
            if fd in (-77, "/dev/shm"):
                size, free, kept, used = w.shm_blocks or (4096, w.memory_total // 4096, 0, 0)
                return types.SimpleNamespace(f_bsize=size, f_frsize=size, f_bavail=free, f_bfree=free + kept, f_blocks=free + kept + used)
            return real_os.fstatvfs(fd)

        fos = _Ns(real_os, open=fopen, close=fclose, fstatvfs=fstatvfs, statvfs=fstatvfs)

        def arun(coro, **kw):
            loop = SimLoop(w, r)
            w.ranks[r].loop = loop
            try:
                return loop.run_until_complete(coro)
            finally:
                w.ranks[r].loop = None
                try:
                    for t in real_asyncio.all_tasks(loop):
                        t.cancel()
                except Exception:
                    pass
                try:
                    loop.close()
                except Exception:
                    pass

        fasync = _Ns(real_asyncio, run=arun)
        env = Env(
            fakes={**make_mpi(w, r), "unidist.core.backends.mpi.core._memory": make_memory_module(w)},
            replace=[
                (real_time, ftime), (real_time.sleep, sleep), (real_time.perf_counter, perf),
                (real_time.time, perf), (real_time.monotonic, perf),
                (real_socket, fsock), (real_atexit, fatexit), (real_signal, fsignal),
                (real_psutil, fps), (real_os, fos), (real_asyncio, fasync),
            ],
        )
        env.hooks.update(self.module_hooks)
        env.rewrite.update(self.module_rewrites)
        if self.symbolic_buffers:
            symbuf.install(env)
        return env

    def now(self, r):
        return self.clock

    # ---- run
    def run(self, program, rank_main=None):
        """program(unidist) runs on rank 0 after init; other ranks run init()."""
        saved = {k: real_os.environ.get(k) for k in list(self.environ)}
        drop = [k for k in real_os.environ if k.startswith("UNIDIST_")]
        dropped_env = {k: real_os.environ.pop(k) for k in drop}
        real_os.environ.update(self.environ)
        gc_was = gc.isenabled()
        gc.disable()
        try:
            for rk in self.ranks:
                rk.env = self._env_for(rk.r)
                rk.thread = threading.Thread(
                    target=self._main, args=(rk, program, rank_main), daemon=True
                )
                rk.state = "ready"
                rk.thread.start()
            self._schedule()
        finally:
            self.active = False
            self._kill()
            for k in list(self.environ):
                real_os.environ.pop(k, None)
            real_os.environ.update({k: v for k, v in saved.items() if v is not None})
            real_os.environ.update(dropped_env)
            if gc_was:
                gc.enable()
        self._reraise()
        return self

    def _reraise(self):
        st = engine.pending_stop()
        if st is not None:
            raise st
        for rk in self.ranks:
            if isinstance(rk.exc, engine.Stop):
                raise rk.exc

    def _main(self, rk, program, rank_main):
        rk.go.acquire()
        try:
            if self.control == "kill":
                return
            rk.state = "run"
            if rank_main is not None:
                rank_main(rk.r, rk)
            else:
                import unidist

                unidist.init()
                if rk.r == 0:
                    program(unidist)
        except KillRank:
            pass
        except SystemExit:
            pass
        except BaseException as e:  # recorded, reported by the harness
            import traceback

            rk.exc = e
            rk.tb = traceback.format_exc()
        finally:
            rk.state = "done"
            self.sched.release()

    def _resume(self, rk):
        self.steps += 1
        if self.steps > self.max_steps:
            raise engine.BoundExceeded("scheduler step bound")
        self.cur = rk
        rk.env.activate()
        try:
            rk.go.release()
            self.sched.acquire()
        finally:
            rk.env.deactivate()
            self.cur = None

    def _pick(self, opts):
        """Symbolic scheduling choice; option 0 is the default."""
        if len(opts) == 1 or not self.choose:
            return opts[0]
        if self.deviations is not None and self.devs_used >= self.deviations:
            return opts[0]
        i = self.ctx.value(self.ctx.int("sched", 0, len(opts) - 1))
        if i:
            self.devs_used += 1
        return opts[i]

    def _schedule(self):
        ticked = None
        while True:
            if self.ranks[0].exc is not None or engine.pending_stop() is not None:
                return
            live = [rk for rk in self.ranks if rk.state != "done"]
            if not live:
                return
            if self.ranks[0].state == "done" and 0 not in self.finalized:
                return  # program ended without shutdown
            ylds = [rk for rk in live if rk.state == "yield"]
            if ylds:
                me = max(ylds, key=lambda rk: rk.yseq)
                rk, m = self._pick([(me, None)] + self._others(me))
                if m is not None:
                    rk.match = m
                ticked = None
                self._resume(rk)
                continue
            prog = None
            for rk in live:
                if rk.state == "ready" or (rk.state == "block" and rk.pred()):
                    prog = rk
                    break
            if prog is not None:
                ticked = None
                self._resume(prog)
                continue
            opts = []
            for rk in live:
                if rk.state == "wild":
                    for m in self.candidates(*rk.wildreq):
                        opts.append((rk, m))
            for rk in live:
                if rk.state == "wild" and rk.loop is not None:
                    for g in [g for g in rk.loop.gates if not g.done()]:
                        opts.append((rk, g))
            if opts:
                key = (self.seq, sum(len(q) for q in self.queues.values()))
                for rk in live:  # a sleep may also end before anything else happens (once)
                    if rk.state == "sleep" and rk.nap and rk.napped != key:
                        opts.append((rk, None))
                if self.slow or self.eager_gates:
                    opts.sort(key=lambda o: (o[0].r in self.slow, self.eager_gates and isinstance(o[1], Msg)))
                ticked = None
                rk, m = self._pick(opts)
                if isinstance(m, Msg):
                    rk.match = m
                elif m is None:
                    rk.napped = key
                else:
                    def fire(rk=rk, g=m):
                        rk.loop.gates.remove(g)
                        g.set_result(None)
                        raise Interrupted()

                    rk.interrupt = fire
                self._resume(rk)
                continue
            # nothing matched: soft waits complete eagerly, pollers see "nothing there"
            key = (self.seq, sum(len(q) for q in self.queues.values()))
            soft = [rk for rk in live if rk.state == "block" and getattr(rk, "soft", False)]
            if soft:
                self.stalled = True
                self._resume(soft[0])
                self.stalled = False
                continue
            pollers = [rk for rk in live if rk.state in ("wild", "sleep")]
            if pollers and (ticked is None or ticked[0] != key or ticked[1] < 3):
                ticked = (key, (ticked[1] + 1) if ticked and ticked[0] == key else 1)
                for rk in pollers:
                    if rk.state in ("wild", "sleep"):
                        rk.match = None
                        self._resume(rk)
                continue
            fired = False
            for ev in list(self.idle_events):
                if ev(self):
                    fired = True
                    break
            if fired:
                ticked = None
                continue
            self.deadlock = {rk.r: rk.desc for rk in live}
            return

    def _kill(self):
        self.control = "kill"
        for rk in self.ranks:
            while rk.thread is not None and rk.thread.is_alive():
                if rk.state == "done":
                    rk.thread.join(2)
                    break
                self.cur = rk
                rk.env.activate()
                rk.go.release()
                self.sched.acquire(timeout=5)
                rk.env.deactivate()
                if rk.state == "done":
                    rk.thread.join(2)
                    break
        self.cur = None

    def crashed(self):
        """Ranks whose process died with an unexpected exception."""
        return {rk.r: rk for rk in self.ranks if rk.exc is not None and not isinstance(rk.exc, engine.Stop)}


async def gate():
    """Awaitable for user coroutines: resumes when the scheduler decides to."""
    loop = real_asyncio.get_running_loop()
    f = loop.create_future()
    loop.gates.append(f)
    await f

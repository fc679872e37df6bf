"""One-process environments: the real modules of a rank, with the collective set-up calls of
``MPIState`` answered for an arbitrary host layout (no other rank runs)."""
from . import simmpi, engine
from .engine import is_sym


class SoloGroup:
    def __init__(self, ranks):
        self.ranks = list(ranks)

    def Incl(self, idx):
        return SoloGroup([self.ranks[i] for i in idx])

    def Excl(self, idx):
        return SoloGroup([r for i, r in enumerate(self.ranks) if i not in set(idx)])

    def Get_size(self):
        return len(self.ranks)


class SoloComm(simmpi.Comm):
    """Communicator seen by one rank; collectives are answered from `layout`."""

    def __init__(self, world, ranks, me, allreduce=None):
        super().__init__(world, ("solo", tuple(ranks)), ranks, me)
        self.allreduce_fn = allreduce

    def allgather(self, obj):
        w = self.world
        out = []
        for i, g in enumerate(self.ranks):
            if isinstance(obj, tuple) and len(obj) == 3 and obj == (
                w.hosts[self.me], self.rank_, self._host_index(self.me)
            ):
                out.append((w.hosts[g], i, self._host_index(g)))
            elif obj == w.hosts[self.me]:
                out.append(w.hosts[g])
            else:
                out.append(obj)
        return out

    def _host_index(self, g):
        return [r for r in self.ranks if self.world.hosts[r] == self.world.hosts[g]].index(g)

    def Split_type(self, split_type, key=0, info=None):
        h = self.world.hosts[self.me]
        return SoloComm(self.world, [r for r in self.ranks if self.world.hosts[r] == h], self.me)

    def Split(self, color=0, key=0):
        h = self.world.hosts[self.me]
        return SoloComm(self.world, [r for r in self.ranks if self.world.hosts[r] == h], self.me)

    def Get_group(self):
        return SoloGroup(self.ranks)

    def Create_group(self, group, tag=0):
        if self.me not in group.ranks:
            return None
        return SoloComm(self.world, group.ranks, self.me, self.world.solo_allreduce)

    Create = Create_group

    def Barrier(self):
        pass

    barrier = Barrier

    def Allreduce(self, sendbuf, recvbuf, op=None):
        vals = list(sendbuf)
        fn = self.allreduce_fn or self.world.solo_allreduce
        res = fn(vals, op) if fn else vals
        for i, v in enumerate(res):
            recvbuf[i] = v


class NullLogger:
    def __getattr__(self, k):
        return lambda *a, **kw: None


class Solo:
    """`with Solo(ctx, n, me, hosts=..., environ=...) as s: s.imp("unidist....")`"""

    def __init__(self, ctx, n=3, me=1, hosts=None, environ=None, shared=False, library="Open MPI 4.1",
                 memory_total=1 << 34, blocksize=1 << 30):
        env = dict(environ or {})
        if shared:
            env.setdefault("UNIDIST_MPI_SHARED_OBJECT_STORE", "True")
        self.world = simmpi.World(ctx, n, hosts=hosts, environ=env, library=library,
                                  memory_total=memory_total, blocksize=blocksize, choose=False)
        self.world.solo_allreduce = None
        self.me = me
        self.ctx = ctx

    def __enter__(self):
        import os

        self.env = self.world._env_for(self.me)
        drop = [k for k in os.environ if k.startswith("UNIDIST_")]
        self._saved = {k: os.environ.pop(k) for k in drop}
        self.env.environ = dict(self.world.environ)
        self.env.__enter__()
        return self

    def __exit__(self, *a):
        import os

        self.world.active = False
        self.env.__exit__(*a)
        os.environ.update(self._saved)

    def imp(self, name):
        return self.env.imp(name)

    def comm(self):
        return SoloComm(self.world, list(range(self.world.n)), self.me)

    def state(self):
        comm_mod = self.imp("unidist.core.backends.mpi.core.communication")
        return comm_mod.MPIState.get_instance(self.comm())

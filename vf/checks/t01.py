"""T01: process roles and cluster resources are consistent for every layout."""
from ..engine import any_of
from ..run import Harness
from ..solo import Solo

ASSUMPTIONS = ["processes that share memory are exactly those with the same host address",
               "the MPI library numbers the processes of a host in the order of their ranks"]
OUTSIDE = ["more processes than stated", "launches with a single process"]
STUBS = ["collective operations of MPIState: answered for the (symbolic) host of every rank", "host names: symbolic values"]


class Host(str):
    """Address of a host; which addresses are equal, and how they sort, is symbolic."""

    def __new__(cls, v):
        s = str.__new__(cls, "host")
        s.v = v
        return s

    def __eq__(self, o):
        return bool(self.v == o.v) if isinstance(o, Host) else False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return 11

    def __lt__(self, o):
        return bool(self.v < o.v)

    def __le__(self, o):
        return bool(self.v <= o.v)

    def __gt__(self, o):
        return bool(self.v > o.v)

    def __ge__(self, o):
        return bool(self.v >= o.v)

    def __repr__(self):
        return f"host{self.v}"

    def __reduce__(self):
        return (Host, (self.v,))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    __str__ = __repr__


LIBS = [("Open MPI v4.1.2", True), ("Open MPI v4.1.2", False), ("Microsoft MPI 10.1", True), ("MPICH Version: 4.0", True),
        ("MPICH Version: 4.0", False), ("MPICH Version: 4.2.1", True), ("Intel(R) MPI Library 2021.8", True)]


def supported(lib, spawn):
    """MPICH before 4.2 has no shared memory among spawned processes (documented)."""
    return not ("MPICH" in lib and spawn and "4.0" in lib)


def layout(ctx, n):
    """Hosts of the ranks: every way to share hosts and every order of the addresses."""
    top = n - 1
    hs = [Host(ctx.int(f"host of {r}", 0, top)) for r in range(n)]
    return hs


def roles(sizes):
    def h(ctx):
        n = ctx.pick("processes", list(sizes))
        shared = ctx.pick("shared store", [True, False])
        lib, spawn = ctx.pick("library", LIBS)
        hosts = layout(ctx, n)
        same = lambda a, b: hosts[a] == hosts[b]  # noqa: E731
        env = {"UNIDIST_MPI_SPAWN": str(spawn), "UNIDIST_MPI_SHARED_OBJECT_STORE": str(shared)}
        per_host = shared and supported(lib, spawn)
        views, resources = [], None
        for me in range(n):
            s = Solo(ctx, n=n, me=me, hosts=hosts, environ=env, library=lib)
            with s:
                lonely = False
                if per_host and me == 0:
                    lonely = any(not any(q != r and same(q, r) for q in range(n)) for r in range(n))
                try:
                    st = s.state()
                except ValueError:
                    ctx.check(me == 0 and lonely, "a valid layout is refused", f"{hosts}")
                    ctx.reach("refused")
                    return
                ctx.check(not (me == 0 and lonely), "a host without room for a monitor is accepted", f"{hosts}")
                mon = sorted(st.monitor_processes)
                work = sorted(st.workers)
                by = [st.get_monitor_by_worker_rank(r) for r in range(n)]
                flags = [(st.is_root_process(r), st.is_monitor_process(r)) for r in range(n)]
                ctx.check((st.is_root_process(), st.is_monitor_process()) == flags[me] and st.global_rank == me and st.global_size == n,
                          "a process takes itself for another one", f"{me} of {n}")
                ctx.check(st.get_monitor_by_worker_rank() == by[me], "a process misjudges its own monitor")
                for r in range(n):
                    ctx.check(st.host_by_rank[r] == hosts[r], "rank attributed to another host", f"{r}: {hosts}")
                views.append((mon, work, by, flags))
                if me == 0:
                    resources = s.imp("unidist.core.backends.mpi.backend").MPIBackend.cluster_resources()
                    again = s.imp("unidist.core.backends.mpi.core.controller.api").cluster_resources()
        what = f"shared={per_host} {hosts}"
        for v in views:
            ctx.check(v == views[0], "processes disagree about the roles", f"{v} {views[0]} {what}")
        mon, work, by, flags = views[0]
        ctx.check([f[0] for f in flags] == [True] + [False] * (n - 1), "not exactly one main program", what)
        ctx.check(len(set(mon)) == len(mon) and len(set(work)) == len(work), "a role is given twice", f"{mon} {work} {what}")
        ctx.check(sorted([0] + mon + work) == list(range(n)), "a process has no role or two", f"{mon} {work} {what}")
        ctx.check([f[1] for f in flags] == [r in mon for r in range(n)], "monitor test disagrees with the monitors", f"{mon} {flags}")
        for r in range(n):
            ctx.check(by[r] in mon, "a process's monitor is no monitor", f"{r}: {by} {mon} {what}")
            if per_host:
                ctx.check(same(by[r], r), "a process's monitor is on another host", f"{r}: {by} {mon} {what}")
        if per_host:
            for r in range(n):
                ctx.check(len([m for m in mon if same(m, r)]) == 1, "not one monitor per host", f"{mon} {what}")
            ctx.reach("monitor per host")
        else:
            ctx.check(len(mon) == 1, "not exactly one monitor", f"{mon} {what}")
            ctx.reach("single monitor")
        if any(not same(0, r) for r in range(1, n)):
            ctx.reach("several hosts")
        # cluster resources: every host of a worker, with the number of its workers
        for res in (resources, again):
            for r in range(n):
                want = len([w for w in work if same(w, r)])
                got = [v for k, v in res.items() if k == hosts[r]]
                ctx.check(len(got) == 1 or (not got and want == 0), "a host is missing from the resources", f"{res} {what}")
                ctx.check(not got or (set(got[0]) == {"CPU"} and got[0]["CPU"] == want), "wrong number of CPUs reported",
                          f"{res} {work} {what}")
            ctx.check(all(any(k == x for x in hosts) for k in res), "unknown host in the resources", f"{res} {what}")
    return h


def harnesses(tier):
    b = "%s processes, every assignment to hosts and every order of the addresses, both stores, 7 library/launch combinations"
    w = ["refused", "monitor per host", "single monitor", "several hosts"]
    return [
        Harness("roles", roles((2, 3, 4)), b % "2-4", witnesses=w, budget=200, stubs=STUBS),
        Harness("roles5", roles((5,)), b % "5", witnesses=w, budget=200, stubs=STUBS),
        Harness("roles6", roles((6,)), b % "6", witnesses=w, budget=800, stubs=STUBS, tier="thorough"),
    ]

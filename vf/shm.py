"""The real shared object store of several processes with the real monitor loop; the store's
memory and the objects' parts have symbolic sizes (vf.symbuf).  Non-monitor ranks execute commands
of the harness one after another; the messages between the store and the monitors are real."""
import gc
import pickle

from . import engine, simmpi, symbuf
from .prog import stub_gap
from .symbuf import Part, Region, same

_CORE = "unidist.core.backends.mpi.core."


class Obj:
    """What deserialization got: views into the store."""

    def __init__(self, s_data, raw_buffers, buffer_count):
        # the header is copied by deserialization, out-of-band buffers stay views
        if isinstance(s_data, symbuf.Flex) and s_data.sym is not None:
            s_data = s_data.sym
        self.s_data = s_data.tobytes() if hasattr(s_data, "tobytes") else bytes(s_data)
        self.raw, self.count = list(raw_buffers), list(buffer_count)


class Racy(list):
    """Bookkeeping words in shared memory: other processes may run between two accesses."""

    world = None

    def __getitem__(self, k):
        self.world.preempt()
        return list.__getitem__(self, k)

    def __setitem__(self, k, v):
        self.world.preempt()
        list.__setitem__(self, k, v)


class Shm:
    def __init__(self, ctx, hosts, slots=4, total=None, service_only=None, deviations=0, max_len=1 << 40,
                 blocksize=1 << 62, races=False, starve=False):
        self.ctx = ctx
        self.small = ctx.eager
        n = len(hosts)
        self.hosts = dict(enumerate(hosts))
        self.max_len = 3 if self.small else max_len
        self.total = total if total is not None else ctx.int("area", 1, 24 if self.small else 1 << 44)
        env = {
            "UNIDIST_MPI_SHARED_OBJECT_STORE": "True",
            "UNIDIST_MPI_SHARED_OBJECT_STORE_MEMORY": "64",
            "UNIDIST_MPI_SHARED_SERVICE_MEMORY": str(slots * 32),
            "UNIDIST_MPI_SHARED_OBJECT_STORE_THRESHOLD": "0",
        }
        self.world = w = simmpi.World(ctx, n, hosts=self.hosts, environ=env, deviations=deviations,
                                      blocksize=blocksize,
                                      slow=ctx.pick("slow", [(k,) for k in range(n)]) if starve else ())
        w.symbolic_buffers = not self.small
        w.module_hooks[_CORE + "serialization"] = self._patch_serialization
        symbuf.begin(ctx)
        mk = (lambda: bytearray(int(self.total))) if self.small else (lambda: Region(self.total))
        self.area = {h: mk() for h in dict.fromkeys(hosts)}
        self.service = {h: [-1] * (slots * 4) for h in self.area}
        if races:
            self.service = {h: Racy(v) for h, v in self.service.items()}
            for v in self.service.values():
                v.world = w
        self.cmds = {r: [] for r in range(n)}
        self.stop = False
        self.parts = 0
        self.objects = {}     # key -> serialized parts
        self.mods = {}
        self.store = {}
        self.ids = {}         # (rank, key) -> data id
        self.values = {}      # (rank, key) -> Obj
        self.lost = None

    # ------------------------------------------------------------- set-up
    def _patch_serialization(self, mod):
        mod.deserialize_complex_data = lambda s_data, raw_buffers, buffer_count: Obj(
            s_data, raw_buffers, buffer_count)

    def _main(self, program):
        def main(r, rk):
            import importlib

            imp = importlib.import_module
            comm = imp(_CORE + "communication")
            MPI = imp("mpi4py.MPI")
            st = comm.MPIState.get_instance(MPI.COMM_WORLD)
            sos = imp(_CORE + "shared_object_store")
            store = sos.SharedObjectStore.get_instance()
            a = self.area[self.hosts[r]]
            store.shared_buffer = simmpi.real_memory_type().frombuffer(a) if self.small else a
            store.shared_memory_size = self.total
            if not self.small:
                assert len(store.service_shared_buffer) == len(self.service[self.hosts[r]])
                store.service_shared_buffer = self.service[self.hosts[r]]
            self.store[r] = store
            self.mods[r] = imp
            if st.is_monitor_process():
                imp(_CORE + "monitor.loop").monitor_loop()
                return
            st.global_comm.Barrier()
            if r == 0:
                program(self)
                self.stop = True
                for m in st.monitor_processes:
                    comm.mpi_send_operation(st.global_comm, imp(_CORE + "common").Operation.SHUTDOWN, m)
                return
            w = self.world
            while True:
                w.block(("command",), lambda: self.cmds[r] or self.stop)
                if not self.cmds[r]:
                    return
                box = self.cmds[r][0]
                try:
                    box["result"] = box["fn"]()
                except Exception as e:  # noqa: BLE001 - handed to the harness
                    box["error"] = e
                self.cmds[r].pop(0)
                box["done"] = True
                del box

        return main

    def run(self, program):
        ctx, w = self.ctx, self.world
        w.run(None, rank_main=self._main(program))
        bad = w.crashed()
        for r, rk in sorted(bad.items()):
            if stub_gap(rk.exc) or "symbolic" in str(rk.exc):
                raise RuntimeError("stand-in gap: " + rk.tb[-1500:])
            ctx.fail("process died", f"rank {r}: " + rk.tb[-1200:])
        ctx.check(not w.errors, "message protocol violated", str(w.errors[:2]))
        ctx.check(w.deadlock is None, "store operation hangs", str(w.deadlock))

    # ------------------------------------------------------------- running code on ranks
    def start(self, r, fn):
        """Let rank r (not 0) run fn; returns a handle for `wait`."""
        box = {"fn": fn}
        self.cmds[r].append(box)
        return box

    def wait(self, *boxes):
        for b in boxes:
            self.world.block(("wait for command",), lambda: b.get("done"))
        for b in boxes:
            if "error" in b:
                e = b.pop("error")
                raise e
        return [b.pop("result", None) for b in boxes]

    def on(self, r, fn):
        if r == 0:
            return fn()
        return self.wait(self.start(r, fn))[0]

    # ------------------------------------------------------------- objects
    def part(self, name, lo=1):
        n = self.ctx.int(name, lo, self.max_len)
        self.parts += 1
        if self.small:
            return bytes([self.parts * 16 + i for i in range(int(n))])
        return Part(n, self.parts)

    def new_object(self, buffers):
        s = self.part("header")
        raw = [self.part("buffer") for _ in range(buffers)]
        if self.small:
            raw = [memoryview(x) for x in raw]
        return {"s_data": s, "raw_buffers": raw, "buffer_count": [buffers]}

    def size(self, obj):
        return symbuf.sym_len(obj["s_data"]) + sum(symbuf.sym_len(b) for b in obj["raw_buffers"])

    def put(self, r, key, buffers=1):
        """Rank r stores a new object; False if the store is full."""
        o = self.new_object(buffers)

        def fn():
            common = self.mods[r](_CORE + "common")
            did = common.MpiDataID(*key)
            self.store[r].put(did, {"s_data": o["s_data"], "raw_buffers": list(o["raw_buffers"]),
                                    "buffer_count": list(o["buffer_count"])})
            self.ids[r, key] = did

        self.on(r, fn)
        self.objects[key] = o
        return o

    def info(self, r, key):
        """The description of an object as it travels to other processes (pickled)."""
        did = self.ids[r, key]
        return self.on(r, lambda: pickle.dumps(dict(self.store[r].get_shared_info(did)), 5))

    def reader(self, r, key, owner, info):
        def fn():
            package = pickle.loads(info)
            did = package["id"]
            v = self.store[r].get(did, owner, package)
            self.ids[r, key] = did
            self.values[r, key] = v

        return fn

    def read(self, r, key, owner, info):
        self.on(r, self.reader(r, key, owner, info))

    def again(self, r, key):
        """Read through the process' own knowledge of the object."""
        def fn():
            self.values[r, key] = self.store[r].get(self.ids[r, key])

        self.on(r, fn)

    def drop_id(self, r, key):
        def fn():
            self.ids.pop((r, key), None)
            gc.collect(0)

        self.on(r, fn)

    def drop_value(self, r, key):
        def fn():
            self.values.pop((r, key), None)
            gc.collect(0)

        self.on(r, fn)

    def users(self, key):
        return [k for k in list(self.ids) + list(self.values) if k[1] == key]

    def cleanup(self, keys):
        """Main program asks every monitor to release objects; returns when they have."""
        def fn():
            imp = self.mods[0]
            comm, common = imp(_CORE + "communication"), imp(_CORE + "common")
            ser = imp(_CORE + "serialization").SimpleDataSerializer()
            st = comm.MPIState.get_instance()
            data = ser.serialize_pickle(list(keys))
            hs = []
            for m in st.monitor_processes:
                hs += comm.isend_serialized_operation(st.global_comm, common.Operation.CLEANUP, data, m)
            for m in st.monitor_processes:
                comm.mpi_send_operation(st.global_comm, common.Operation.GET_TASK_COUNT, m)
                comm.mpi_recv_object(st.global_comm, m)
            for h in hs:
                h[0].Wait()

        self.on(0, fn)

    # ------------------------------------------------------------- the property
    def expect(self, r, key, label="value read from the store differs"):
        v, o = self.values[r, key], self.objects[key]
        self.same(v.s_data, o["s_data"], label)
        self.ctx.check(len(v.raw) == len(o["raw_buffers"]) and list(v.count) == list(o["buffer_count"]), label,
                       "number of buffers")
        for g, x in zip(v.raw, o["raw_buffers"]):
            self.same(g, x, label)

    def same(self, got, want, label):
        if self.small:
            self.ctx.check(bytes(got) == bytes(want), label, f"{bytes(got)} {bytes(want)}")
        else:
            same(self.ctx, symbuf.wrap(got), symbuf.wrap(want), label)

    def expect_all(self, label="value held by a process changed"):
        for (r, key) in list(self.values):
            self.expect(r, key, label)

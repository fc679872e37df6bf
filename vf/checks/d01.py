"""D01: refs identify data uniquely and consistently."""
import copy
import pickle

from .. import engine, prog, symstr
from ..engine import all_of
from ..prog import Run, same
from ..run import Harness
from ..solo import Solo

ASSUMPTIONS = ["random identifiers of the non-MPI backends (uuid4) do not repeat"]
OUTSIDE = ["longer histories and larger numbers than stated", "retrieving, in the main program, refs made by workers"]
STUBS = ["f-strings, str() and hash() in the modules of the identifiers keep symbolic numbers symbolic (vf/symstr.py)"]
S_STUBS = ["mpi4py -> vf/simmpi.py", "clock, psutil, /dev/shm size -> fixed"]
_COMMON = "unidist.core.backends.mpi.core.common"
_DATA_ID = "unidist.core.backends.common.data_id"


def hash_of(x):
    return type(x).__hash__(x)


def identity(ranks, numbers):
    """Identifiers of any two owners and numbers."""

    def h(ctx):
        s = Solo(ctx)
        load = symstr.rewrite(ctx)
        s.world.module_rewrites.update({_COMMON: load, _DATA_ID: load})
        with s:
            c = s.imp(_COMMON)
            s.state()
            a, b = ctx.int("rank", 0, ranks), ctx.int("rank", 0, ranks)
            m, n = ctx.int("number", 0, numbers), ctx.int("number", 0, numbers)
            engine.CONST_HASH[0] = True
            try:
                got = []
                gc = type("GC", (), {"collect": lambda self, d: got.append(d)})()
                x, y = c.MpiDataID(a, m, gc), c.MpiDataID(b, n)
                eqv = all_of(a == b, m == n)
                if ctx.value(eqv):
                    ctx.check(x == y, "copies of an identifier differ", f"{a} {m}")
                    ctx.check(hash_of(x) == hash_of(y), "equal identifiers have different hashes", f"{a} {m}")
                    ctx.reach("same")
                else:
                    ctx.check(x != y, "different identifiers are equal", f"{(a, m)} {(b, n)}")
                    ctx.reach("different")
                way = ctx.pick("copy", ["pickle", "pickle2", "copy", "deepcopy"])
                z = {"pickle": lambda: pickle.loads(pickle.dumps(x)), "pickle2": lambda: pickle.loads(pickle.dumps(x, 2)),
                     "copy": lambda: copy.copy(x), "deepcopy": lambda: copy.deepcopy(x)}[way]()
                ctx.check(z == x and x == z, "a copy of an identifier differs from it", way)
                ctx.check(hash_of(z) == hash_of(x), "equal identifiers have different hashes", way)
                ctx.check((z == y) == (x == y), "a copy of an identifier is equal to another one", way)
                ctx.check(all_of(z.owner_rank == a, z.data_number == m), "a copy of an identifier belongs to another owner", way)
                blob = pickle.dumps(x)
                del x, y, z
                got.clear()
                w = pickle.loads(blob)      # in a process that has no such identifier any more
                v = c.MpiDataID(a, m)
                ctx.check(w == v, "an identifier read later differs", "")
                ctx.check(hash_of(w) == hash_of(v), "equal identifiers have different hashes", "later")
            finally:
                x = y = z = w = v = None
                engine.CONST_HASH[0] = False
    return h


def counters(obj):
    return {k: v for k, v in vars(obj).items() if type(v) is int}


def history(top, later):
    """Identifiers given after any number of earlier ones."""

    def h(ctx):
        s = Solo(ctx)
        load = symstr.rewrite(ctx)
        s.world.module_rewrites.update({_COMMON: load, _DATA_ID: load})
        with s:
            s.imp(_COMMON)
            s.state()
            store = s.imp("unidist.core.backends.mpi.core.local_object_store").LocalObjectStore.get_instance()
            states, ids = [counters(store)], []
            engine.CONST_HASH[0] = True
            try:
                for _ in range(3):
                    ids.append(store.generate_data_id(None))
                    states.append(counters(store))
                moving = [k for k in states[0] if states[0][k] != states[1].get(k)]
                step = {k: states[1][k] - states[0][k] for k in moving}
                if moving and all(b[k] - a[k] == step[k] for a, b in zip(states, states[1:]) for k in moving):
                    # a number per identifier: jump over any number of further identifiers
                    more = ctx.int("further identifiers", 0, top)
                    for k in moving:
                        setattr(store, k, states[-1][k] + step[k] * more)
                    ctx.reach("jump")
                    count = 2
                else:
                    count = later
                ids += [store.generate_data_id(None) for _ in range(count)]
                if count == 2:
                    for i, x in enumerate(ids):
                        for y in ids[:i]:
                            ctx.check(x != y, "a later ref is the same as an earlier one", f"{x} {y}")
                else:
                    ctx.check(len({repr(x) for x in ids}) == len(ids), "a later ref is the same as an earlier one")
                ctx.reach("compared")
            finally:
                ids = x = y = None
                engine.CONST_HASH[0] = False
    return h


def makes(token, ops, v):
    """Creates refs inside a task; returns them, kept in a list."""
    import unidist

    prog.LOG.append(("start", token))
    out = []
    for o in ops:
        if o == "put":
            out.append(unidist.put(v))
        elif o == "task":
            out.append(unidist.remote(prog.plain).remote(v))
        elif o == "two":
            out += unidist.remote(prog.plain2).options(num_returns=2).remote(v)
    prog.LOG.append(("end", token))
    return out


def matrix(token, xs, ys):
    """Comparisons and hash comparisons made inside a task."""
    prog.LOG.append(("start", token))
    r = [[(x._ref == y._ref, hash(x._ref) == hash(y._ref)) for y in ys.items] for x in xs.items]
    prog.LOG.append(("end", token))
    return r


OPS = [["put"], ["task"], ["two"], ["put", "two"], ["task", "put"]]


def distinct(n, hosts, shared, dev, steps):
    def h(ctx):
        run = Run(ctx, n, shared=shared, hosts=hosts, deviations=dev)
        script = [ctx.pick("step", ["put", "task", "two", "drop", "worker"]) for _ in range(steps)]

        def program(u, r):
            refs, vals, seen, far = [], [], [], []
            for st in script + ["put"]:
                v = ctx.int("v", -9, 9)
                if st == "put":
                    refs.append(u.put(v))
                    seen.append(repr(refs[-1]._ref))
                    vals.append(v)
                elif st == "task":
                    refs.append(r.call(prog.total, r.token(), v))
                    seen.append(repr(refs[-1]._ref))
                    vals.append(v)
                elif st == "two":
                    refs += r.call(prog.fan, r.token(), 2, v, num_returns=2)
                    seen += [repr(x._ref) for x in refs[-2:]]
                    vals += [v, v + 1]
                elif st == "drop" and refs:
                    refs.pop(0)
                    vals.pop(0)
                elif st == "worker":
                    far += u.get(r.call(makes, r.token(), ctx.pick("ops", OPS), v))
                    ctx.reach("workers create refs")
            everything = refs + far
            for i, x in enumerate(everything):
                for j, y in enumerate(everything):
                    ctx.check((x._ref == y._ref) == (i == j), "different refs are equal", f"{x._ref} {y._ref} {script}")
            ctx.check(len(set(seen)) == len(seen), "a later ref is the same as an earlier one", f"{seen}")
            a, b = everything[:4], everything[-4:]
            got = u.get(r.call(matrix, r.token(), prog.Holder(a + b), prog.Holder([everything[0], everything[-1]])))
            for i, x in enumerate(a + b):
                for j, y in enumerate([everything[0], everything[-1]]):
                    e = x._ref == y._ref
                    ctx.check(got[i][j][0] == e and (got[i][j][1] or not e), "refs compare differently in another process",
                              f"{x._ref} {y._ref}: {got[i][j]}")
            back = u.get(r.call(prog.held, r.token(), prog.Holder(refs)))
            ctx.check(len(back) == len(refs), "refs are lost on the way")
            for x, y, v in zip(refs, back, vals):
                ctx.check(x._ref == y._ref and hash(x._ref) == hash(y._ref), "a ref that travelled differs from the original", f"{x._ref} {y._ref}")
                ctx.check(same(u.get(y), v), "a ref that travelled denotes another value")
            ctx.reach("travelled")

        run.run(program)
    return h


def harnesses(tier):
    q = tier == "quick"
    return [
        Harness("identity", identity(999, 9999) if q else identity(99999, 9999999), "two identifiers, ranks 0..%s, numbers 0..%s"
                % ((999, 9999) if q else (99999, 9999999)), ["same", "different"], budget=120, tbudget=1800, stubs=STUBS),
        Harness("history", history(1 << 40, 5000), "three identifiers, then 0..2^40 further ones, then two more", ["compared"], budget=60,
                tbudget=600, stubs=STUBS + ["the further identifiers: the counter of the store is advanced by as many steps"]),
        Harness("distinct", distinct(4, None, False, 0, 3 if q else 5), "every history of %d steps (put, task, two outputs, drop, refs created "
                "inside tasks), 2 workers, symbolic values" % (3 if q else 5), ["workers create refs", "travelled"], budget=120, tbudget=1800,
                stubs=S_STUBS),
        Harness("distinct on hosts", distinct(6, {0: 0, 1: 0, 2: 0, 3: 1, 4: 1, 5: 1}, 1000, 0, 3), "every history of 3 steps, two hosts, shared store, 3 workers",
                ["workers create refs", "travelled"], budget=120, tbudget=1800, stubs=S_STUBS),
    ]

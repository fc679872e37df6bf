"""Programs over the public API with a plain-Python reference, for the backends without MPI.

A program is a symbolic sequence of operations; every operation is also carried out in plain Python on
the same (symbolic) values.  References are kept together with the outcome plain Python gives."""
from . import prog
from .prog import same, LOG, Failure


def cond(token, x, limit):
    """Fails for some inputs."""
    LOG.append(("start", token))
    LOG.append(("end", token))
    if x > limit:
        raise Failure(x)
    return x - 1


def outputs(token, kind, n, x):
    """n outputs delivered as a list, a tuple or lazily."""
    LOG.append(("start", token))
    LOG.append(("end", token))
    vals = [x + 3 * i for i in range(n)]
    return vals if kind == "list" else tuple(vals) if kind == "tuple" else (v for v in vals)


def closure(token, x):
    LOG.append(("start", token))
    LOG.append(("end", token))
    return [lambda y: x + y]


def apply(token, fs, y):
    LOG.append(("start", token))
    LOG.append(("end", token))
    return fs[0](y)


def local_error(token, x):
    class Local(Exception):
        pass

    LOG.append(("start", token))
    LOG.append(("end", token))
    raise Local(x)


def retrieve(token, refs):
    """References inside a container are passed on unchanged; the task retrieves them itself."""
    import unidist

    LOG.append(("start", token))
    s = 0
    for r in refs:
        s = s + (unidist.get(r) if unidist.is_object_ref(r) else r)
    LOG.append(("end", token))
    return s


class Machine:
    outputs = [(2, "list", 2), (3, "lazy", 3), (2, "tuple", 3), (2, "lazy", 1)]  # number, form, how many are delivered

    def __init__(self, ctx, u, r, drain=None):
        self.ctx, self.u, self.r, self.drain = ctx, u, r, drain
        self.refs = []  # (ref, ("value", v) | ("raised", exception class name, payload or None))
        self.tasks = []  # (token, must run)
        self.actors = []  # [handle, state, history]
        self.maker = None

    # ---- arguments
    def val(self, name="v"):
        return self.ctx.int(name, -50, 50)

    def arg(self):
        """A plain value or any earlier reference; returns (argument, outcome)."""
        i = self.ctx.pick("arg", [-1] + list(range(len(self.refs))))
        if i < 0:
            v = self.val()
            return v, ("value", v)
        ref, out = self.refs[i]
        if out[0] == "value" and not _number(out[1]):
            v = self.val()
            return v, ("value", v)
        return ref, out

    def _add(self, ref, out):
        self.refs.append((ref, out))

    def _call(self, f, *args, ins=(), **kw):
        t = self.r.token()
        bad = [o for o in ins if o[0] == "raised"]
        self.tasks.append((t, not bad))
        return self.r.call(f, t, *args, **kw), (bad[0] if bad else None)

    # ---- operations
    def op_put(self):
        v = self.val()
        k = self.ctx.pick("what", ["number", "container"])
        x = v if k == "number" else {"a": [v, (v, None)], "b": "text"}
        self._add(self.u.put(x), ("value", x))

    def op_total(self):
        (a, oa), (b, ob) = self.arg(), self.arg()
        if self.r.tok % 2:
            ref, bad = self._call(prog.total, a, ins=(oa, ob), other=b)
        else:
            ref, bad = self._call(prog.total, a, b, ins=(oa, ob))
        self._add(ref, bad or ("value", oa[1] + ob[1]))

    def op_echo(self):
        """Arguments arrive as they were given."""
        a, oa = self.arg()
        v = self.val()
        ref, bad = self._call(prog.echo, [v, {"k": (v,)}], a, ins=(oa,), k=v, z=None)
        self._add(ref, bad or ("value", [[[v, {"k": (v,)}], oa[1]], {"k": v, "z": None}]))

    def op_outputs(self):
        n, kind, have = self.ctx.pick("outputs", self.outputs)
        a, oa = self.arg()
        refs, bad = self._call(outputs, kind, have, a, ins=(oa,), num_returns=n)
        self.ctx.check(isinstance(refs, list) and len(refs) == n, "number of refs differs from num_returns")
        for i, ref in enumerate(refs):
            self._add(ref, bad or (("value", oa[1] + 3 * i) if have >= n else ("raised", "ValueError", None)))

    def op_none(self):
        a, oa = self.arg()
        ref, _ = self._call(prog.total, a, ins=(oa,), num_returns=0)
        self.ctx.check(ref is None, "call with num_returns=0 does not return None")

    def op_cond(self):
        a, oa = self.arg()
        lim = self.val("limit")
        ref, bad = self._call(cond, a, lim, ins=(oa,))
        if bad is None:
            bad = ("raised", "Failure", oa[1]) if oa[1] > lim else ("value", oa[1] - 1)
        self._add(ref, bad)

    def op_container(self):
        """References in a list are not replaced; a task can retrieve them."""
        ok = [(r, o) for r, o in self.refs if o[0] == "value" and _number(o[1])][-2:]
        ref, _ = self._call(retrieve, [r for r, _ in ok])
        s = 0
        for _, o in ok:
            s = s + o[1]
        self._add(ref, ("value", s))

    def op_actor(self):
        v = self.val()
        if self.maker is None:
            # actors are made from one kept object, as a program does
            cls = self.u.remote(prog.Acc)
            self.maker = cls if self.ctx.pick("made from", ["class", "options"]) == "class" else cls.options()
        self.actors.append([self.maker.remote(v), v, 0])

    def op_method(self, options=("add", "two", "boom", "none")):
        if not self.actors:
            self.op_actor()
        k = self.ctx.pick("which", list(range(len(self.actors))))
        act = self.actors[k]
        t = self.r.token()
        kind = self.ctx.pick("method", list(options))
        if kind == "two":
            self.tasks.append((t, True))
            act[2] += 1
            refs = act[0].two.options(num_returns=2).remote(t)
            self.ctx.check(isinstance(refs, list) and len(refs) == 2, "number of refs differs from num_returns")
            self._add(refs[0], ("value", act[1]))
            self._add(refs[1], ("value", act[2]))
        elif kind == "boom":
            self.tasks.append((t, True))
            v = self.val()
            act[2] += 1
            self._add(act[0].boom.remote(t, v), ("raised", "Failure", v))
        else:
            a, oa = self.arg()
            self.tasks.append((t, oa[0] == "value"))
            m = act[0].add
            if kind == "none":
                self.ctx.check(m.options(num_returns=0).remote(t, y=a) is None,
                               "call with num_returns=0 does not return None")
            else:
                ref = m.remote(t, a) if kind == "add" else m.remote(t, 0, y=a)
            if oa[0] == "value":
                act[1] = act[1] + oa[1]
                act[2] += 1
            if kind != "none":
                self._add(ref, oa if oa[0] == "raised" else ("value", act[1]))

    def op_get(self):
        """An early get (also of a list)."""
        ok = [i for i, (_, o) in enumerate(self.refs) if o[0] == "value"]
        if not ok:
            return
        i = self.ctx.pick("first", ok)
        got = self.u.get([self.refs[i][0], self.refs[ok[0]][0], self.refs[i][0]])
        self.ctx.check(isinstance(got, list) and len(got) == 3, "get of a list has another length")
        for g, j in zip(got, [i, ok[0], i]):
            self.ctx.check(same(g, self.refs[j][1][1]), "get returns another value", f"{g!r}")

    def op_wait(self):
        refs = [r for r, _ in self.refs]
        if not refs:
            return
        n = self.ctx.pick("wanted", list(range(1, len(refs) + 1)))
        before = list(refs)
        ready, rest = self.u.wait(refs, num_returns=n)
        self.ctx.check(refs == before, "wait changes its argument")
        self.ctx.check(len(ready) == n, "wait returns another number of refs as completed")
        ids = [x._ref for x in ready + rest]
        self.ctx.check(sorted(map(str, ids)) == sorted(str(x._ref) for x in before),
                       "wait loses, duplicates or invents refs")
        order = [str(x._ref) for x in before]
        for x in ready:
            # it is complete: retrieving it does not wait
            self.settle(before[order.index(str(x._ref))], self.refs[order.index(str(x._ref))][1])

    # ---- checks
    def settle(self, ref, out):
        got = prog.outcome(self.u, ref)
        if out[0] == "value":
            self.ctx.check(got[0] == "value", "a task that succeeds is reported as failed", repr(got[1]))
            self.ctx.check(same(got[1], out[1]), "get returns another value", f"{got[1]!r} instead of {out[1]!r}")
        else:
            self.ctx.check(got[0] == "raised", "a failure is lost", f"{got[1]!r} instead of {out[1:]}")
            self.ctx.check(type(got[1]).__name__ == out[1], "another exception is raised",
                           f"{got[1]!r} instead of {out[1:]}")
            if out[2] is not None:
                self.ctx.check(same(got[1].args[0], out[2]), "the exception carries another payload", repr(got[1]))

    def finish(self):
        for ref, out in self.refs:
            self.settle(ref, out)
        ok = [(r, o) for r, o in reversed(self.refs) if o[0] == "value"]
        got = self.u.get([r for r, _ in ok])
        self.ctx.check(isinstance(got, list) and len(got) == len(ok), "get of a list has another length")
        for g, (_, o) in zip(got, ok):
            self.ctx.check(same(g, o[1]), "get returns another value", f"{g!r} instead of {o[1]!r}")
        for h, v, n in self.actors:
            self.ctx.check(same(self.u.get(h.get.remote()), v), "actor state differs")
        if self.drain:
            self.drain()
        for t, must in self.tasks:
            k = prog.executed(t)
            if must:
                self.ctx.check(k == 1, "a task is not executed exactly once", f"{k} times")
            else:
                self.ctx.check(k == 0, "a task is executed although an argument failed")

    def run(self, ops, steps):
        for i in range(steps):
            k = self.ctx.pick("op", ops[i] if isinstance(ops, list) else list(ops))
            getattr(self, "op_" + k)()
            self.ctx.reach(k)
        self.finish()


def _number(x):
    from .engine import is_sym

    return is_sym(x) or type(x) is int


def half_bad(token):
    """The second of two outputs cannot be transferred."""
    LOG.append(("start", token))
    LOG.append(("end", token))
    return [1, (i for i in range(3))]


def volume(ctx, u, r, n, wait=True):
    """Many tasks, values, calls, failures and outputs in one program."""
    v = ctx.int("v", -9, 9)
    a = u.remote(prog.Acc).remote(v)
    refs, exp, calls, state = [], [], [], v
    for i in range(n):
        if i % 4 == 0:
            refs.append(u.put(v + i))
            exp.append(v + i)
        elif i % 4 == 1:
            refs.append(r.call(prog.total, r.token(), refs[-1], i))
            exp.append(exp[-1] + i)
        else:
            refs.append(r.call(prog.total, r.token(), i, v))
            exp.append(i + v)
        if i % 3 == 0:
            ref = a.add.remote(r.token(), i)
            state = state + i
            calls.append((ref, state))
    bad = [r.call(prog.fail, r.token(), i) for i in range(20)]
    if wait:
        ready, rest = u.wait(list(refs), num_returns=n - 3)
        ctx.check(len(ready) == n - 3 and len(rest) == 3, "wait returns another number of refs")
    ctx.check(prog.same(u.get(list(reversed(refs)) + refs), list(reversed(exp)) + exp), "get returns another value")
    ctx.check(prog.same(u.get([c for c, _ in calls]), [e for _, e in calls]), "method call result")
    for i, b in enumerate(bad):
        how, e = prog.outcome(u, b)
        ctx.check(how == "raised" and getattr(e, "code", None) == i, "another failure is reported", f"{how} {e!r}")
    outs = r.call(prog.fan, r.token(), 30, v, num_returns=30)
    ctx.check(prog.same(u.get(list(outs)), [v + i for i in range(30)]), "get returns another value")
    ctx.reach("volume")

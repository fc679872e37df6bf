"""Path-exploring symbolic executor for real (CPython) code with z3-backed values.

A *harness* is a function ``h(ctx)``.  It asks ``ctx`` for inputs
(``ctx.int``/``ctx.bool``/``ctx.pick``...), runs code imported from /repo on
them and states the property with ``ctx.check``.

Symbolic mode: inputs are z3 terms wrapped in ``SymInt``/``SymBool``.  Whenever
the code under test needs a concrete truth value (``if``, ``while``, ``and``)
the solver decides which outcomes are feasible under the path condition and the
harness is re-executed once per feasible outcome.  ``ctx.check(c)`` asks the
solver for a model of  path-condition AND NOT c;  unsat discharges the
assertion for *every* value on that path, a model is a counterexample.

Concrete mode (replay): the very same harness runs with plain Python values
taken from the model, no proxies, against the real code.  Only a counterexample
which fails again in this mode is reported.
"""
import math
import os
import sys
import time
import traceback

for _p in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
    if _p not in sys.path:
        sys.path.append(_p)
from . import REPO
import z3  # noqa: E402

CTX = None


_PENDING = [None]


def pending_stop():
    return _PENDING[0]


class Stop(BaseException):
    """Base of engine control flow (never caught by code under test's `except Exception`).

    The first one raised on a path is remembered, so that it is not lost when it
    is raised on a helper thread or inside an asyncio task."""

    def __new__(cls, *a, **k):
        o = super().__new__(cls, *a, **k)
        if _PENDING[0] is None:
            _PENDING[0] = o
        return o


class Infeasible(Stop):
    pass


class Violation(Stop):
    def __init__(self, label, detail=""):
        if callable(detail):
            # worked out in the concrete replay only
            detail = "" if isinstance(CTX, SymCtx) else detail()
        self.label, self.detail = label, detail


class Inconclusive(Stop):
    pass


class BoundExceeded(Stop):
    pass


# --------------------------------------------------------------------------
# symbolic values
# --------------------------------------------------------------------------

_REG = {}


def _lookup(key):
    return _REG[key]


def _z(x):
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if hasattr(x, "__index__") and not isinstance(x, (float, str, bytes)):
        return z3.IntVal(x.__index__())
    return None


def _zb(x):
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, SymInt):
        return x.e != 0
    return z3.BoolVal(bool(x))


def _num(e):
    if z3.is_int_value(e):
        return e.as_long()
    s = z3.simplify(e)
    if z3.is_int_value(s):
        return s.as_long()
    return SymInt(s)


def _bool(e):
    s = z3.simplify(e)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return SymBool(s)


class SymBool:
    __slots__ = ("e", "__weakref__")

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return CTX.branch(self.e)

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool)):
            return _bool(self.e == _zb(o))
        z = _z(o)
        return NotImplemented if z is None else _bool(_z(self) == z)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sym_not(r)

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, o):
        return _bool(z3.And(self.e, _zb(o)))

    def __or__(self, o):
        return _bool(z3.Or(self.e, _zb(o)))

    __rand__, __ror__ = __and__, __or__

    def __xor__(self, o):
        return _bool(z3.Xor(self.e, _zb(o)))

    __rxor__ = __xor__

    def __invert__(self):
        return _bool(z3.Not(self.e))

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __add__(self, o):
        return _num(_z(self)) + o

    __radd__ = __add__

    def __reduce__(self):
        _REG[id(self)] = self
        return _lookup, (id(self),)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return "<symbool>"


def sym_not(x):
    if isinstance(x, SymBool):
        return _bool(z3.Not(x.e))
    return not x


def _arith(f, swap=False):
    def op(self, o):
        if isinstance(o, float):
            return _real_op(f, self, o, swap)
        z = _z(o)
        if z is None:
            return NotImplemented
        a, b = (z, self.e) if swap else (self.e, z)
        return _num(f(a, b))

    return op


def _cmp(f):
    def op(self, o):
        if isinstance(o, float):
            if o in (float("inf"), float("-inf")):
                return bool(f(0, o))
            return _bool(f(z3.ToReal(self.e), z3.RealVal(repr(o))))
        if isinstance(o, SymReal):
            return _bool(f(z3.ToReal(self.e), o.e))
        z = _z(o)
        if z is None:
            return NotImplemented
        return _bool(f(self.e, z))

    return op


def _real_op(f, a, o, swap):
    x, y = z3.ToReal(a.e), z3.RealVal(repr(o))
    if swap:
        x, y = y, x
    return SymReal(z3.simplify(f(x, y)))


def _fdiv(a, b):
    # Python floor division; z3 div is Euclidean
    b = z3.simplify(b)
    if z3.is_int_value(b):
        v = b.as_long()
        if v == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if v > 0:
            return a / b
        return z3.If(a % b == 0, a / b, -(a / (-b)) - z3.If(a % (-b) == 0, 0, 1))
    if CTX.branch(b == 0):
        raise ZeroDivisionError("integer division or modulo by zero")
    if CTX.branch(b > 0):
        return a / b
    nb = -b
    na = -a
    return na / nb  # floor(a/b) == floor((-a)/(-b))


def _fmod(a, b):
    b = z3.simplify(b)
    if z3.is_int_value(b) and b.as_long() > 0:
        return a % b
    return a - b * _fdiv(a, b)


def _rational(e):
    """(integer expression, positive denominator) with e == integer/denominator, or None."""
    if z3.is_rational_value(e):
        return z3.IntVal(e.numerator_as_long()), e.denominator_as_long()
    k = e.decl().kind()
    if k == z3.Z3_OP_TO_REAL:
        return e.arg(0), 1
    if k == z3.Z3_OP_ADD:
        num, den = z3.IntVal(0), 1
        for c in e.children():
            r = _rational(c)
            if r is None:
                return None
            m = den * r[1] // math.gcd(den, r[1])
            num, den = num * (m // den) + r[0] * (m // r[1]), m
        return num, den
    if k == z3.Z3_OP_UMINUS:
        r = _rational(e.arg(0))
        return r and (-r[0], r[1])
    if k == z3.Z3_OP_MUL:
        num, den = 1, 1
        rest = None
        for c in e.children():
            if z3.is_rational_value(c):
                num, den = num * c.numerator_as_long(), den * c.denominator_as_long()
            elif rest is None:
                rest = _rational(c)
                if rest is None:
                    return None
            else:
                return None
        rest = rest or (z3.IntVal(1), 1)
        return rest[0] * num, rest[1] * den
    return None


def _floor(e):
    r = _rational(z3.simplify(e))
    return z3.ToInt(e) if r is None else r[0] / z3.IntVal(r[1])


class SymReal:
    """Exact-rational stand-in for a float produced from symbolic ints."""

    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @staticmethod
    def _r(o):
        if isinstance(o, SymReal):
            return o.e
        if isinstance(o, float):
            return z3.RealVal(repr(o))
        return z3.ToReal(_z(o))

    def __add__(self, o):
        return SymReal(z3.simplify(self.e + self._r(o)))

    __radd__ = __add__

    def __sub__(self, o):
        return SymReal(z3.simplify(self.e - self._r(o)))

    def __rsub__(self, o):
        return SymReal(z3.simplify(self._r(o) - self.e))

    def __mul__(self, o):
        return SymReal(z3.simplify(self.e * self._r(o)))

    __rmul__ = __mul__

    def __truediv__(self, o):
        return SymReal(z3.simplify(self.e / self._r(o)))

    def __rtruediv__(self, o):
        return SymReal(z3.simplify(self._r(o) / self.e))

    def __floordiv__(self, o):
        return SymReal(z3.ToReal(z3.ToInt(self.e / self._r(o))))

    def __lt__(self, o):
        return _bool(self.e < self._r(o))

    def __le__(self, o):
        return _bool(self.e <= self._r(o))

    def __gt__(self, o):
        return _bool(self.e > self._r(o))

    def __ge__(self, o):
        return _bool(self.e >= self._r(o))

    def __eq__(self, o):
        return _bool(self.e == self._r(o))

    def __ne__(self, o):
        return _bool(self.e != self._r(o))

    __hash__ = None

    def __bool__(self):
        return CTX.branch(self.e != 0)

    def trunc(self):
        return _num(z3.If(self.e >= 0, _floor(self.e), -_floor(-self.e)))

    def __floor__(self):
        return _num(_floor(self.e))

    def __ceil__(self):
        return _num(-_floor(-self.e))

    def __trunc__(self):
        return self.trunc()

    def __round__(self, nd=None):
        return _num(_floor(self.e + z3.RealVal("1/2")))

    def __repr__(self):
        return "<symreal>"


# set while every number used as a key is symbolic: keys are then compared by the solver
CONST_HASH = [False]


class SymInt:
    __slots__ = ("e", "__weakref__")

    def __init__(self, e):
        self.e = e

    __add__ = _arith(lambda a, b: a + b)
    __radd__ = _arith(lambda a, b: a + b, True)
    __sub__ = _arith(lambda a, b: a - b)
    __rsub__ = _arith(lambda a, b: a - b, True)
    __mul__ = _arith(lambda a, b: a * b)
    __rmul__ = _arith(lambda a, b: a * b, True)
    __floordiv__ = _arith(_fdiv)
    __rfloordiv__ = _arith(_fdiv, True)
    __mod__ = _arith(_fmod)
    __rmod__ = _arith(_fmod, True)
    __lt__ = _cmp(lambda a, b: a < b)
    __le__ = _cmp(lambda a, b: a <= b)
    __gt__ = _cmp(lambda a, b: a > b)
    __ge__ = _cmp(lambda a, b: a >= b)
    __eq__ = _cmp(lambda a, b: a == b)
    __ne__ = _cmp(lambda a, b: a != b)

    def __truediv__(self, o):
        if isinstance(o, (SymInt, int)):
            if CTX.branch(_z(o) == 0):
                raise ZeroDivisionError("division by zero")
        return SymReal(z3.simplify(z3.ToReal(self.e) / SymReal._r(o)))

    def __rtruediv__(self, o):
        if CTX.branch(self.e == 0):
            raise ZeroDivisionError("division by zero")
        return SymReal(z3.simplify(SymReal._r(o) / z3.ToReal(self.e)))

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __neg__(self):
        return _num(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return _num(z3.If(self.e >= 0, self.e, -self.e))

    def __bool__(self):
        return CTX.branch(self.e != 0)

    def __hash__(self):
        if CONST_HASH[0]:
            return 5
        return hash(CTX.concretize(self.e))

    def __index__(self):
        return CTX.concretize(self.e)

    __int__ = __index__

    def __trunc__(self):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def __round__(self, nd=None):
        return self

    def _conc(name):
        def op(self, o, *a):
            return getattr(CTX.concretize(self.e), name)(
                CTX.concretize(o.e) if isinstance(o, SymInt) else o, *a
            )

        return op

    __and__ = _conc("__and__")
    __rand__ = _conc("__rand__")
    __or__ = _conc("__or__")
    __ror__ = _conc("__ror__")
    __xor__ = _conc("__xor__")
    __lshift__ = _conc("__lshift__")
    __rshift__ = _conc("__rshift__")
    __pow__ = _conc("__pow__")
    del _conc

    def bit_length(self):
        return CTX.concretize(self.e).bit_length()

    @property
    def real(self):
        return self

    def is_integer(self):
        return True

    def __reduce__(self):
        _REG[id(self)] = self
        return _lookup, (id(self),)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return "<symint>"

    __str__ = __repr__

    def __format__(self, spec):
        return "<symint>"


def all_of(*cs):
    """Conjunction that does not fork."""
    cs = [c for c in cs if c is not True]
    if any(c is False for c in cs):
        return False
    if not cs:
        return True
    return _bool(z3.And([_zb(c) for c in cs]))


def any_of(*cs):
    cs = [c for c in cs if c is not False]
    if any(c is True for c in cs):
        return True
    if not cs:
        return False
    return _bool(z3.Or([_zb(c) for c in cs]))


def implies(a, b):
    return any_of(sym_not(a) if isinstance(a, SymBool) else not a, b)


def ite(c, a, b):
    if isinstance(c, SymBool):
        return _num(z3.If(c.e, _z(a), _z(b)))
    return a if c else b


def is_sym(x):
    return isinstance(x, (SymInt, SymBool, SymReal))


# --------------------------------------------------------------------------
# contexts
# --------------------------------------------------------------------------


class _Ctx:
    symbolic = False

    def _init_common(self):
        self.counts = {}
        self.reached = {}
        self.checks = 0
        self.trace = []
        self.notes = []
        self.want_model = False

    def _name(self, name):
        k = self.counts.get(name, 0)
        self.counts[name] = k + 1
        return f"{name}#{k}"

    def reach(self, label):
        """Reachability witness (vacuity guard)."""
        self.reached[label] = self.reached.get(label, 0) + 1

    def log(self, msg):
        self.trace.append(str(msg))

    def fail(self, label, detail=""):
        self.check(False, label, detail)

    def pick(self, name, options):
        """Symbolic choice out of a concrete list."""
        options = list(options)
        if not options:
            raise Infeasible()
        i = self.int(name, 0, len(options) - 1)
        return options[self.value(i)]


class SymCtx(_Ctx):
    symbolic = True

    def __init__(self, prefix, opts, stats):
        self._init_common()
        self.prefix = prefix
        self.pos = 0
        self.decisions = []
        self.forks = []
        self.opts = opts
        self.stats = stats
        self.s = z3.Solver()
        self.s.set("timeout", opts.get("timeout_ms", 60000))
        self.inputs = {}
        self.model = None
        self.fresh = 0
        self.eager = bool(opts.get("eager"))

    # ---- solver
    def _check(self, *assump):
        t = time.perf_counter()
        r = self.s.check(*assump)
        self.stats["queries"] += 1
        self.stats["solver_s"] += time.perf_counter() - t
        if r == z3.unknown:
            self.stats["unknown"] += 1
            raise Inconclusive("solver returned unknown: " + self.s.reason_unknown())
        return r == z3.sat

    def add(self, e):
        self.s.add(e)

    # ---- inputs
    def int(self, name, lo=None, hi=None):
        n = self._name(name)
        if lo is not None and lo is not SymInt and lo == hi and not is_sym(lo):
            self.inputs[n] = z3.IntVal(lo)
            return lo
        v = z3.Int(n)
        self.inputs[n] = v
        if lo is not None:
            self.add(v >= _z(lo))
        if hi is not None:
            self.add(v <= _z(hi))
        if self.opts.get("eager"):
            return self.concretize(v)
        return SymInt(v)

    def bool(self, name):
        n = self._name(name)
        v = z3.Bool(n)
        self.inputs[n] = v
        if self.opts.get("eager"):
            return self.branch(v)
        return SymBool(v)

    def bv(self, name, width):
        n = self._name(name)
        v = z3.BitVec(n, width)
        self.inputs[n] = v
        return v

    def assume(self, c):
        if c is True:
            return
        if c is False:
            raise Infeasible()
        self.add(c if z3.is_expr(c) else _zb(c))
        if self.pos >= len(self.prefix) and not self._check():
            raise Infeasible()

    # ---- decisions
    def _next(self):
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            return d
        return None

    def branch(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        d = self._next()
        if d is None:
            if len(self.decisions) >= self.opts.get("max_depth", 4000):
                raise BoundExceeded("decision depth bound")
            t = self._check(cond)
            f = self._check(z3.Not(cond)) if t else True
            if t and f:
                self.forks.append(self.decisions + [("b", False)])
            elif not t and not f:
                raise Infeasible()
            d = ("b", bool(t))
            self.decisions.append(d)
            self.pos += 1
        else:
            self.pos += 1
            self.decisions.append(d)
        val = d[1]
        self.add(cond if val else z3.Not(cond))
        return val

    def concretize(self, e):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        d = self._next()
        if d is not None and d[0] == "c":
            self.pos += 1
            self.decisions.append(d)
            self.add(e == d[1])
            return d[1]
        ex = []
        if d is not None:
            assert d[0] == "x", d
            ex = list(d[1])
            self.pos += 1
        if self.opts.get("eager"):
            if len(ex) >= self.opts.get("eager_values", 6):
                raise Infeasible()
        elif len(ex) > self.opts.get("max_values", 64):
            raise BoundExceeded("concretisation bound")
        for v in ex:
            self.add(e != v)
        if not self._check():
            raise Infeasible()
        v = self.s.model().eval(e, model_completion=True).as_long()
        # prefer small values: deterministic, readable counterexamples
        if self._check(e != v):
            self.forks.append(self.decisions + [("x", ex + [v])])
        self.decisions.append(("c", v))
        self.add(e == v)
        return v

    def value(self, x):
        if isinstance(x, SymInt):
            return self.concretize(x.e)
        if isinstance(x, SymBool):
            return self.branch(x.e)
        return x

    # ---- assertions
    def check(self, c, label, detail=""):
        self.checks += 1
        self.stats["assertions"] += 1
        if c is True:
            self.stats["assertions_trivial"] += 1
            return
        if c is False:
            if not self._check():
                raise Infeasible()
            self.model = self.s.model()
            raise Violation(label, detail)
        if z3.is_expr(c):
            c = _bool(c)
            if c is True or c is False:
                return self.check(c, label, detail)
        if not isinstance(c, (SymBool, SymInt)):
            if c:
                return
            return self.check(False, label, detail)
        neg = z3.Not(_zb(c))
        if self._check(neg):
            self.model = self.s.model()
            raise Violation(label, detail)
        self.stats["assertions_proved"] += 1

    def proves(self, c):
        """Does c hold for every value on this path? (no assertion, no fork)"""
        return not self._check(z3.Not(c if z3.is_expr(c) else _zb(c)))

    def model_dict(self):
        out = {"__eager": True} if self.eager else {}
        m = self.model
        if m is None:
            if not self._check():
                raise Infeasible()
            m = self.s.model()
        for n, v in self.inputs.items():
            x = m.eval(v, model_completion=True)
            if z3.is_int_value(x) or z3.is_bv_value(x):
                out[n] = x.as_long()
            elif z3.is_true(x) or z3.is_false(x):
                out[n] = z3.is_true(x)
            else:
                out[n] = str(x)
        return out


class ConcreteCtx(_Ctx):
    """Replay with plain Python values."""

    def __init__(self, model):
        self._init_common()
        self.m = dict(model)
        self.eager = bool(self.m.get("__eager"))

    def int(self, name, lo=None, hi=None):
        n = self._name(name)
        v = self.m.get(n)
        if v is None:
            v = lo if lo is not None else 0
        v = int(v)
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Infeasible()
        return v

    def bool(self, name):
        return bool(self.m.get(self._name(name), False))

    def bv(self, name, width):
        return int(self.m.get(self._name(name), 0))

    def assume(self, c):
        if not c:
            raise Infeasible()

    def value(self, x):
        return x

    def check(self, c, label, detail=""):
        self.checks += 1
        if not c:
            raise Violation(label, detail)


# --------------------------------------------------------------------------
# explorer
# --------------------------------------------------------------------------


def new_stats():
    return dict(
        paths=0,
        infeasible=0,
        queries=0,
        solver_s=0.0,
        unknown=0,
        decisions=0,
        assertions=0,
        assertions_trivial=0,
        assertions_proved=0,
        checks_max_path=0,
    )


def run_path(harness, prefix, opts, stats):
    """Run one path. Returns (status, info, forks, ctx)."""
    global CTX
    ctx = SymCtx(prefix, opts, stats)
    CTX = ctx
    _REG.clear()
    _PENDING[0] = None
    status, info = "ok", None
    try:
        harness(ctx)
    except Infeasible:
        status = "infeasible"
    except Violation as v:
        status = "violation"
        info = dict(label=v.label, detail=str(v.detail)[:2000], model=ctx.model_dict(),
                    trace=ctx.trace[-200:])
    except Inconclusive as e:
        status, info = "inconclusive", str(e)
    except BoundExceeded as e:
        status, info = "bound", str(e)
    except Exception:
        status, info = "error", traceback.format_exc()
        try:
            info += "\nMODEL " + repr(ctx.model_dict())
        except BaseException:
            pass
    finally:
        CTX = None
    if status == "infeasible":
        stats["infeasible"] += 1
    else:
        stats["paths"] += 1
    return status, info, ctx.forks, ctx


def _explore_chunk(args):
    harness, prefixes, opts, budget_s, max_paths = args
    stats = new_stats()
    todo = list(prefixes)
    reached, problems, viols, models = {}, [], [], []
    t0 = time.perf_counter()
    n = 0
    while todo and (time.perf_counter() - t0) < budget_s and n < max_paths:
        p = todo.pop()
        st, info, forks, ctx = run_path(harness, p, opts, stats)
        n += 1
        stats["decisions"] += len(ctx.decisions) - len(p)
        if st == "ok" and (n in (1, 7, 40) or ctx.want_model):
            try:
                models.append(ctx.model_dict())
            except BaseException:
                pass
        todo.extend(forks)
        for k, v in ctx.reached.items():
            reached[k] = reached.get(k, 0) + v
        if st == "violation":
            viols.append(info)
            if len(viols) >= opts.get("max_violations", 3):
                break
        elif st in ("inconclusive", "bound", "error"):
            problems.append((st, info))
            if len(problems) > 5:
                break
    return stats, todo, reached, problems, viols, functions_seen(), models[:3]


# functions of /repo executed (for the evidence file)
_SEEN = set()
_MON = False


def start_monitoring():
    global _MON
    if _MON:
        return
    _MON = True
    mon = sys.monitoring
    try:
        mon.use_tool_id(4, "vf")
    except ValueError:
        return

    def start(code, off):
        if code.co_filename.startswith(REPO + "/"):
            _SEEN.add(code.co_filename[len(REPO) + 1:] + ":" + code.co_qualname)
        return mon.DISABLE

    mon.register_callback(4, mon.events.PY_START, start)
    mon.set_events(4, mon.events.PY_START)


def functions_seen():
    return set(_SEEN)


class Result:
    def __init__(self):
        self.stats = new_stats()
        self.reached = {}
        self.problems = []
        self.violations = []
        self.models = []
        self.functions = set()
        self.complete = False
        self.frontier = 0
        self.wall = 0.0

    def absorb(self, r):
        stats, _todo, reached, problems, viols, fns, models = r
        if len(self.models) < 6:
            self.models += models[: 6 - len(self.models)]
        for k, v in stats.items():
            self.stats[k] += v
        for k, v in reached.items():
            self.reached[k] = self.reached.get(k, 0) + v
        self.problems += problems
        self.violations += viols
        self.functions |= fns


def explore(harness, opts=None, jobs=1, budget_s=300, max_paths=10**9):
    """Explore every path of `harness` (within opts bounds and budget)."""
    opts = dict(opts or {})
    start_monitoring()
    res = Result()
    t0 = time.perf_counter()
    todo = [[]]

    def left():
        return budget_s - (time.perf_counter() - t0)

    def stop():
        return bool(res.violations) and not opts.get("keep_going") or bool(res.problems)

    if jobs <= 1:
        while todo and left() > 0 and res.stats["paths"] < max_paths and not stop():
            r = _explore_chunk((harness, todo, opts, left(), 200))
            todo = r[1]
            res.absorb(r)
    else:
        import multiprocessing as mp

        # warm-up in the parent to get a frontier (and import caches)
        r = _explore_chunk((harness, todo, opts, min(left(), 2.0), 3 * jobs))
        todo = r[1]
        res.absorb(r)
        if todo and not stop():
            global _POOL_H
            _POOL_H = (harness, opts)
            mpc = mp.get_context("fork")
            with mpc.Pool(jobs) as pool:
                pending = []
                while (todo or pending) and left() > 0 and not stop():
                    while todo and len(pending) < 2 * jobs:
                        k = max(1, min(len(todo) // (2 * jobs), 50))
                        # oldest first: biggest subtrees
                        chunk, todo = todo[:k], todo[k:]
                        pending.append(
                            pool.apply_async(_pool_run, (chunk, min(left(), 1.5)))
                        )
                    done = [p for p in pending if p.ready()]
                    if not done:
                        time.sleep(0.005)
                        continue
                    for p in done:
                        pending.remove(p)
                        r = p.get()
                        todo.extend(r[1])
                        res.absorb(r)
                    if res.stats["paths"] >= max_paths:
                        break
                res.frontier = len(todo) + len(pending)
                todo = todo + [None] * len(pending)
                pool.terminate()
    res.frontier = len(todo)
    res.complete = not todo and not res.problems and not res.violations
    res.wall = time.perf_counter() - t0
    return res


_POOL_H = None


def _pool_run(chunk, budget):
    h, o = _POOL_H
    return _explore_chunk((h, chunk, o, budget, 400))


def replay(harness, model):
    """Run the harness on concrete values. Returns (violated, label, detail, trace)."""
    global CTX
    CTX = None
    _PENDING[0] = None
    ctx = ConcreteCtx(model)
    try:
        harness(ctx)
    except Infeasible:
        return False, "infeasible", "", ctx.trace
    except Violation as v:
        return True, v.label, str(v.detail), ctx.trace
    return False, "", "", ctx.trace

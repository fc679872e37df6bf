"""Strings whose characters are symbolic (bounded length, given alphabet).

``SymStr`` is a ``str`` so that the code under test accepts it; its methods work on the symbolic
characters and ask the solver where the outcome depends on them.  Methods that are not modelled make
the characters concrete first (the solver enumerates the values), so the result is never wrong."""
import ast
import os

from . import REPO, engine, symbuf
from .engine import all_of, any_of, is_sym, ite

SPACE = [9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 133, 160]
_WORDS = None


def words():
    """String constants of the configuration sources: what a string may be looked up in."""
    global _WORDS
    if _WORDS is None:
        _WORDS = set()
        top = os.path.join(REPO, "unidist", "config")
        files = [os.path.join(d, f) for d, _, fs in os.walk(top) for f in fs if f.endswith(".py")]
        files.append(os.path.join(REPO, "unidist", "core", "base", "common.py"))
        for f in files:
            for n in ast.walk(ast.parse(open(f).read())):
                if isinstance(n, ast.Constant) and isinstance(n.value, str) and len(n.value) < 40:
                    _WORDS.add(n.value)
    return _WORDS


def make(ctx, chars):
    """A string of these characters (numbers, possibly symbolic)."""
    if not any(is_sym(c) for c in chars):
        return "".join(map(chr, chars))
    s = str.__new__(SymStr, "\ufffd" * len(chars))
    s.ctx, s.chars, s.fixed = ctx, list(chars), None
    return s


def string(ctx, name, lengths, alphabet):
    """Any string over `alphabet` with one of the lengths."""
    n = ctx.pick(name + " length", list(lengths))
    return make(ctx, [char(ctx, name, alphabet) for _ in range(n)])


def char(ctx, name, alphabet):
    codes = sorted({ord(a) for a in alphabet})
    if len(codes) == 1:
        return codes[0]
    c = ctx.int(name, codes[0], codes[-1])
    ctx.assume(any_of(*[c == k for k in codes]))
    return c


def spelled(ctx, name, word, pad=" \t"):
    """`word` in any mix of cases, possibly surrounded by white space."""
    cs = [char(ctx, name, {w.lower(), w.upper()}) for w in word]
    if pad:
        if ctx.value(ctx.bool(name + " padded left")):
            cs.insert(0, char(ctx, name, pad))
        if ctx.value(ctx.bool(name + " padded right")):
            cs.append(char(ctx, name, pad))
    return make(ctx, cs)


def chars(s):
    return s.chars if isinstance(s, SymStr) else [ord(c) for c in s]


def equal(a, b):
    x, y = chars(a), chars(b)
    return len(x) == len(y) and all_of(*[p == q for p, q in zip(x, y)])


def _lower(c):
    if not is_sym(c):
        return ord(chr(c).lower())
    return ite(all_of(c >= 65, c <= 90), c + 32, c)


def _upper(c):
    if not is_sym(c):
        return ord(chr(c).upper())
    return ite(all_of(c >= 97, c <= 122), c - 32, c)


class SymStr(str):
    def concrete(self):
        if self.fixed is None:
            self.fixed = "".join(chr(self.ctx.value(c)) if is_sym(c) else chr(c) for c in self.chars)
        return self.fixed

    def _new(self, cs):
        return make(self.ctx, cs)

    def _is_space(self, c):
        return chr(c).isspace() if not is_sym(c) else bool(any_of(*[c == k for k in SPACE]))

    def lstrip(self, what=None):
        if what is not None:
            return self.concrete().lstrip(what)
        cs = list(self.chars)
        while cs and self._is_space(cs[0]):
            cs.pop(0)
        return self._new(cs)

    def rstrip(self, what=None):
        if what is not None:
            return self.concrete().rstrip(what)
        cs = list(self.chars)
        while cs and self._is_space(cs[-1]):
            cs.pop()
        return self._new(cs)

    def strip(self, what=None):
        if what is not None:
            return self.concrete().strip(what)
        s = self.lstrip()
        return s.rstrip() if isinstance(s, SymStr) else s.rstrip()

    def lower(self):
        return self._new([_lower(c) for c in self.chars])

    casefold = lower

    def upper(self):
        return self._new([_upper(c) for c in self.chars])

    def isdigit(self):
        return bool(self.chars) and bool(all_of(*[any_of(all_of(c >= 48, c <= 57), c == 0xB2) for c in self.chars]))

    def isdecimal(self):
        return bool(self.chars) and bool(all_of(*[all_of(c >= 48, c <= 57) for c in self.chars]))

    isnumeric = isdigit

    def replace(self, old, new, count=-1):
        if len(old) != 1 or isinstance(old, SymStr) or isinstance(new, SymStr):
            return self.concrete().replace(old, new, count)
        out = []
        for c in self.chars:
            if count != 0 and bool(c == ord(old)):
                out += [ord(x) for x in new]
                count -= 1
            else:
                out.append(c)
        return self._new(out)

    def __contains__(self, x):
        if len(x) != 1:
            return x in self.concrete()
        return bool(any_of(*[c == ord(x) for c in self.chars]))

    def __eq__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        if self.fixed is not None and not isinstance(o, SymStr):
            return self.fixed == o
        return equal(self, o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else (not r)

    def __hash__(self):
        if self.fixed is None:
            for w in sorted(words()):
                if len(w) == len(self.chars) and bool(equal(self, w)):
                    self.fixed = w
                    break
        return hash(self.fixed) if self.fixed is not None else id(self)

    def __len__(self):
        return len(self.chars)

    def __bool__(self):
        return bool(self.chars)

    def __iter__(self):
        return iter([self._new([c]) for c in self.chars])

    def __getitem__(self, k):
        return self._new(self.chars[k] if isinstance(k, slice) else [self.chars[k]])

    def __add__(self, o):
        return self._new(self.chars + chars(o))

    def __int__(self):
        return int(self.concrete())

    def __float__(self):
        return float(self.concrete())

    def __str__(self):
        return self

    def __repr__(self):
        return "'<symbolic string>'"

    def __format__(self, spec):
        return "<symbolic string>"

    def __reduce__(self):
        key = ("str", id(self))
        engine._REG[key] = self
        return engine._lookup, (key,)


def digits(ctx, v):
    """Decimal notation of a (symbolic) number."""
    if not is_sym(v):
        return str(v)
    if bool(v < 0):
        return make(ctx, [45] + chars(digits(ctx, -v)))
    n = 1
    while bool(v >= 10 ** n):
        n += 1
    return make(ctx, [(v // 10 ** i) % 10 + 48 for i in reversed(range(n))])


class _Fstr(ast.NodeTransformer):
    """f-strings -> __vf_fstr__(constant | (value, conversion, specification), ...)"""

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        args = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                spec = v.format_spec or ast.Constant("")
                args.append(ast.Tuple([v.value, ast.Constant(v.conversion), spec], ast.Load()))
            else:
                args.append(v)
        return ast.copy_location(ast.Call(ast.Name("__vf_fstr__", ast.Load()), args, []), node)


def rewrite(ctx):
    """Loader of modules whose string building keeps symbolic numbers and strings symbolic."""

    def piece(x):
        if not isinstance(x, tuple):
            return x
        v, conv, spec = x
        if not spec and conv in (-1, 115, 114):
            if isinstance(v, SymStr) and conv != 114:
                return v
            if is_sym(v):
                return digits(ctx, v)
        v = {-1: lambda y: y, 115: str, 114: repr, 97: ascii}[conv](v)
        return format(v, spec)

    def fstr(*parts):
        return make(ctx, [c for p in parts for c in chars(piece(p))])

    class string(metaclass=symbuf._Like):
        real = str

        def __new__(cls, *a, **k):
            if len(a) == 1 and not k:
                if isinstance(a[0], SymStr):
                    return a[0]
                if is_sym(a[0]):
                    return digits(ctx, a[0])
                r = type(a[0]).__str__(a[0])
                return r if isinstance(r, str) else str(a[0])
            return str(*a, **k)

    def shash(x):
        """Any hash is a function of the value: one that tells all values apart."""
        if isinstance(x, SymStr):
            r = len(x.chars)
            for c in x.chars:
                r = r * 256 + c
            return r
        if is_sym(x):
            return x
        if type(x) is tuple and any(is_sym(y) or isinstance(y, SymStr) for y in x):
            r = 7
            for y in x:
                r = r * 10 ** 12 + shash(y)
            return r
        return hash(x)

    def load(path, module):
        src = open(path).read()
        tree = ast.fix_missing_locations(_Fstr().visit(ast.parse(src)))
        module.__dict__.update(__vf_fstr__=fstr, str=string, hash=shash)
        exec(compile(tree, path, "exec"), module.__dict__)

    return load


def _concretizing(name):
    def method(self, *a, **k):
        return getattr(self.concrete(), name)(*a, **k)

    return method


for _n in dir(str):
    if _n not in SymStr.__dict__ and (not _n.startswith("__") or _n in ("__lt__", "__le__", "__gt__", "__ge__", "__mul__", "__mod__")) \
            and _n != "maketrans":
        setattr(SymStr, _n, _concretizing(_n))

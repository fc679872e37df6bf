"""A small symbolic executor for LLVM IR (integer/pointer subset) over z3 bit-vectors."""
import re

from . import engine
from .engine import z3


class Unsupported(Exception):
    pass


class Fn:
    def __init__(self, name, params):
        self.name, self.params, self.blocks, self.order = name, params, {}, []


def _split(s):
    out, depth, cur, q = [], 0, "", False
    for ch in s:
        if ch == '"':
            q = not q
        if not q:
            if ch in "([{<":
                depth += 1
            elif ch in ")]}>":
                depth -= 1
            elif ch == "," and depth == 0:
                out.append(cur.strip())
                cur = ""
                continue
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


ATTR = re.compile(
    r"\b(noundef|nonnull|nocapture|readonly|readnone|writeonly|noalias|nounwind|zeroext|signext|immarg|inreg|"
    r"returned|dereferenceable\(\d+\)|dereferenceable_or_null\(\d+\)|align \d+|captures\([^)]*\)|range\([^)]*\)|"
    r"tail|musttail|notail|fastcc|nuw|nsw|exact|inbounds|nneg|disjoint|nusw|volatile|local_unnamed_addr|dso_local|"
    r"unnamed_addr|samesign)\b ?"
)


class Module:
    def __init__(self, text):
        self.types, self.fns, self.globals = {}, {}, {}
        self._parse(text)

    def _parse(self, text):
        fn = blk = None
        for raw in text.splitlines():
            line = raw.split(" ; ")[0].rstrip() if '"' not in raw else raw.rstrip()
            line = re.sub(r"\s+;.*$", "", line)
            if not line or line.startswith((";", "!", "source_filename", "target", "attributes", "declare", "$")):
                continue
            m = re.match(r"^(%\S+|%\".*?\") = type (.*)$", line)
            if m and fn is None:
                self.types[m.group(1)] = m.group(2)
                continue
            if line.startswith("define"):
                m = re.search(r"@(\"[^\"]+\"|[\w.$]+)\((.*)\)[^()]*\{$", line)
                if not m:
                    raise Unsupported(line)
                params = []
                for p in _split(m.group(2)):
                    p = ATTR.sub("", p).strip()
                    ty, _, nm = p.rpartition(" ")
                    params.append((ty.strip(), nm))
                fn = Fn(m.group(1).strip('"'), params)
                self.fns[fn.name] = fn
                blk = "entry"
                fn.blocks[blk] = []
                fn.order.append(blk)
                continue
            if fn is None:
                continue
            if line == "}":
                fn = None
                continue
            m = re.match(r"^([\w.$-]+|\"[^\"]+\"):", line)
            if m:
                blk = "%" + m.group(1)
                fn.blocks[blk] = []
                fn.order.append(blk)
                continue
            s = re.sub(r",? ![\w.]+ ![\w]+", "", line.strip())
            s = re.sub(r" #\d+$", "", s)
            if s.startswith("switch") and not s.endswith("]"):
                fn.blocks[blk].append(["switch-open", s])
                continue
            if fn.blocks[blk] and isinstance(fn.blocks[blk][-1], list):
                fn.blocks[blk][-1][1] += " " + s
                if s.endswith("]"):
                    fn.blocks[blk][-1] = fn.blocks[blk][-1][1]
                continue
            fn.blocks[blk].append(s)

    # ---- layout
    def size(self, ty):
        return self._layout(ty)[0]

    def _layout(self, ty):
        ty = ty.strip()
        if ty == "ptr":
            return 8, 8
        m = re.match(r"^i(\d+)$", ty)
        if m:
            b = (int(m.group(1)) + 7) // 8
            n = 1
            while n < b:
                n *= 2
            return n, min(n, 8)
        m = re.match(r"^\[(\d+) x (.*)\]$", ty)
        if m:
            s, a = self._layout(m.group(2))
            return int(m.group(1)) * s, a
        if ty in self.types:
            return self._layout(self.types[ty])
        if ty.startswith("<{"):
            return sum(self._layout(f)[0] for f in _split(ty[2:-2])), 1
        if ty.startswith("{"):
            off, al = 0, 1
            for f in _split(ty[1:-1]):
                s, a = self._layout(f)
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return (off + al - 1) // al * al, al
        raise Unsupported("type " + ty)

    def field(self, ty, i):
        ty = self.types.get(ty, ty)
        m = re.match(r"^\[(\d+) x (.*)\]$", ty)
        if m:
            return m.group(2), i * self.size(m.group(2))
        off = 0
        for k, f in enumerate(_split(ty.strip("<>{} "))):
            s, a = self._layout(f)
            off = (off + a - 1) // a * a
            if k == i:
                return f, off
            off += s
        raise Unsupported("field")


def bits(ty):
    ty = ty.strip()
    if ty == "ptr":
        return 64
    m = re.match(r"^i(\d+)$", ty)
    if not m:
        raise Unsupported("type " + ty)
    return int(m.group(1))


class Exec:
    """Executes a function; `ctx.branch` decides conditions, `hooks[name](ex, args)` external calls."""

    def __init__(self, mod, ctx, hooks, max_steps=20000):
        self.m, self.ctx, self.hooks = mod, ctx, hooks
        self.mem = {}
        self.brk = 0x7F0000000000
        self.steps, self.max_steps = 0, max_steps

    def concrete(self, v):
        v = z3.simplify(v)
        return v.as_long() if z3.is_bv_value(v) else None

    def val(self, ty, s, env):
        s = s.strip()
        if s.startswith("%"):
            return env[s]
        n = bits(ty)
        if s in ("null", "false", "zeroinitializer", "undef", "poison"):
            return z3.BitVecVal(0, n)
        if s == "true":
            return z3.BitVecVal(1, 1)
        if re.match(r"^-?\d+$", s):
            return z3.BitVecVal(int(s), n)
        if s.startswith("@"):
            return ("fn", s[1:].strip('"'))
        m = re.match(r"^(inttoptr|ptrtoint) \((\S+) (.*) to (\S+)\)$", s)
        if m:
            return self.val(m.group(2), m.group(3), env)
        raise Unsupported("value " + s)

    def typed(self, s, env):
        s = ATTR.sub("", s.strip()).strip()
        ty, _, v = s.rpartition(" ")
        return ty, self.val(ty, v, env)

    def call(self, name, args):
        fn = self.m.fns.get(name)
        if fn is None or name in self.hooks:
            h = self.hooks.get(name)
            if h is None:
                raise Unsupported("call to " + name)
            return h(self, args)
        env = {p: v for (_, p), v in zip(fn.params, args)}
        blk, prev = fn.order[0], None
        if prev is None:
            # unnamed entry block gets the number after the parameters
            entry_name = "%" + str(len(fn.params))
        while True:
            nxt = None
            phis = []
            for ins in fn.blocks[blk]:
                self.steps += 1
                if self.steps > self.max_steps:
                    raise engine.BoundExceeded("IR step bound")
                m = re.match(r"^(%[\w.$-]+|%\"[^\"]+\") = (.*)$", ins)
                dst, op = (m.group(1), m.group(2)) if m else (None, ins)
                op = ATTR.sub("", op)
                if op.startswith("phi "):
                    m = re.match(r"^phi (\S+) (.*)$", op)
                    for pair in re.findall(r"\[ (.*?), (%[^\]]*?) \]", m.group(2)):
                        src = pair[1].strip()
                        if src == prev or (prev == "entry" and src not in fn.blocks):
                            phis.append((dst, self.val(m.group(1), pair[0], env)))
                            break
                    else:
                        raise Unsupported("phi " + ins)
                    continue
                if phis:
                    env.update(phis)
                    phis = []
                r = self.step(fn, op, env)
                if isinstance(r, tuple) and r and r[0] == "br":
                    nxt = r[1]
                    break
                if isinstance(r, tuple) and r and r[0] == "ret":
                    return r[1]
                if dst is not None:
                    env[dst] = r
            if phis:
                env.update(phis)
            prev, blk = blk, nxt

    def step(self, fn, op, env):
        k = op.split(" ", 1)[0]
        rest = op.split(" ", 1)[1] if " " in op else ""
        if k in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr"):
            parts = _split(rest)
            ty, a = self.typed(parts[0], env)
            b = self.val(ty, parts[1], env)
            if k in ("udiv", "sdiv", "urem", "srem"):
                if self.ctx.branch(b == 0):
                    self.ctx.fail("division by zero")
                b = z3.simplify(b)
                if z3.is_bv_value(b):
                    v, w = b.as_long(), b.size()
                    if v & (v - 1) == 0 and v < (1 << (w - 1)):
                        # power of two: shifts instead of a bit-blasted divider
                        e = v.bit_length() - 1
                        if k == "udiv":
                            return z3.LShR(a, z3.BitVecVal(e, w))
                        if k == "urem":
                            return a & z3.BitVecVal(v - 1, w)
                        bias = (a >> z3.BitVecVal(w - 1, w)) & z3.BitVecVal(v - 1, w)
                        q = (a + bias) >> z3.BitVecVal(e, w)
                        return q if k == "sdiv" else a - (q << z3.BitVecVal(e, w))
            return {
                "add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b,
                "udiv": lambda: z3.UDiv(a, b), "sdiv": lambda: a / b, "urem": lambda: z3.URem(a, b),
                "srem": lambda: z3.SRem(a, b), "and": lambda: a & b, "or": lambda: a | b,
                "xor": lambda: a ^ b, "shl": lambda: a << b, "lshr": lambda: z3.LShR(a, b),
                "ashr": lambda: a >> b,
            }[k]()
        if k == "icmp":
            m = re.match(r"^(\w+) (.*)$", rest)
            parts = _split(m.group(2))
            ty, a = self.typed(parts[0], env)
            b = self.val(ty, parts[1], env)
            c = {
                "eq": lambda: a == b, "ne": lambda: a != b, "ugt": lambda: z3.UGT(a, b),
                "uge": lambda: z3.UGE(a, b), "ult": lambda: z3.ULT(a, b), "ule": lambda: z3.ULE(a, b),
                "sgt": lambda: a > b, "sge": lambda: a >= b, "slt": lambda: a < b, "sle": lambda: a <= b,
            }[m.group(1)]()
            return z3.If(c, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        if k == "select":
            p = _split(rest)
            _, c = self.typed(p[0], env)
            _, a = self.typed(p[1], env)
            _, b = self.typed(p[2], env)
            return z3.If(c == 1, a, b)
        if k in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "freeze"):
            if k == "freeze":
                return self.typed(rest, env)[1]
            m = re.match(r"^(.*) to (\S+)$", rest)
            ty, a = self.typed(m.group(1), env)
            n, o = bits(m.group(2)), a.size()
            if n == o:
                return a
            if n < o:
                return z3.Extract(n - 1, 0, a)
            return z3.SignExt(n - o, a) if k == "sext" else z3.ZeroExt(n - o, a)
        if k == "getelementptr":
            p = _split(rest)
            base = p[0]
            _, addr = self.typed(p[1], env)
            ity, idx = self.typed(p[2], env)
            idx = z3.SignExt(64 - idx.size(), idx) if idx.size() < 64 else idx
            addr = addr + idx * self.m.size(base)
            ty = base
            for q in p[3:]:
                ity, idx = self.typed(q, env)
                t = self.m.types.get(ty, ty)
                if t.startswith("["):
                    ty = self.m.field(ty, 0)[0]
                    idx = z3.SignExt(64 - idx.size(), idx) if idx.size() < 64 else idx
                    addr = addr + idx * self.m.size(ty)
                else:
                    ty, off = self.m.field(ty, self.concrete(idx))
                    addr = addr + off
            return addr
        if k == "alloca":
            n = self.m.size(_split(rest)[0])
            self.brk += (n + 63) // 64 * 64 + 64
            return z3.BitVecVal(self.brk - n - 64 + (-(self.brk - n - 64)) % 64, 64)
        if k == "store":
            p = _split(rest)
            ty, v = self.typed(p[0], env)
            _, a = self.typed(p[1], env)
            ad = self.concrete(a)
            if ad is None:
                h = self.hooks.get("store")
                if h is None:
                    raise Unsupported("store to a symbolic address")
                return h(self, (a, v))
            self.mem[ad] = v
            return None
        if k == "load":
            p = _split(rest)
            _, a = self.typed(p[1], env)
            ad = self.concrete(a)
            if ad is None:
                h = self.hooks.get("load")
                if h is None:
                    raise Unsupported("load from a symbolic address")
                return h(self, (a, bits(p[0])))
            if ad not in self.mem:
                raise Unsupported("load of uninitialised memory")
            v = self.mem[ad]
            if v.size() != bits(p[0]):
                raise Unsupported("load of another width")
            return v
        if k == "br":
            if rest.startswith("label"):
                return ("br", rest.split(" ", 1)[1].split(",")[0].strip())
            p = _split(rest)
            _, c = self.typed(p[0], env)
            t = self.ctx.branch(c == 1)
            return ("br", p[1 if t else 2].split(" ", 1)[1].strip())
        if k == "switch":
            m = re.match(r"^(\S+) (\S+), label (%\S+) \[(.*)\]$", rest)
            v = self.val(m.group(1), m.group(2), env)
            for num, lab in re.findall(r"\S+ (-?\d+), label (%[\w.]+)", m.group(4)):
                if self.ctx.branch(v == int(num)):
                    return ("br", lab)
            return ("br", m.group(3))
        if k == "ret":
            return ("ret", None if rest == "void" else self.typed(rest, env)[1])
        if k == "call":
            m = re.match(r"^.*?(@(?:\"[^\"]+\"|[\w.$]+)|%[\w.]+)\((.*)\)$", rest)
            nm = m.group(1)
            args = [self.typed(x, env)[1] for x in _split(m.group(2))]
            if nm.startswith("%"):
                f = env[nm]
                return self.call(f[1], args)
            nm = nm[1:].strip('"')
            if nm.startswith(("llvm.lifetime", "llvm.dbg", "llvm.experimental.noalias", "llvm.assume")):
                return None
            m2 = re.match(r"^llvm\.(smin|smax|umin|umax|abs)\.", nm)
            if m2:
                a = args[0]
                b = args[1] if len(args) > 1 else None
                return {
                    "smin": lambda: z3.If(a < b, a, b), "smax": lambda: z3.If(a > b, a, b),
                    "umin": lambda: z3.If(z3.ULT(a, b), a, b), "umax": lambda: z3.If(z3.UGT(a, b), a, b),
                    "abs": lambda: z3.If(a < 0, -a, a),
                }[m2.group(1)]()
            if nm.startswith("llvm.memcpy"):
                nm = "memcpy"
            elif nm.startswith("llvm.memmove"):
                nm = "memmove"
            elif nm.startswith("llvm.memset"):
                nm = "memset"
            return self.call(nm, args)
        if k == "unreachable":
            raise Unsupported("unreachable executed")
        raise Unsupported("instruction " + op)

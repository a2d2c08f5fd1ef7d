"""Symbolic values, byte contents, quantified facts and substitution."""
from __future__ import annotations

import z3

I = z3.IntSort()
B = z3.BoolSort()


class Unsupported(Exception):
    """A construct outside the verifier's subset: the obligation is undecided, never refuted."""


# ---------------------------------------------------------------- integer helpers (python int or z3 expr)
def is_z(x):
    return isinstance(x, z3.ExprRef)


def simp(e):
    if isinstance(e, z3.ExprRef):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
    return e


def zv(x):
    """to z3"""
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    return x


def add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    return simp(a + b)


def sub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    if isinstance(b, int) and b == 0:
        return a
    return simp(a - b)


def mul(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    r = zv(a) * zv(b)
    r = simp(r)
    return simp(z3.simplify(r, som=True)) if is_z(r) else r


def exact_quotient(a, d):
    """a / d where d is a factor of every term of a; None if it is not."""
    a, d = simp(z3.simplify(zv(a), som=True)), zv(d)
    if isinstance(a, int):
        return 0 if a == 0 else None
    out = 0
    for term in a.children() if z3.is_add(a) else [a]:
        factors = list(term.children()) if z3.is_mul(term) else [term]
        for i, f in enumerate(factors):
            if f.eq(d):
                break
        else:
            return None
        q = 1
        for f in factors[:i] + factors[i + 1:]:
            q = mul(q, simp(f))
        out = add(out, q)
    return out


def occurs(e, names):
    """Whether one of the functions named (or a constant) occurs in a term; names may be a predicate on declarations."""
    if not callable(names):
        names = (lambda d, s=frozenset(names): d.name() in s)
    seen, stack = set(), [zv(e)]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and names(x.decl()):
            return True
        if z3.is_quantifier(x):
            stack.append(x.body())
        stack.extend(x.children())
    return False


def lt(a, b):
    return simp(a < b)


def le(a, b):
    return simp(a <= b)


def eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return simp(zv(a) == zv(b))


def land(*xs):
    ys = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        ys.append(x)
    if not ys:
        return True
    return ys[0] if len(ys) == 1 else z3.And(*ys)


def lor(*xs):
    ys = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        ys.append(x)
    if not ys:
        return False
    return ys[0] if len(ys) == 1 else z3.Or(*ys)


def lnot(x):
    if isinstance(x, bool):
        return not x
    return simp(z3.Not(x))


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, int) and isinstance(b, int) and a == b:
        return a
    return simp(z3.If(c, zv(a), zv(b)))


def zmin(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return min(a, b)
    return ite(le(a, b), a, b)


def zmax(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return max(a, b)
    return ite(le(a, b), b, a)


def zsub(x, pairs):
    """Substitute z3 constants in an int/bool term."""
    if isinstance(x, z3.ExprRef):
        return simp(z3.substitute(x, *[(v, zv(t)) for v, t in pairs]))
    return x


# ---------------------------------------------------------------- uninterpreted functions with attached axioms
FUNS = {}  # name -> (decl, kind)


def fun(name, arity, sort=I, kind=None):
    key = (name, arity)
    if key not in FUNS:
        decl = z3.Function(name, *([I] * arity), sort) if arity else z3.Const(name, sort)
        FUNS[key] = (decl, kind)
        KIND[name] = kind
    return FUNS[key][0]


KIND = {}  # name -> kind tuple, used by the axiom generator


def app(name, args, sort=I, kind=None):
    f = fun(name, len(args), sort, kind)
    if not args:
        return f
    return f(*[zv(a) for a in args])


# ---------------------------------------------------------------- byte contents
class Content:
    pass


class View(Content):
    """Bytes of the named base buffer (an uninterpreted function), starting at off."""

    def __init__(self, buf, args=(), off=0):
        self.buf, self.args, self.off = buf, tuple(args), off

    def at(self, i):
        return app(self.buf, self.args + (add(self.off, i),), I, ("byte",))

    def shift(self, d):
        return View(self.buf, self.args, add(self.off, d))

    def subst(self, p):
        return View(self.buf, tuple(zsub(a, p) for a in self.args), zsub(self.off, p))

    def __repr__(self):
        return f"{self.buf}{list(self.args)}+{self.off}"


class Zero(Content):
    def at(self, i):
        return 0

    def shift(self, d):
        return self

    def subst(self, p):
        return self

    def __repr__(self):
        return "0"


class Const(Content):
    """Constant bytes; zero beyond their end (never observed there)."""

    def __init__(self, data):
        self.data = bytes(data)

    def at(self, i):
        if isinstance(i, int):
            return self.data[i] if 0 <= i < len(self.data) else 0
        if len(self.data) > 300:
            raise Unsupported("symbolic index into a large constant")
        e = z3.IntVal(0)
        for j, b in enumerate(self.data):
            e = z3.If(i == j, z3.IntVal(b), e)
        return simp(e)

    def shift(self, d):
        if isinstance(d, int) and d >= 0:
            return Const(self.data[d:])
        return Moved(self, d)

    def subst(self, p):
        return self

    def __repr__(self):
        return repr(self.data[:20])


class Listed(Content):
    """The given bytes, then the fill byte."""

    def __init__(self, items, fill=0, off=0):
        self.items, self.fill, self.off = tuple(items), fill, off

    def at(self, i):
        i = add(i, self.off)
        if isinstance(i, int):
            return self.items[i] if 0 <= i < len(self.items) else self.fill
        r = self.fill
        for j in reversed(range(len(self.items))):
            r = ite(eq(i, j), self.items[j], r)
        return r

    def shift(self, d):
        return Listed(self.items, self.fill, add(self.off, d))

    def subst(self, p):
        return Listed([zsub(x, p) for x in self.items], zsub(self.fill, p), zsub(self.off, p))

    def __repr__(self):
        return f"Listed({self.items},{self.fill},{self.off})"


class Encoded(Listed):
    """The little endian bytes of an integer, cut to size."""

    def __init__(self, v, size):
        super().__init__([simp(zv(v) / (1 << (8 * j)) % 256) for j in range(size)])
        self.v, self.size = v, size

    def decoded(self, signed):
        m = 1 << (8 * self.size)
        low = -(m >> 1) if signed else 0
        return ite(land(le(low, self.v), lt(self.v, low + m)), self.v, simp((zv(self.v) - low) % m + low))

    def subst(self, p):
        return Encoded(zsub(self.v, p), self.size)


class Moved(Content):
    def __init__(self, c, d):
        self.c, self.d = c, d

    def at(self, i):
        return self.c.at(add(i, self.d))

    def shift(self, d):
        return Moved(self.c, add(self.d, d))

    def subst(self, p):
        return Moved(self.c.subst(p), zsub(self.d, p))


class Cond(Content):
    """a's bytes below n, b's bytes from n on (both indexed from the same origin)."""

    def __init__(self, n, a, b):
        self.n, self.a, self.b = n, a, b

    def at(self, i):
        c = lt(i, self.n)
        if c is True:
            return self.a.at(i)
        if c is False:
            return self.b.at(i)
        return ite(c, self.a.at(i), self.b.at(i))

    def shift(self, d):
        return Cond(sub(self.n, d), self.a.shift(d), self.b.shift(d))

    def subst(self, p):
        return Cond(zsub(self.n, p), self.a.subst(p), self.b.subst(p))

    def __repr__(self):
        return f"({self.a!r} if i<{self.n} else {self.b!r})"


def cond(n, a, b):
    if isinstance(n, int) and n <= 0:
        return b
    return Cond(n, a, b)


class PoisonContent(Content):
    def __init__(self, loc):
        self.loc = loc

    def at(self, i):
        raise PoisonRead(self.loc)

    def shift(self, d):
        return self

    def subst(self, p):
        return self


def same_content(a, b):
    """Syntactic identity."""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, View):
        return a.buf == b.buf and len(a.args) == len(b.args) and all(same_int(x, y) for x, y in zip(a.args, b.args)) and same_int(a.off, b.off)
    if isinstance(a, Zero):
        return True
    if isinstance(a, Const):
        return a.data == b.data
    if isinstance(a, Moved):
        return same_int(a.d, b.d) and same_content(a.c, b.c)
    if isinstance(a, Encoded):
        return a.size == b.size and same_int(a.v, b.v)
    if isinstance(a, Listed):
        return len(a.items) == len(b.items) and all(same_int(x, y) for x, y in zip(a.items, b.items)) and same_int(a.fill, b.fill) and same_int(a.off, b.off)
    if isinstance(a, Cond):
        return same_int(a.n, b.n) and same_content(a.a, b.a) and same_content(a.b, b.b)
    return False


def same_int(a, b):
    if is_z(a) and is_z(b):
        return a.eq(b)
    if is_z(a) or is_z(b):
        return False
    return a == b


def same_value(a, b):
    """Syntactic identity of two values."""
    if a is b:
        return True
    if isinstance(a, z3.ExprRef) or isinstance(b, z3.ExprRef):
        return isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.eq(b)
    if type(a) is not type(b):
        return False
    if isinstance(a, (int, str, bytes, float, bool, type)):
        return a == b
    if isinstance(a, (SInt, SBool)):
        return same_int(a.e, b.e)
    if isinstance(a, Ref):
        return a.addr == b.addr
    if isinstance(a, Poison):
        return a.loc == b.loc
    if isinstance(a, Content):
        return same_content(a, b)
    if isinstance(a, SBytes):
        return a.kind == b.kind and same_int(a.length, b.length) and same_content(a.content, b.content)
    if isinstance(a, SText):
        return same_int(a.length, b.length) and same_content(a.content, b.content)
    if isinstance(a, SFloat):
        return a.size == b.size and same_value(a.bits, b.bits)
    if isinstance(a, STuple):
        return same_value(a.items, b.items)
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    if isinstance(a, SOpaque):
        return a.name == b.name and same_value(a.args, b.args)
    if isinstance(a, SStr):
        return same_value(a.pieces, b.pieces)
    if isinstance(a, SRange):
        return same_value((a.start, a.n, a.step), (b.start, b.n, b.step))
    if isinstance(a, Item):
        return same_value(a.v, b.v)
    if isinstance(a, Map):
        return same_value((a.n, a.var, a.alts), (b.n, b.var, b.alts))
    if isinstance(a, FStruct):
        return a.cls is b.cls and same_content(a.content, b.content) and a.shared == b.shared
    if isinstance(a, (FList, FDict, FArr, FMem, FInst, SExc, SSel, SSlice, SBound, SFunc)):
        return same_value(tuple(vars(a).values()), tuple(vars(b).values()))
    if hasattr(a, "same"):
        return a.same(b)
    return False


def decode_bytes(content, off, size, signed):
    """Little endian integer, spelled out byte by byte."""
    e = 0
    top = None
    for j in range(size):
        b = content.at(add(off, j))
        if isinstance(b, int) and isinstance(e, int):
            e = e + (b << (8 * j))
        else:
            e = zv(e) + zv(b) * (1 << (8 * j)) if j else b
        top = b
    if isinstance(e, int):
        if signed and e >= 1 << (8 * size - 1):
            e -= 1 << (8 * size)
        return e
    if signed:
        e = z3.If(zv(top) >= 128, e - (1 << (8 * size)), e)
    return e


def decode_int(content, off, size, signed):
    """Little endian integer: one application per field, related to the bytes by axioms when that matters."""
    if size == 0:
        return 0
    if size == 1 and not signed:
        return content.at(off)
    if isinstance(content, View):
        return app(f"{'s' if signed else 'u'}{size}:{content.buf}", content.args + (add(content.off, off),), I, ("dec", content.buf, size, signed))
    if isinstance(content, Moved):
        return decode_int(content.c, add(off, content.d), size, signed)
    if isinstance(content, Encoded) and size == content.size and same_int(simp(zv(off)) if is_z(off) else off, 0):
        return content.decoded(signed)
    if isinstance(content, Cond):
        if le(add(off, size), content.n) is True:
            return decode_int(content.a, off, size, signed)
        if le(content.n, off) is True:
            return decode_int(content.b, off, size, signed)
        if isinstance(content.a, View) and isinstance(content.b, Zero):
            a = content.a
            have = zmax(zmin(sub(content.n, off), size), 0)
            return app(f"{'s' if signed else 'u'}p{size}:{a.buf}", a.args + (add(a.off, off), have), I, ("decp", a.buf, size, signed))
    return decode_bytes(content, off, size, signed)


def dec_axioms(e, kind, spell):
    """Facts about one decoded integer; `spell` adds its definition by bytes."""
    tag, buf, size, signed = kind
    ch = e.children()
    lo, hi = (-(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1) if signed else (0, (1 << (8 * size)) - 1)
    out = [e >= lo, e <= hi]
    if tag == "dec":
        if spell:
            out.append(e == decode_bytes(View(buf, ch[:-1], ch[-1]), 0, size, signed))
        return out
    have = ch[-1]
    args, off = ch[:-2], ch[-2]
    full = decode_int(View(buf, args, off), 0, size, signed)
    out.append(z3.Implies(have >= size, e == full))
    out.append(z3.Implies(have <= 0, e == 0))
    if spell:
        c = Cond(have, View(buf, args, off), Zero())
        out.append(e == decode_bytes(c, 0, size, signed))
    return out


# ---------------------------------------------------------------- values
class SInt:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return f"SInt({self.e})"


class SBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return f"SBool({self.e})"


def mk_int(e):
    if is_z(e):
        s = e if e.num_args() == 0 and not z3.is_int_value(e) else simp(e)
        return SInt(s) if is_z(s) else s
    return e


def mk_bool(e):
    e = simp(e)
    return SBool(e) if is_z(e) else e


class SFloat:
    """A float determined by `size` bytes of content (the value itself is never computed with)."""

    def __init__(self, bits, size):
        self.bits, self.size = bits, size


class SStr:
    """Text built from literal pieces and decimal integers."""

    def __init__(self, pieces):
        self.pieces = tuple(pieces)

    def __repr__(self):
        return f"SStr{self.pieces}"


class SText:
    """The text obtained by decoding `length` bytes as UTF-8 ignoring invalid sequences."""

    def __init__(self, content, length):
        self.content, self.length = content, length


class SBytes:
    def __init__(self, content, length, kind="bytes"):
        self.content, self.length, self.kind = content, length, kind

    def __repr__(self):
        return f"SBytes({self.content!r},{self.length})"


class SOpaque:
    """Uninterpreted value: two are equal if name and arguments are."""

    def __init__(self, name, args=(), typ=None):
        self.name, self.args, self.typ = name, tuple(args), typ

    def __repr__(self):
        return f"{self.name}({', '.join(map(repr, self.args))})"


class STuple:
    """A tuple, or a named tuple of class `cls`."""

    def __init__(self, items, cls=None):
        self.items = tuple(items)
        self.cls = cls

    def __repr__(self):
        return f"STuple{self.items}"


class SSlice:
    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


class SRange:
    def __init__(self, start, n, step):
        self.start, self.n, self.step = start, n, step


class SSeq:
    """Lazy composite sequence (enumerate, zip, map, reversed...): n elements, elem(k) evaluated on demand."""

    def __init__(self, n, elem, note=""):
        self.n, self.elem, self.note = n, elem, note


class SFunc:
    def __init__(self, node, ctx, defaults, kwdefaults, name):
        self.node, self.ctx, self.defaults, self.kwdefaults, self.name = node, ctx, defaults, kwdefaults, name


class SPtr:
    """Address of a structure, array or field: a memory object and an offset."""

    def __init__(self, mem, off):
        self.mem, self.off = mem, off


class SBound:
    """Bound method of a symbolic object."""

    def __init__(self, obj, name, func=None):
        self.obj, self.name, self.func = obj, name, func


class SSel:
    """table[key] for a constant table of functions and a symbolic key."""

    def __init__(self, table, key):
        self.table, self.key = table, key


class SExc:
    def __init__(self, cls, args=()):
        self.cls, self.args = cls, tuple(args)

    def __repr__(self):
        return f"SExc({self.cls.__name__})"


class Poison:
    def __init__(self, loc):
        self.loc = loc

    def __repr__(self):
        return f"<poison {self.loc}>"


class PoisonRead(Exception):
    def __init__(self, loc):
        super().__init__(f"loop-carried value {loc} read")
        self.loc = loc


class PreLength(PoisonRead):
    """The number of elements of a list under construction is read."""


class Ref:
    __slots__ = ("addr",)

    def __init__(self, addr):
        self.addr = addr

    def __repr__(self):
        return f"@{self.addr}"


# ---- frozen trees (immutable images of heap objects)
class FStruct:
    def __init__(self, cls, content, size, shared=None, off=None):
        self.cls, self.content, self.size, self.shared, self.off = cls, content, size, shared, off

    def __repr__(self):
        return f"FStruct({self.cls.__name__},{self.content!r})"


class FMem:
    def __init__(self, content, size):
        self.content, self.size = content, size


class FArr:
    """ctypes array: cls may be None with a symbolic length (elements of ctype elem)."""

    def __init__(self, elem, length, content):
        self.elem, self.length, self.content = elem, length, content


class FList:
    def __init__(self, segs):
        self.segs = tuple(segs)


class FDict:
    def __init__(self, entries, base=None):
        self.entries, self.base = tuple(entries), base

    def __repr__(self):
        return f"FDict({dict((k, v) for k, v in self.entries)})"


class FInst:
    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, tuple(attrs)


class FFile:
    def __init__(self, content, n, pos):
        self.content, self.n, self.pos = content, n, pos


class Item:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f"Item({self.v!r})"


class Map:
    """Concatenation over var in [0, n) of the chunk of the alternative whose condition holds."""

    def __init__(self, n, var, alts, src=None):
        self.n, self.var, self.alts, self.src = n, var, tuple(alts), src

    def __repr__(self):
        return f"Map({self.n},{self.var},{self.alts})"


class Pre:
    """Placeholder for everything a summarised loop appended in earlier iterations."""

    def __init__(self, loc, length=None):
        self.loc, self.length = loc, length


class FRef(Ref):
    """Reference to an object that existed before (kept as identity)."""


def subst(v, p):
    if v is None or isinstance(v, (int, str, bytes, float, type, Ref, Poison)):
        return v
    if isinstance(v, SInt):
        return mk_int(zsub(v.e, p))
    if isinstance(v, SBool):
        return mk_bool(zsub(v.e, p))
    if isinstance(v, Content):
        return v.subst(p)
    if isinstance(v, z3.ExprRef):
        return zsub(v, p)
    if isinstance(v, SBytes):
        return SBytes(v.content.subst(p), zsub(v.length, p), v.kind)
    if isinstance(v, SText):
        return SText(v.content.subst(p), zsub(v.length, p))
    if isinstance(v, SFloat):
        return SFloat(zsub(v.bits, p), v.size)
    if isinstance(v, SStr):
        return SStr(tuple((x[0], zsub(x[1], p)) if isinstance(x, tuple) and is_z(x[1]) else ((x[0], subst(x[1], p)) if isinstance(x, tuple) else x) for x in v.pieces))
    if isinstance(v, SOpaque):
        return SOpaque(v.name, [subst(a, p) for a in v.args], v.typ)
    if isinstance(v, STuple):
        return STuple([subst(a, p) for a in v.items], v.cls)
    if isinstance(v, SRange):
        return SRange(zsub(v.start, p), zsub(v.n, p), v.step)
    if isinstance(v, SExc):
        return SExc(v.cls, [subst(a, p) for a in v.args])
    if isinstance(v, SSel):
        return SSel(v.table, subst(v.key, p))
    if isinstance(v, SBound):
        return SBound(subst(v.obj, p), v.name, v.func)
    if isinstance(v, FStruct):
        return FStruct(v.cls, v.content.subst(p), v.size, v.shared, zsub(v.off, p) if is_z(v.off) else v.off)
    if isinstance(v, FMem):
        return FMem(v.content.subst(p), zsub(v.size, p))
    if isinstance(v, FArr):
        return FArr(v.elem, zsub(v.length, p), v.content.subst(p))
    if isinstance(v, FList):
        return FList(subst_segs(v.segs, p))
    if isinstance(v, FDict):
        return FDict([(subst(k, p), subst(x, p)) for k, x in v.entries], subst(v.base, p))
    if isinstance(v, FInst):
        return FInst(v.cls, [(k, subst(x, p)) for k, x in v.attrs])
    if isinstance(v, FFile):
        return FFile(v.content.subst(p), zsub(v.n, p), zsub(v.pos, p))
    if isinstance(v, (Item, Map)):
        return subst_segs([v], p)[0]
    if isinstance(v, tuple):
        return tuple(subst(x, p) for x in v)
    return v  # natives, functions, lazies


def subst_segs(segs, p):
    out = []
    for s in segs:
        if isinstance(s, Item):
            out.append(Item(subst(s.v, p)))
        elif isinstance(s, Map):
            q = [(v, t) for v, t in p if not v.eq(s.var)]
            out.append(Map(zsub(s.n, q), s.var, [(zsub(c, q), subst_segs(ch, q)) for c, ch in s.alts], subst(s.src, q)))
        elif isinstance(s, Pre) and is_z(s.length):
            out.append(Pre(s.loc, zsub(s.length, p)))
        else:
            out.append(s)
    return tuple(out)


class Forall:
    """For all var with lo <= var < hi (hi may be None): every body entry holds."""

    def __init__(self, var, lo, hi, body, ends=False):
        self.var, self.lo, self.hi, self.body, self.ends = var, lo, hi, list(body), ends
        self._inst = {}

    def subst(self, p):
        p = [(v, t) for v, t in p if not v.eq(self.var)]
        return Forall(self.var, zsub(self.lo, p), None if self.hi is None else zsub(self.hi, p), [b.subst(p) if isinstance(b, Forall) else zsub(b, p) for b in self.body])

    def inst(self, t):
        """-> (list of z3 facts, list of nested Foralls), each guarded by the range."""
        key = t if isinstance(t, int) else ("z", t.get_id())
        if key not in self._inst:
            self._inst[key] = (t, self._instantiate(t))
        return self._inst[key][1]

    def _instantiate(self, t):
        rng = le(self.lo, t) if self.hi is None else land(le(self.lo, t), lt(t, self.hi))
        if rng is False:
            return [], []
        zs, fs = [], []
        for b in self.body:
            if isinstance(b, Forall):
                b = b.subst([(self.var, t)])
                fs.append(b if rng is True else guard(b, rng))
            else:
                b = zsub(b, [(self.var, t)])
                if b is True:
                    continue
                zs.append(zv(b) if rng is True else z3.Implies(rng, zv(b)))
        return zs, fs


def guard(f, c):
    """Forall f weakened by condition c."""
    if c is True:
        return f
    return Forall(f.var, f.lo, f.hi, [guard(b, c) if isinstance(b, Forall) else z3.Implies(zv(c), zv(b)) for b in f.body])


class Rec:
    """Loop-carried integer: V(0) = v0, V(k+1) = step(k) for 0 <= k < hi."""

    def __init__(self, name, fn, v0, var, step, hi):
        self.name, self.fn, self.v0, self.var, self.step, self.hi = name, fn, v0, var, step, hi

"""Functions on which pyvc is compared with CPython.

Parameters are symbolic for pyvc: i* integers, n* small natural numbers, b* bytes, f* files, s* structures.
"""
import collections
import contextlib
import ctypes
import functools
import io
import itertools
import struct
import types
import zlib


class Inner(ctypes.Structure):
    _fields_ = [("x", ctypes.c_ushort), ("y", ctypes.c_byte), ("z", ctypes.c_ubyte)]


class Outer(ctypes.Structure):
    _fields_ = [("a", ctypes.c_int), ("b", ctypes.c_uint), ("name", ctypes.c_char * 6), ("c", ctypes.c_char), ("inner", Inner),
                ("arr", ctypes.c_short * 4), ("many", Inner * 3), ("q", ctypes.c_longlong), ("n", ctypes.c_ulonglong)]

    @property
    def both(self):
        return self.a + self.b


# ---- arithmetic
def arith_div(i1, i2):
    return (i1 // 7, i1 % 7, i1 // -3, i1 % -3, divmod(i1, 5), -i1 // 2, i1 - i2 * 3)


def arith_div_sym(i1, i2):
    if i2 == 0:
        return None
    return (i1 // i2, i1 % i2)


def arith_zero(i1, i2):
    return i1 % i2


def bits(i1, i2):
    return (i1 & 0x7F, i1 >> 3, i1 << 2, i1 & ~7, i1 | 0, i1 & 0xFF00, (i1 >> 8) & 0xFF, ~i1)


def bits_mixed(i1):
    x = i1 & 0xFFFF
    return (x | 1, x ^ 0x8000, x >> 15, x & 0x8000, bool(x & 0x10))


def compare(i1, i2):
    return (i1 < i2, i1 <= i2, i1 == i2, i1 != i2, 0 <= i1 < 10, i1 < i2 < 100, not i1, i1 in (1, 2, 3), i1 not in [i2, 5], i1 is None)


def logic(i1, i2):
    return (i1 or i2, i1 and i2, i1 and i2 or 5, i1 if i2 > 0 else -i1, (i1 or None), not (i1 and i2))


def minmax(i1, i2):
    return (min(i1, i2), max(i1, i2, 3), abs(i1), min([i1, i2, 7]), max(0, i1 - i2), min((i1, i2), key=lambda v: -v), max([], default=i1))


def power(i1):
    return (i1 ** 2, 2 ** 5, pow(i1, 2), i1 * i1)


def booleans(i1, i2):
    return (True + i1, (i1 > 0) + (i2 > 0), int(i1 > i2), bool(i1), sum([i1 > 0, i2 > 0]))


def augmented(i1, i2):
    x = i1
    x += i2
    x *= 2
    x -= 3
    x //= 2
    x <<= 1
    x %= 1000
    return x


# ---- loops
def loop_sum(n1, i1):
    total = i1
    for k in range(n1):
        total += k * 2
    return total


def loop_break(n1, n2):
    last = -1
    for k in range(n1):
        if k == n2:
            break
        last = k
    else:
        last = 100
    return last


def loop_continue(n1):
    out = []
    for k in range(n1):
        if k % 3 == 1:
            continue
        out.append(k * 10)
    return out


def loop_offsets(b1, n1):
    at, out = 0, []
    for _ in range(n1):
        out.append(b1[at:at + 2])
        at += 2
    return (at, out)


def loop_data(b1, n1):
    """Steps that depend on the data."""
    at, out = 0, []
    for _ in range(n1):
        if at >= len(b1):
            raise ValueError("short")
        step = b1[at] % 3 + 1
        out.append(at)
        at += step
    return (at, out)


def loop_while(n1, i1):
    k = 0
    while k < n1:
        k += 1
        if k == i1:
            break
    return k


def loop_while_else(n1):
    k = n1
    while k > 0:
        k -= 2
    else:
        k = k * 100
    return k


def loop_return(b1, i1):
    for index, value in enumerate(b1):
        if value == i1 % 4:
            return index
    return -1


def loop_nested(n1):
    out = []
    for i in range(n1):
        for j in range(2):
            out.append((i, j))
    return out


def loop_step(n1):
    return [k for k in range(3, 3 + n1 * 2, 2)]


def loop_down(n1):
    return [k for k in range(n1, 0, -1)]


def loop_raise(n1, i1):
    seen = []
    try:
        for k in range(n1):
            if k == i1:
                raise KeyError(k)
            seen.append(k)
    except KeyError:
        return ("stopped", len(seen))
    return ("all", len(seen))


def loop_negative(i1):
    return [k for k in range(i1 % 7 - 3)]


def loop_zip(b1, n1):
    return [(a, k) for a, k in zip(b1, range(n1))]


def loop_filter(b1):
    return [v for v in b1 if v > 2]


def loop_any(b1, i1):
    return (any(v == i1 for v in b1), all(v < 5 for v in b1), sum(1 for v in b1), sum(v for v in b1 if v > 1))


def loop_enumerate(b1):
    return [(k, v + 1) for k, v in enumerate(b1, 5)]


def loop_reversed(n1):
    return [k for k in reversed(range(n1))]


def loop_two(n1, n2):
    a, b = 0, n2
    for k in range(n1):
        a += 3
        b -= 1
    return (a, b)


def loop_flag(b1):
    found = False
    for v in b1:
        if v == 3:
            found = True
    return found


def loop_accumulate(b1):
    total, out = 0, []
    for v in b1:
        out.append(total)
        total += v
    return (total, out)


def loop_swap(n1, i1, i2):
    a, b = i1, i2
    for _ in range(n1):
        a, b = b, a
    return (a, b) if n1 < 2 else None


def loop_last(b1):
    v = -1
    for v in b1:
        pass
    return v


def loop_walrus(f1):
    out = []
    while chunk := f1.read(3):
        out.append(len(chunk))
    return out


def loop_iter(f1):
    return [len(c) for c in iter(lambda: f1.read(2), b"")]


def loop_counter(n1):
    counter = itertools.count()
    out = []
    for k in range(n1):
        out.append(k + 1)
    return (out, next(counter))


def loop_islice(b1, n1):
    return [v for v in itertools.islice(b1, n1)]


def loop_takewhile(b1):
    return [v for v in itertools.takewhile(lambda v: v < 4, b1)]


def loop_map(b1):
    return list(map(lambda v: v * 2, b1))


# ---- sequences
def slices(b1, i1, i2):
    return (b1[i1:i2], b1[:i1], b1[i2:], b1[-2:], b1[:-1], b1[:], len(b1[i1:]))


def index(b1, i1):
    return b1[i1]


def index_list(i1, i2):
    x = [i1, i2, 7]
    return (x[0], x[-1], x[1], x[:2], x[1:], len(x))


def index_sym(n1, i1):
    x = [k * k for k in range(n1)]
    return x[i1]


def listops(i1):
    x = [1, 2]
    x.append(i1)
    x.extend([4, 5])
    x.insert(0, 9)
    y = x + [6]
    x += [8]
    return (x, y, len(x), x.pop(), x.pop(0), [0] * 3, [*x, 1])


def list_alias(i1):
    x = [i1]
    y = x
    z = list(x)
    y.append(2)
    return (x, z, len(y))


def tuples(i1, i2):
    a, *rest = (i1, i2, 3)
    (b, c), d = (1, i1), i2
    return (a, rest, b, c, d, (a, b) + (c,), (1, 2) == (1, 2), (i1, 1) < (i2, 1))


def dicts(i1):
    d = {"a": i1, "b": 2}
    d["c"] = d["a"] + 1
    d.update({"a": 5}, e=6)
    e = dict(d, f=7)
    e |= {"g": 8}
    return (d, e, d.get("x"), d.get("a", 0), "a" in d, list(d), list(d.values()), list(d.items()), len(d), d.setdefault("q", 3), d.pop("b"), {**d, "a": 0})


def dict_key(i1):
    d = {1: "one", 2: "two"}
    return (d.get(i1, "none"), i1 in d)


def dict_missing(i1):
    d = {1: 10, 2: 20}
    return d[i1]


def dict_comp(n1):
    return {k: k * 2 for k in ("a", "b")} | {"n": n1}


def sets(i1):
    return (i1 in {1, 2, 3}, {1, 2} <= {1, 2, 3})


# ---- bytes and text
def bytes_ops(b1):
    return (len(b1), b1 == b"ab", b1.startswith(b"\x01"), bool(b1), b1 + b"x", not b1, b1 != b"")


def bytes_int(b1):
    return (int.from_bytes(b1[:2], "little"), int.from_bytes(b1[:2], "big"), int.from_bytes(b1[:1], "little", signed=True))


def bytes_unpack(b1):
    return struct.unpack("<HBb", b1[:4])


def bytes_unpack_from(b1, n1):
    return struct.unpack_from("<H", b1, n1)


def bytes_pad(b1):
    return b1.ljust(6, b"\0")


def bytes_join(b1):
    return b"".join([b1, b"--", b1[:1]])


def bytes_view(b1):
    v = memoryview(b1)
    return (len(v), bytes(v[1:3]))


def text(i1):
    return f"{i1}.{i1 + 1}"


def text_ops(i1):
    s = "abc"
    return (s.upper(), s[1], s + "d", "b" in s, s.startswith("a"), len(s), "%d" % 5, "-".join(["a", "b"]), s.replace("a", "z"), s.split("b"))


# ---- functions
def defaults(i1):
    def g(x, y=2, *rest, z=3, **kw):
        return (x, y, rest, z, sorted(kw))

    return (g(i1), g(1, i1), g(1, 2, 3, i1), g(1, z=i1), g(*[1, i1], **{"w": 2}))


def closures(i1, n1):
    total = 0

    def add(x):
        nonlocal total
        total += x
        return total

    add(i1)
    for k in range(n1):
        add(k)
    return total


def lambdas(i1):
    f = lambda x, y=i1: x * y  # noqa
    return (f(2), (lambda: i1)(), functools.partial(f, 3)())


def late(i1):
    fs = [lambda: k for k in range(3)]
    return [f() for f in fs] + [i1]


def recursion(i1):
    def fact(k):
        return 1 if k <= 1 else k * fact(k - 1)

    return fact(4) + i1


def unbound(i1):
    if i1 > 3:
        x = 1
    return x


# ---- control
def exceptions(i1):
    try:
        if i1 > 5:
            raise ValueError("a")
        if i1 > 2:
            raise KeyError("b")
        out = "none"
    except ValueError:
        out = "value"
    except (KeyError, IndexError) as e:
        out = type(e).__name__
    else:
        out = "else"
    finally:
        i1 += 1
    return (out, i1)


def exceptions_nested(i1):
    log = []
    try:
        try:
            if i1 > 2:
                raise ValueError
            log.append("in")
        finally:
            log.append("finally")
    except Exception:
        log.append("caught")
        if i1 > 4:
            raise KeyError from None
    return log


def finally_return(i1):
    for k in range(3):
        try:
            if k == i1:
                return k
            continue
        finally:
            if i1 > 10:
                break
    return 99


def reraise(i1):
    try:
        [1, 2][i1]
    except IndexError:
        raise
    return i1


def hierarchy(i1):
    try:
        {}[i1]
    except LookupError:
        return "lookup"


def conditional(i1):
    match i1:
        case 1:
            return "one"
        case 2 | 3:
            return "few"
        case _ if i1 < 0:
            return "negative"
        case _:
            return "many"


def match_seq(i1):
    match (i1, 2):
        case (0, x):
            return x
        case (y, 2):
            return y + 10
    return None


def asserts(i1):
    assert i1 > 0, "positive"
    return i1


def suppressing(i1):
    with contextlib.suppress(IndexError):
        return (1, 2, 3)[i1]
    return "suppressed"


def managers(i1):
    log = []

    @contextlib.contextmanager
    def manager():
        log.append("in")
        try:
            yield i1
        finally:
            log.append("out")

    with manager() as x:
        log.append(x)
    return log


class Thing:
    def __init__(self, x):
        self.x = x

    def _twice(self):
        return self.x * 2

    @staticmethod
    def three():
        return 3

    @classmethod
    def make(cls, x):
        return cls(x + 1)

    @property
    def neg(self):
        return -self.x


def objects(i1):
    t = Thing(i1)
    u = Thing.make(i1)
    t.x += 5
    return (t.x, u.x, t._twice(), t.neg, t.three(), isinstance(t, Thing), hasattr(t, "y"), getattr(t, "y", 4))


Pair = collections.namedtuple("Pair", "a b")


def named(i1):
    p = Pair(i1, b=2)
    x, y = p
    return (p.a, p[1], x + y, len(p), p._asdict())


def namespace(i1):
    t = types.SimpleNamespace(a=i1, b=2)
    t.a += 1
    return (t.a, t.b)


# ---- generators
def gen_simple(n1):
    for k in range(n1):
        yield k * 3
    yield -1


def gen_break(b1):
    for v in b1:
        if v == 2:
            break
        yield v


def gen_return(b1):
    for v in b1:
        if v > 4:
            return
        yield v


def gen_from(n1):
    yield 7
    yield from (k + 1 for k in range(n1))
    yield from [1, 2]


def gen_raise(b1):
    for v in b1:
        if v == 0:
            raise ValueError
        yield v


def gen_try(b1, i1):
    try:
        for v in b1:
            if v == 0:
                raise zlib.error
            yield v
    except zlib.error:
        if i1 > 3:
            raise


def gen_consume(n1):
    def g():
        for k in range(n1):
            yield k

    return [x + 1 for x in g() if x != 1]


def gen_next(i1):
    g = iter([i1, 2])
    a = next(g)
    b = next(g)
    return (a, b, next(g, "end"))


def gen_state(f1, n1):
    for _ in range(n1):
        c = f1.read(2)
        if len(c) < 2:
            break
        yield c[0]


def gen_args(b1):
    yield from (x for x in b1 if x > 1)
    return


# ---- files
def file_read(f1, i1):
    a = f1.read(i1)
    b = f1.read()
    return (len(a), a, len(b), f1.tell())


def file_seek(f1, n1):
    f1.seek(n1)
    a = f1.read(2)
    f1.seek(-1, 1)
    b = f1.read(1)
    f1.seek(0, 2)
    return (a, b, f1.tell(), f1.read(1))


def file_into(f1):
    t = Inner()
    n = f1.readinto(t)
    return (n, t.x, t.y, t.z, f1.tell())


def file_into_twice(f1):
    t = Inner()
    f1.readinto(t)
    n = f1.readinto(t)
    return (n, t.x, t.y, t.z)


def file_memory(b1):
    f = io.BytesIO(b1)
    f.read(1)
    return (f.read(2), f.tell(), f.read())


def file_loop(f1, n1):
    out = []
    for _ in range(n1):
        t = Inner()
        if f1.readinto(t) < ctypes.sizeof(t):
            break
        out.append(t.x)
    return (out, f1.tell())


# ---- structures
def struct_fields(s1):
    return (s1.a, s1.b, s1.q, s1.n, s1.inner.x, s1.inner.y, s1.inner.z, s1.both)


def struct_chars(s1):
    return (s1.name, s1.c, len(s1.name), bool(s1.name), s1.name == b"ab")


def struct_array(s1, i1):
    return (s1.arr[0], s1.arr[3], s1.arr[-1], len(s1.arr), s1.arr[1:3], list(s1.arr), s1.many[1].x, s1.arr[i1])


def struct_loop(s1):
    return [m.x + m.y for m in s1.many]


def struct_limit(s1):
    out = []
    for k, v in enumerate(s1.arr):
        if k >= s1.inner.z % 7:
            break
        out.append(v)
    return out


def struct_until(s1):
    out = []
    for m in s1.many:
        if not m.z % 2:
            break
        out.append(m.z)
    return out


def struct_copy(b1):
    t = Inner.from_buffer_copy(b1)
    return (t.x, t.y, t.z)


def struct_copy_at(b1, n1):
    t = Inner.from_buffer_copy(b1, n1)
    return (t.x, t.y, t.z)


def struct_share(f1):
    t = Inner()
    u = Inner.from_buffer(t)
    f1.readinto(t)
    return (u.x, u.y, t.x == u.x)


def struct_array_copy(b1, n1):
    a = (ctypes.c_short * n1).from_buffer_copy(b1)
    return (len(a), list(a), ctypes.sizeof(a))


def struct_write(s1):
    t = Outer.from_buffer_copy(bytes(s1))
    t.a = 7
    t.inner.x = 70000 - 65536
    return (t.a, t.inner.x, s1.a, t.b == s1.b)


def struct_bytes(s1):
    return (bytes(s1)[:4], ctypes.sizeof(s1), bytes(s1.inner))


def struct_names(s1):
    return ([n for n, *_ in s1._fields_], getattr(s1, "a"), hasattr(s1, "zz"), type(s1).__name__, isinstance(s1.arr, ctypes.Array), isinstance(s1.inner, ctypes.Structure))


def struct_getattr(s1):
    return {f[0]: getattr(s1, f[0]) for f in s1._fields_ if f[0] in ("a", "b", "q")}


def struct_bitfield(s1):
    return ((s1.b >> 4) & 0xF, s1.b & 1, bool(s1.b & 2), "y" if s1.b & 4 else "n", s1.a * 1024)


def text_decode(s1):
    return s1.name.decode("latin-1", "ignore") == "zz"


# ---- iterators are consumed, generators are lazy
def once_zip(b1, n1):
    z = zip(b1, range(n1))
    return (list(z), list(z))


def once_enumerate(b1):
    z = enumerate(b1)
    return (len(list(z)), len(list(z)))


def once_map(b1):
    z = map(lambda v: v + 1, b1)
    return (sum(z), sum(z))


def once_reversed(n1):
    z = reversed(range(n1))
    return (list(z), list(z))


def once_iter(b1):
    z = iter(b1)
    for v in z:
        if v == 2:
            break
    return sum(z)


def once_gen(b1):
    z = (v + 1 for v in b1)
    for v in z:
        if v == 2:
            break
    return sum(z)


def once_gen_raise(b1):
    def g():
        for v in b1:
            yield v

    z = g()
    try:
        for v in z:
            if v == 2:
                raise KeyError
    except KeyError:
        pass
    return sum(z)


def once_any(b1):
    z = iter(b1)
    return (2 in z, sum(z)) if False else (any(v == 2 for v in z), sum(z))


def once_islice(b1):
    z = iter(b1)
    return (list(itertools.islice(z, 2)), sum(z))


def once_count():
    z = itertools.count(5)
    a = list(zip(range(3), z))
    return (a, next(z))


def once_next(b1):
    z = iter(b1)
    first = next(z, -1)
    return (first, sum(z))


def once_unpack(i1):
    z = iter([i1, 2, 3])
    a, b, c = z
    return (a, list(z))


def once_loop(n1, b1):
    z = iter(b1)
    out = 0
    for _ in range(n1):
        out += next(z, 100)
    return out


def lazy_capture(i1):
    x = i1
    z = (x + k for k in range(2))
    x = 100
    return list(z)


def lazy_capture_list(i1):
    x = [i1]
    z = (v for v in x)
    x.append(7)
    return list(z)


def lazy_source(i1):
    x = [i1]
    z = (v for v in x)
    x = [1, 2]
    return list(z) + x


def lazy_function(i1):
    x = [i1]

    def g():
        yield x[0]
        yield len(x)

    z = g()
    x.append(1)
    return list(z)


def lazy_map(i1):
    x = i1
    z = map(lambda k: k + x, [1, 2])
    x = 50
    return list(z)


def lazy_filter(b1):
    x = 2
    z = filter(lambda k: k > x, b1)
    x = 0
    return len(list(z))


def lazy_nonlocal(i1):
    count = 0

    def g():
        nonlocal count
        for k in range(3):
            count += 1
            yield k

    z = g()
    before = count
    a = next(z)
    middle = count
    return (before, a, middle, list(z), count)


def lazy_file(f1):
    def g():
        while chunk := f1.read(2):
            yield chunk[0]

    z = g()
    at = f1.tell()
    return (at, list(z), f1.tell())


def lazy_file_interleaved(f1):
    def g():
        for _ in range(2):
            yield f1.read(1)

    return [(len(x), f1.tell()) for x in g()]


def lazy_file_break(f1):
    def g():
        for _ in range(3):
            yield f1.read(1)

    for x in g():
        break
    return f1.tell()


def lazy_struct(s1):
    t = Inner()
    t.x = 5
    z = (t.x + k for k in range(2))
    t.x = 6
    return list(z)


def lazy_never(i1):
    def g():
        raise ValueError
        yield

    z = g()
    return i1


def lazy_error(b1):
    def g():
        for v in b1:
            if v == 2:
                raise ValueError
            yield v

    out = 0
    try:
        for v in g():
            out += v
    except ValueError:
        out += 1000
    return out


def lazy_chain(f1):
    z = itertools.chain((f1.read(1) for _ in range(2)), [b"end"])
    at = f1.tell()
    return (at, list(z))


def shared_list_in_loop(n1):
    row, out = [], []
    for k in range(n1):
        row.append(k)
        out.append(row)
    return [len(r) for r in out]


def shared_dict(i1):
    d = {"a": 1}
    out = [d, d]
    d["a"] = i1
    return [x["a"] for x in out]


def shared_struct(f1):
    t, out = Inner(), []
    for _ in range(2):
        f1.readinto(t)
        out.append(t)
    return [x.x for x in out]


def copied_struct(f1):
    out = []
    for _ in range(2):
        t = Inner()
        f1.readinto(t)
        out.append(t)
    return [x.x for x in out]


def default_shared(i1):
    def g(x, acc=[]):  # noqa
        acc.append(x)
        return len(acc)

    return (g(i1), g(i1))


def nested_slice(s1):
    inner = s1.inner
    inner.x = 9
    return s1.inner.x


def nested_element(s1):
    m = s1.many[1]
    m.y = 3
    return (s1.many[1].y, [v.y for v in s1.many][1])


def shift_wrap(s1):
    t = Inner()
    t.z = 300
    t.y = 200
    t.x = -1
    return (t.x, t.y, t.z)


def format_texts(i1):
    return ("%d.%d" % (i1 & 7, 5) == "3.5", "{}-{}".format(1, "a"), f"{5:03d}", "%02x" % 10, "{0}{0}".format(2), "{a!r}".format(a="q"))


def format_eq(i1):
    return (f"{i1 & 7}.{i1 & 3}" == f"{i1 & 7}.{i1 % 4}", "%d" % (i1 & 7) == "3", ".".join(str(v) for v in (i1 & 1, 2)) == "1.2")


def to_bytes(i1):
    x = i1 & 0xFFFF
    low, high = x.to_bytes(2, "little")
    return (low, high, x.to_bytes(3, "big")[2], int.from_bytes(x.to_bytes(2, "big"), "big") == x)


def to_bytes_fail(i1):
    return i1.to_bytes(1, "little")


def string_index(i1):
    return ("ny"[i1 > 3], (10, 20, 30)[i1 % 3], [i1, 5][i1 == 2])


def mixed_list(n1, i1):
    x = [k + 1 for k in range(n1)] + [i1]
    return x[-1]


def mixed_index(n1, n2):
    x = [100] + [k * 2 for k in range(n1)] + [7, 8]
    return (x[n2], len(x))


def pairs_list(n1):
    x = []
    for k in range(n1):
        x.append(k)
        x.append(-k)
    return (len(x), x[1] if x else None)


def partials(i1):
    f = functools.partial(max, 3)
    g = functools.partial(lambda a, b, c=1: (a, b, c), i1, c=5)
    return (f(i1), g(2), g(b=4))


def struct_iter(b1):
    return [v for v, in struct.iter_unpack("<H", b1[:len(b1) // 2 * 2])]


def zip_short(b1, n1):
    return [x + y for x, y in zip(b1, range(n1))]


def nested_comp(n1):
    return [[a * b for b in range(2)] for a in range(n1)]


def walrus(i1):
    return (y := i1 + 1) and y * 2


def chained(i1):
    a = b = i1
    a += 1
    return (a, b)


def global_read(i1):
    return len(TABLE) + i1 + TABLE["x"]


TABLE = {"x": 3, "y": 4}


def lazy_mutate(i1):
    def g():
        t = Inner()
        t.x = 1
        yield t
        t.x = 2
        yield t

    return [v.x for v in g()]


def lazy_consumer_changes(i1):
    x = [i1]
    out = []
    for v in (k + x[0] for k in range(3)):
        x[0] = v
        out.append(v)
    return out


def lazy_consumer_name(i1):
    total = i1
    for v in (k + total for k in range(3)):
        total = v
    return total


def iterate_mutate(i1):
    x = [i1, 2]
    for v in x:
        if len(x) < 4:
            x.append(v)
    return x


def element_alias(n1):
    x = [[k] for k in range(n1)]
    if n1 > 1:
        x[0].append(5)
        return (x[0], x[1])
    return None


def element_alias_struct(n1):
    x = []
    for _ in range(n1):
        x.append(Inner())
    for v in x:
        v.x = 4
    return [v.x for v in x]


def element_alias_name(n1):
    x = [Inner() for _ in range(n1 + 1)]
    a = x[0]
    a.x = 3
    return x[0].x


def generator_arg(b1):
    def total(values):
        return sum(values) + len(list(values))

    return total(v for v in b1)


def zip_iter(b1):
    z = iter(b1)
    return [a * 256 + b for a, b in zip(z, z)]


def enumerate_iter(b1):
    z = iter(b1)
    next(z, None)
    return [(k, v) for k, v in enumerate(z)]


def range_reuse(n1):
    r = range(n1)
    return (sum(r), len(r), list(r), [v for v in reversed(r)])


def closure_list(n1):
    out = []

    def put(v):
        out.append(v)

    for k in range(n1):
        put(k)
    return out


def swap_struct(f1):
    a, b = Inner(), Inner()
    f1.readinto(a)
    a, b = b, a
    f1.readinto(a)
    return (a.x, b.x)


def same_default(n1):
    row = {"k": 0}
    out = []
    for k in range(n1):
        r = dict(row)
        r["k"] = k
        out.append(r)
    return [r["k"] for r in out]


def while_file(f1):
    out = []
    while True:
        c = f1.read(2)
        if not c:
            break
        out.append(c[0])
        if len(c) < 2:
            break
    return (out, f1.tell())


# decorators, closures made at import, cached properties
def _twice(fn):
    def run(*args):
        return fn(*args) + fn(*args)

    return run


def _named(key):
    def wrap(fn):
        @functools.wraps(fn)
        def run(*args, **kwargs):
            return {key: fn(*args, **kwargs)}

        return run

    return wrap


def _same(fn):
    return fn


@_twice
def _decorated_sum(i1):
    return i1 + 1


@_named("x")
def _decorated_keys(i1, i2=4):
    return i1 * i2


@_same
def _decorated_same(i1):
    return i1 - 1


def decorated(i1):
    return (_decorated_sum(i1), _decorated_keys(i1), _decorated_keys(i1, i2=2), _decorated_same(i1))


def decorated_nested(i1):
    @_twice
    def f(x):
        return x + i1

    @_same
    def g():
        return f(2)

    return g()


class Lazy:
    def __init__(self, x):
        self.x = x

    @functools.cached_property
    def double(self):
        return self.x * 2


def cached_once(i1):
    a = Lazy(i1)
    first = a.double
    a.x = 7
    return (first, a.double, Lazy(3).double)


def genexp_raises(f1):
    try:
        a, b = (struct.unpack("<H", f1.read(2))[0] for _ in range(2))
    except struct.error:
        return (None, f1.tell())
    return (a, b, f1.tell())


def genexp_first_raises(b1):
    try:
        g = (x for x in [b1[3]])
    except IndexError:
        return "early"
    return list(g)


def genexp_never(b1):
    g = (b1[k] for k in range(9))
    return 1


def genexp_late(b1):
    out = []
    try:
        for x in (b1[k] for k in range(4)):
            out.append(x)
    except IndexError:
        out.append(-1)
    return out


def genexp_unpack_more(b1):
    try:
        a, b = (b1[k] for k in range(4))
    except ValueError:
        return "many"
    except IndexError:
        return "few"
    return (a, b)


def infinite_map(b1):
    out = []
    for x in map(lambda k: k * 2, itertools.count()):
        if x >= len(b1):
            break
        out.append(x)
    return out


def while_steps(n1, i1):
    k = i1
    steps = 0
    while k < i1 + n1 * 3:
        k += 2
        steps += 1
    return (k - i1, steps)


def while_consume(b1):
    rest, out = b1, []
    while rest:
        out.append(rest[0])
        rest = rest[2:]
    return out


def zip_rest(b1):
    g = (x for x in b1)
    first = list(zip(g, [1, 2]))
    return (first, list(g))


def zip_known(b1):
    names = [len(b1), 1, 2]
    g = (x + 1 for x in names)
    out = []
    for a, b in zip(names, map(lambda x: x * 2, g)):
        out.append((a, b))
    return out


def store_field(s1, i1):
    s1 = Outer.from_buffer_copy(s1)
    s1.a = i1
    s1.b = i1 + 1
    s1.q = i1 * 3
    s1.n = i1
    s1.inner.x = s1.b % 70000
    s1.inner.y = i1
    return (s1.a, s1.b, s1.q, s1.n, s1.inner.x, s1.inner.y, s1.inner.z, bytes(s1)[4:6])


def store_copy(s1, i1):
    s1 = Outer.from_buffer_copy(s1)
    t = Outer.from_buffer_copy(s1)
    u = Outer.from_buffer(t)
    t.a = i1
    s1.b = i1
    return (s1.a, t.a, u.a, t.b == s1.b, u.both - t.both)


def store_bytes(s1, n1):
    t = Inner()
    t.x = n1 * 1000
    t.y = -n1
    return (bytes(t), t.x, t.y, t.z, bytes(t)[0])


def partial_call(i1, b1):
    def f(a, b, c=3, d=4):
        return (a, b, c, d)

    g = functools.partial(f, i1, c=len(b1))
    h = functools.partial(g, d=9)
    return (g(2), g(2, c=1), h(5), [functools.partial(max, 3)(x) for x in b1])


TRIPLE = functools.partial(int.from_bytes, byteorder="little")


def partial_global(b1):
    return TRIPLE(b1[:3])


def map_many(b1):
    return list(map(lambda a, b: a * 2 + b, b1, b1[1:]))


def map_indexed(b1):
    out = []
    for x in map(lambda k, v: (k, v + 1), range(2, 40), b1):
        out.append(x)
    return out


# ---- the length of a list which the loop builds
def len_while(n1, b1):
    out = [7]
    while len(out) <= n1:
        out.append(len(out) + len(b1))
    return (out, len(out))


def len_pairs(n1):
    out = []
    for i in range(n1):
        out.append(i)
        out.append(len(out))
    return out


def len_varying(b1):
    out = []
    for x in b1:
        if x > 9:
            out.append(len(out))
    return out


def len_nested(n1, n2):
    out, seen = [], []
    for i in range(n1):
        inner = []
        while len(inner) < n2:
            inner.append((len(out), len(inner), len(seen)))
        out.append(inner)
        if not out:
            seen.append(1)
    return out


def len_stop(n1, b1):
    out = []
    for x in b1:
        if len(out) == n1:
            break
        out.append(x)
    return out


def len_first(b1):
    out = []
    for x in b1:
        if out:
            out.append((x, 0))
        else:
            out.append((x, 1))
    return out


def nested_while(n1, n2):
    out = []
    for i in range(n1):
        inner = []
        j = 0
        while j < n2:
            inner.append((i, j))
            j += 1
        out.append(inner)
    return out


def nested_sum(n1, b1):
    out = []
    for i in range(n1):
        s = 0
        for x in b1:
            if x > i:
                s += x
        out.append(s)
    return out


def nested_find(n1, b1):
    out = []
    for i in range(n1):
        for pos, x in enumerate(b1):
            if x == i + 1:
                out.append(pos)
                break
        else:
            out.append(-1)
    return out


def nested_file(n1, f1):
    out = []
    for _ in range(n1):
        part = []
        while True:
            x = f1.read(1)
            if not x or x == b"\x05":
                break
            part.append(x[0])
        out.append(part)
    return (out, f1.tell())


def nested_flag(n1, b1):
    hit = []
    for i in range(n1):
        seen = False
        for x in b1:
            seen = seen or x == i
        hit.append(seen)
    return hit


def nested_three(n1, n2):
    out = []
    for i in range(n1):
        j = 0
        while j < n2:
            k = 0
            while k <= j:
                k += 2
            out.append((i, j, k))
            j += 1
    return out


def nested_generator(n1, n2):
    def inner(m):
        i = 0
        while i < m:
            yield i * m
            i += 1

    def outer():
        for i in range(n1):
            yield sum(inner(n2)) + i, list(inner(i % 2 + 1))

    return list(outer())


def nested_cursor(n1, b1):
    out, pos = [], 0
    for _ in range(n1):
        start = pos
        while pos < len(b1) and b1[pos] > 3:
            pos += 1
        out.append((start, pos))
        if pos < len(b1):
            pos += 1
    return out


def while_in_while(n1, n2):
    total, i = 0, n1
    while i > 0:
        j = i
        while j < n2:
            j += 3
        total += j
        i -= 1
    return total


# ---- generators that read a file, one step at a time
def _chunks(f):
    while True:
        x = f.read(2)
        if not x:
            return
        yield x


def _chunks_strict(f):
    while True:
        x = f.read(2)
        if len(x) < 2:
            raise ValueError(len(x))
        yield x


def step_zip(n1, f1):
    out = []
    for i, x in zip(range(n1), _chunks(f1)):
        out.append((i, x))
    return (out, f1.tell())


def step_zip_after(n1, f1):
    out = []
    for x, i in zip(_chunks(f1), range(n1)):
        out.append((i, x))
    return (out, f1.tell())


def step_enumerate(f1):
    return [(i, len(x)) for i, x in enumerate(_chunks(f1), 3)]


def step_enumerate_error(f1):
    out = []
    try:
        for i, x in enumerate(_chunks_strict(f1)):
            out.append((i, x))
    except ValueError as e:
        out.append(e.args)
    return out


def step_enumerate_break(n1, f1):
    out = []
    for i, x in enumerate(_chunks_strict(f1)):
        if i == n1:
            break
        out.append(x)
    return out


def step_islice(n1, f1):
    return list(itertools.islice(_chunks_strict(f1), n1))


def step_islice_tell(n1, f1):
    out = [x for x in itertools.islice(_chunks(f1), n1)]
    return (out, f1.tell())


def step_zip_two(n1, b1, f1):
    return [t for t in zip(b1, _chunks_strict(f1), range(n1))]


def step_used(f1):
    g = _chunks(f1)
    a = list(enumerate(g))
    return (a, list(g))


# ---- the body of the loop and the generator read the same file
def stream_plain(f1):
    out = []
    for x in _chunks(f1):
        out.append((x, f1.read(1)))
    return (out, f1.tell())


def stream_enumerate(n1, f1):
    out = []
    for i, x in enumerate(_chunks(f1), 1):
        if i > n1:
            break
        out.append((i, x, f1.read(1)))
    else:
        out.append("else")
    return (out, f1.tell())


def stream_zip(n1, f1):
    out = []
    for i, x in zip(range(n1), _chunks(f1)):
        out.append((i, x, f1.read(1)))
    else:
        out.append("else")
    return (out, f1.tell())


def stream_zip_after(n1, f1):
    out = []
    for x, i in zip(_chunks(f1), range(n1)):
        out.append((i, x, f1.read(1)))
    return (out, f1.tell())


def stream_islice(n1, f1):
    out = []
    for x in itertools.islice(_chunks_strict(f1), n1):
        out.append((x, f1.read(1)))
    return (out, f1.tell())


def stream_return(n1, f1):
    for i, x in enumerate(_chunks_strict(f1)):
        if len(f1.read(1)) + i == n1:
            return (i, x, f1.tell())
    return None


def stream_raise(n1, f1):
    for i, x in enumerate(_chunks(f1)):
        if i == n1:
            raise KeyError(x)
        if i > 1 and x == b"\x00\x00":
            continue
        f1.read(1)
    return f1.tell()


def stream_caught(n1, f1):
    def gen(m):
        left = m
        while left > 0:
            left -= 1
            yield f1.read(left)

    out = []
    try:
        for x in gen(n1):
            out.append(x)
            if len(x) < 2:
                raise ValueError("short")
    except ValueError:
        out.append(None)
    return (out, f1.tell())


def _pairs(f):
    for i, x in enumerate(_chunks(f)):
        yield i, x + f.read(1)


def stream_two(n1, f1):
    out = []
    for i, x in _pairs(f1):
        if i == n1:
            break
        for j, y in enumerate(_chunks(f1)):
            if y[0] > 3:
                break
            out.append((i, j, x, y))
    return (out, f1.tell())


def stream_count(f1):
    out = []
    for i, x in zip(itertools.count(4), _chunks(f1)):
        out.append((i, len(x)))
    return out


def stream_changed(n1):
    box = [0, 0]

    def gen():
        while box[0] < n1:
            box[0] += 1
            yield box

    out = []
    for b in gen():
        b[1] += b[0]
        out.append(b[1])
    return (out, box)

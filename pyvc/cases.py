"""The functions under contract: arguments, preconditions and contracts of callees, per property."""
from __future__ import annotations

import ctypes
import functools
import inspect
import os
import sys

import z3

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ATOPARSER_REPO", "/repo")
for _p in (os.path.join(HERE, "spec"), REPO):
    if _p not in sys.path:
        sys.path.insert(0, _p)

import atopspec as S  # noqa: E402
from structures import PAIRS, class_fields, layout_text, pair_name, structure_pairs  # noqa: E402
from atoparser import utils as U  # noqa: E402
from atoparser.structs import shared  # noqa: E402

from . import terms as T  # noqa: E402
from .engine import PyRaise  # noqa: E402
from .terms import SBytes, SExc, SInt, SOpaque, Unsupported, View, Zero, cond, land, le, lnot, mk_int  # noqa: E402
from .verify import Case  # noqa: E402

INLINE = (os.path.join(REPO, "atoparser") + os.sep, os.path.join(HERE, "spec") + os.sep)


# ------------------------------------------------------------------ rules for the specification primitives
def h_require(ip, args, kw):
    ip.assume(ip.truth(args[0]))


def h_fld(ip, args, kw):
    version, top, obj, path = args
    off, f = S.field_at(version, top, path)
    o = ip.obj(obj)
    if o.kind != "struct":
        raise Unsupported("fld of a non-structure")
    content = ip.get(o.f["mem"], "content").shift(o.f["off"])
    return mk_int(T.decode_int(content, off, f["size"], f.get("signed", False)))


def h_prefix_is_damaged(ip, args, kw):
    whole, size, count = args
    size, count = ip.as_int(size), ip.as_int(count)
    buf, bargs, at, left = file_state(ip, whole)
    pos = ip.get(whole, "pos")
    got = T.zmax(T.zmin(count, T.sub(size, pos)), 0)
    return T.mk_bool(T.lor(le(T.add(pos, count), size), lnot(T.app(f"ok:{buf}", tuple(bargs) + (at, got), T.B, ("ok",)))))


def h_file_size(ip, args, kw):
    return mk_int(ip.obj(args[0]).f["n"])


def h_lengths_match(ip, args, kw):
    version, header = args
    return T.mk_bool(T.simp(T.zv(land(*[T.eq(ip.as_int(h_fld(ip, [version, "Header", header, n], {})), S.SIZES[version][t])
                                        for n, t in S.LENGTH_FIELDS[version]]))))


def h_bytes_int(ip, args, kw):
    b = ip.models.as_bytes(args[0])
    return mk_int(T.decode_int(b.content, args[1], args[2], False))


def h_zero_filled(ip, args, kw):
    cls, data = args
    b = ip.models.as_bytes(data)
    return ip.mk_struct(cls, cond(b.length, b.content, Zero()))


def h_int_array(ip, args, kw):
    n, data = ip.as_int(args[0]), ip.models.as_bytes(args[1])
    if ip.branch(T.lt(data.length, T.mul(n, 4))):
        ip.raise_(ValueError)
    mem = ip.alloc("mem", content=data.content, size=T.mul(n, 4))
    return ip.alloc("arr", elem=ctypes.c_int, length=n, mem=mem, off=0)


def struct_view(ip, obj):
    o = ip.obj(obj)
    if o.kind != "struct":
        raise Unsupported("not a structure")
    return ip.get(o.f["mem"], "content").shift(o.f["off"])


def h_number_at(ip, args, kw):
    obj, off, f = args
    c, off = struct_view(ip, obj), ip.as_int(off)
    if f["kind"] == "float":
        return T.SFloat(T.decode_int(c, off, f["size"], False), f["size"])
    return mk_int(T.decode_int(c, off, f["size"], f["signed"]))


def h_bytes_at(ip, args, kw):
    obj, off, f = args
    c, off = struct_view(ip, obj), ip.as_int(off)
    return ip.cstr(c, off, f["count"]) if "count" in f else SBytes(c.shift(off), 1)


def h_text_at(ip, args, kw):
    b = h_bytes_at(ip, args, kw)
    return T.SText(b.content, b.length) if isinstance(b, SBytes) else b.decode("utf-8", "ignore")


def dict_image(key, content, size):
    """The dictionary of a structure, as a function of its class (or C structure) and its bytes."""
    return SOpaque("dict", (key, T.FStruct(None, content, size, None)), "dict")


def h_struct_at(ip, args, kw):
    version, tag, obj, off = args
    return dict_image(("C", version, tag), struct_view(ip, obj).shift(ip.as_int(off)), S.LAYOUTS[version]["structs"][tag]["size"])


PRIMITIVES = {S.number_at: h_number_at, S.bytes_at: h_bytes_at, S.text_at: h_text_at, S.struct_at: h_struct_at, S.require: h_require, S.fld: h_fld, S.lengths_match: h_lengths_match, S.bytes_int: h_bytes_int, S.zero_filled: h_zero_filled, S.int_array: h_int_array,
              S.prefix_is_damaged: h_prefix_is_damaged, S.file_size: h_file_size}


def by_spec(spec_fn):
    """Contract of a callee: whatever its specification function does."""
    def h(ip, args, kw):
        return ip.call_body(spec_fn, args, kw)

    h.spec = spec_fn
    return h


def property_contracts():
    out = {}
    for name, fn in (("semantic_version", S.semantic_version), ("major_version", S.major_version), ("minor_version", S.minor_version)):
        p = inspect.getattr_static(shared.HeaderMixin, name, None)
        if isinstance(p, (property, functools.cached_property)):
            out[getattr(p, "fget", None) or p.func] = by_spec(fn)
    return out


# ------------------------------------------------------------------ abstract contracts (deterministic in what they name)
def file_state(ip, ref):
    o = ip.obj(ref)
    if o.kind != "file" or not isinstance(o.f["content"], View):
        raise Unsupported("not a plain file")
    c = o.f["content"]
    return c.buf, c.args, T.add(c.off, ip.get(ref, "pos")), T.sub(o.f["n"], ip.get(ref, "pos"))


def take(ip, ref, count):
    buf, args, at, left = file_state(ip, ref)
    got = T.zmin(count, T.zmax(left, 0))
    ip.put(ref, "pos", T.add(ip.get(ref, "pos"), got))
    return buf, args, at, got


def abstract_blocks(name, blocks, params):
    """A getter's result as an uninterpreted function of the blocks it consumes and the integers it depends on."""
    def h(ip, args, kw):
        import zlib

        if kw or len(args) != 3:
            sig = inspect.signature(getattr(U, name)).bind(*args, **kw)
            args = [sig.arguments[k] for k in ("raw_file", "header", "record")]
        f, header, record = args
        version = S.VERSION_OF.get(ip.obj(header).f["cls"]) if ip.kind(header) == "struct" else None
        if version is None or ip.kind(record) != "struct" or ip.obj(record).f["cls"] is not S.RECORDS[version]:
            raise Unsupported("header or record of another version")
        key = []
        for b in blocks:
            count = ip.as_int(h_fld(ip, [version, "Record", record, b], {}))
            buf, bargs, at, got = take(ip, f, count)
            if not ip.branch(T.app(f"ok:{buf}", tuple(bargs) + (at, got), T.B, ("ok",))):
                ip.raise_(zlib.error)
            key += list(bargs) + [at, got]
        for top, obj, path in params(version):
            key.append(ip.as_int(h_fld(ip, [version, top, header if obj == "h" else record, path], {})))
        if not ip.branch(T.app(f"enough:{name}:{version}:{buf}", key, T.B)):
            ip.raise_(ValueError)
        return SOpaque(f"{name}:{version}:{buf}", key, "list")

    return h


A_TSTAT = abstract_blocks("get_tstat", ["pcomplen"], lambda v: [
    ("Record", "r", "nlist" if v == "1.26" else "ndeviat"), ("Header", "h", "pstatlen" if v == "1.26" else "tstatlen")])
A_CSTAT = abstract_blocks("get_cstat", ["ccomplen", "icomplen"], lambda v: [("Record", "r", "ncgroups"), ("Header", "h", "cstatlen")])


def getter_contracts():
    c = dict(PRIMITIVES)
    c.update(property_contracts())
    c[shared.HeaderMixin.check_compatibility] = by_spec(S.check_header)
    return c


def base_contracts():
    c = getter_contracts()
    return c


# ------------------------------------------------------------------ arguments
def a_file(ip, buf="F", n=None, pos=None):
    n = z3.Int("N") if n is None else n
    pos = z3.Int("P") if pos is None else pos
    ip.assume(le(0, pos))
    ip.assume(le(pos, n))
    return ip.alloc("file", content=View(buf), n=n, pos=pos)


def assume_version(ip, content, version, unknown):
    number = T.decode_int(content, 4, 2, False) % 32768
    if unknown:
        for v in S.VERSIONS:
            ip.assume(number != S.number(v))
    else:
        ip.assume(number == S.number(version))


def a_header(ip, version, unknown=False, buf="H"):
    c = View(buf)
    h = ip.mk_struct(S.HEADERS[version], c)
    assume_version(ip, c, version, unknown)
    return h


def a_record(ip, version, buf="R"):
    return ip.mk_struct(S.RECORDS[version], View(buf))


KINDS = [(v, False) for v in S.VERSIONS] + [(S.NEWEST, True)]


def kind_name(v, unknown):
    return "unknown version" if unknown else v


# ------------------------------------------------------------------ cases
def cases_header(check_values=(True, False)):
    out = []
    code_c = getter_contracts()
    for chk in check_values:
        def setup(ip, chk=chk):
            return [a_file(ip)], {"check_compatibility": chk}
        out.append(Case(f"get_header(check_compatibility={chk})", U.get_header, S.get_header, setup, code_c, PRIMITIVES))

    def setup_d(ip):
        return [a_file(ip)], {}
    out.append(Case("get_header()", U.get_header, S.get_header, setup_d, code_c, PRIMITIVES))
    return out


def cases_check():
    out = []
    for v, unk in KINDS:
        def setup(ip, v=v, unk=unk):
            return [a_header(ip, v, unk)], {}
        c = dict(PRIMITIVES)
        c.update(property_contracts())
        cls = S.HEADERS[v]
        fn = inspect.getattr_static(cls, "check_compatibility")
        out.append(Case(f"check_compatibility[{kind_name(v, unk)}]", fn, S.check_header, setup, c, PRIMITIVES))
    return out


def cases_getter(name, versions=None):
    out = []
    code_fn, spec_fn = getattr(U, name), getattr(S, name)
    for v, unk in KINDS:
        if versions is not None and v not in versions:
            continue

        def setup(ip, v=v, unk=unk):
            f = a_file(ip)
            h = a_header(ip, v, unk)
            if name == "get_record":
                return [f, h], {}
            return [f, h, a_record(ip, v)], {}
        out.append(Case(f"{name}[{kind_name(v, unk)}]", code_fn, spec_fn, setup, getter_contracts(), PRIMITIVES,
                        {"field_min": {"structlen": 0, "nprocs": 0, "cstatlen": 0}}))
    return out


def generate_contracts(code):
    c = getter_contracts()
    c[U.get_header if code else S.get_header] = by_spec(S.get_header)
    c[U.get_record if code else S.get_record] = by_spec(S.get_record)
    c[U.get_sstat if code else S.get_sstat] = by_spec(S.get_sstat)
    if not code:
        for k in (S.get_header, S.get_record, S.get_sstat):
            del c[k]
    c[U.get_tstat if code else S.get_tstat] = A_TSTAT
    c[U.get_cstat if code else S.get_cstat] = A_CSTAT
    return c


def cases_generate():
    out = []
    for v, unk in KINDS:
        def setup(ip, v=v, unk=unk):
            f = a_file(ip)
            h = a_header(ip, v, unk)
            return [f, h], {"raise_on_truncation": T.SBool(z3.Bool("raise_flag")), "max_samples": SInt(z3.Int("max_samples"))}
        out.append(Case(f"generate_statistics[{kind_name(v, unk)}]", U.generate_statistics, S.generate_statistics, setup,
                        generate_contracts(True), generate_contracts(False)))

    def setup_d(ip):
        return [a_file(ip), a_header(ip, S.NEWEST)], {}
    out.append(Case("generate_statistics[defaults]", U.generate_statistics, S.generate_statistics, setup_d, generate_contracts(True), generate_contracts(False)))

    for v, unk in KINDS:
        def setup_n(ip, v=v, unk=unk):
            f = a_file(ip)
            pos = ip.get(f, "pos")
            assume_version(ip, View("F", (), pos), v, unk)
            return [f], {"raise_on_truncation": T.SBool(z3.Bool("raise_flag")), "max_samples": SInt(z3.Int("max_samples"))}
        out.append(Case(f"generate_statistics[no header, {kind_name(v, unk)}]", U.generate_statistics, S.generate_statistics, setup_n,
                        generate_contracts(True), generate_contracts(False)))
    return out


def cases_cut():
    out = []
    for v, unk in KINDS:
        def setup(ip, v=v, unk=unk):
            n, m, p = z3.Int("N"), z3.Int("M"), z3.Int("P")
            ip.assume(m <= n)
            cut = a_file(ip, "F", m, p)
            whole = a_file(ip, "F", n, p)
            h = a_header(ip, v, unk)
            kw = {"raise_on_truncation": T.SBool(z3.Bool("raise_flag")), "max_samples": SInt(z3.Int("max_samples"))}
            return ([cut, h] if ip.side == "C" else [cut, whole, h]), kw
        out.append(Case(f"generate_statistics on a cut log[{kind_name(v, unk)}]", U.generate_statistics, S.truncated_statistics, setup,
                        generate_contracts(True), generate_contracts(False), {"frame_skip": (("file", "pos"),)}))
    return out


# ------------------------------------------------------------------ structures (C10 - C12)
def cases_layout():
    """Reading any member of a structure gives the member of the C structure, whatever the bytes."""
    out = []
    for cls, v, tag in structure_pairs():
        def setup(ip, cls=cls):
            return [ip.mk_struct(cls, View("X"))], {}

        def member_value(ip, x):
            if isinstance(x, T.Ref) and ip.kind(x) == "struct":
                return SBytes(struct_view(ip, x), ctypes.sizeof(ip.obj(x).f["cls"]))
            return x

        def call(ip, fn, args, kwargs, cls=cls, v=v, tag=tag):
            obj = args[0]
            k = z3.Int("ix!k")
            res = []
            if ip.side == "C":
                for f in class_fields(cls):
                    x = ip.getattr_(obj, f[0])
                    if isinstance(x, T.Ref) and ip.kind(x) == "arr":
                        n = ip.obj(x).f["length"]
                        ip.assume(land(le(0, k), T.lt(k, n)))
                        x = T.STuple((n, member_value(ip, ip.arr_elem(x, k))))
                        res.append(T.STuple((f[0], x)))
                    else:
                        res.append(T.STuple((f[0], member_value(ip, x))))
                return T.STuple((ctypes.sizeof(cls), ip.mk_list(res)))
            for f in S.fields(v, tag):
                n = f.get("count")
                if f["kind"] == "char":
                    x = h_bytes_at(ip, [obj, f["off"], f], {})
                else:
                    off = f["off"] if n is None else T.add(f["off"], T.mul(k, f["size"]))
                    if f["kind"] == "struct":
                        x = SBytes(struct_view(ip, obj).shift(off), f["size"])
                    else:
                        x = h_number_at(ip, [obj, mk_int(off), f], {})
                    if n is not None:
                        x = T.STuple((n, x))
                res.append(T.STuple((f["name"], x)))
            return T.STuple((S.LAYOUTS[v]["structs"][tag]["size"], ip.mk_list(res)))
        c = Case(pair_name(cls, v, tag), None, None, setup, PRIMITIVES, PRIMITIVES, {"call": call})
        c.pair = (cls, v, tag)
        out.append(c)
    return out


def h_struct_to_dict(ip, args, kw):
    """Contract of struct_to_dict for what a structure contains: a function of its class and its bytes."""
    obj = args[0] if args else kw["struct"]
    o = ip.obj(obj)
    if o.kind != "struct":
        raise Unsupported("struct_to_dict of something else")
    return dict_image(("P", o.f["cls"]), struct_view(ip, obj), ctypes.sizeof(o.f["cls"]))


def dict_hook(cmp_, label, hyps, a, b):
    """dict of a class = dict of a C structure, if the pair is under contract and the bytes are the same."""
    if not isinstance(a, SOpaque) or not isinstance(b, SOpaque):
        return False
    if a.name != "dict" or b.name != "dict":
        return False
    (ka, ca), (kb, cb) = a.args, b.args
    if ka[0] == "C" and kb[0] == "C" and layout_text(*ka[1:]) == layout_text(*kb[1:]):
        cmp_.content(label, hyps, ca.content, cb.content, cb.size)
        return True
    if ka[0] != "P" or kb[0] != "C":
        return False
    if (ka[1], kb[1], kb[2]) not in PAIRS:
        cmp_.goal(f"{label} (class {ka[1].__name__} instead of one for struct {kb[2]})", hyps, False)
        return True
    if ca.size != cb.size:
        cmp_.goal(f"{label} (size)", hyps, False)
    cmp_.content(label, hyps, ca.content, cb.content, cb.size)
    return True


def cases_dict(part):
    """part: None (everything), "numbers" (C11) or "limits" (C12)."""
    out = []
    pairs = structure_pairs()
    for cls, v, tag in pairs:
        limited = {f["name"] for f in S.fields(v, tag) if S.counter_of(v, tag, f) or f["kind"] == "char"}
        if part == "limits" and not limited:
            continue
        counters = {S.counter_of(v, tag, f): 0 for f in S.fields(v, tag) if S.counter_of(v, tag, f)}

        def setup(ip, cls=cls, v=v, tag=tag):
            x = ip.mk_struct(cls, View("X"))
            return ([x] if ip.side == "C" else [v, tag, x]), {}

        def skip(label, name, limited=limited):
            return part is not None and ((name in limited) != (part == "limits"))

        c = Case("struct_to_dict " + pair_name(cls, v, tag), U.struct_to_dict, S.to_dict, setup, dict(PRIMITIVES, **{}), PRIMITIVES,
                 {"field_min": counters, "hooks": dict_hook, "skip_key": skip})
        c.code_contracts[U.struct_to_dict] = h_struct_to_dict
        c.pair = (cls, v, tag)
        out.append(c)
    if part != "limits":
        for v in S.VERSIONS:
            if not S.HAS_CGROUPS[v]:
                continue

            def setup_c(ip, v=v):
                x = ip.mk_struct(S.HEADERS[v].CStat, View("X"))
                n = z3.Int("n")
                ip.assume(n >= 0)
                mem = ip.alloc("mem", content=View("L"), size=T.mul(n, 4))
                arr = ip.alloc("arr", elem=ctypes.c_int, length=n, mem=mem, off=0)
                ch = ip.alloc("inst", cls=S.HEADERS[v].CGChainer, cstat=x, proclist=arr)
                return ([ch] if ip.side == "C" else [v, ch]), {}
            c = Case(f"struct_to_dict CGChainer [{v}]", U.struct_to_dict, S.chainer_to_dict, setup_c, dict(PRIMITIVES), PRIMITIVES, {"hooks": dict_hook})
            c.code_contracts[U.struct_to_dict] = h_struct_to_dict
            out.append(c)
    return out


# ------------------------------------------------------------------ views (C13, C14)
SYSTEM_NAMES, TASK_NAMES = list(S.SYSTEM_VIEWS), list(S.TASK_VIEWS)


def task_list(ip, version, buf="T"):
    """A list of any number of tasks."""
    cls = S.TSTATS[version]
    n, i = z3.Int("ntasks"), z3.Int("ix!task")
    ip.assume(n >= 0)
    return ip.mk_segs((T.Map(n, i, [(True, (T.Item(T.FStruct(cls, View(buf, (i,), 0), ctypes.sizeof(cls))),))]),))


def cases_view(names):
    from atoparser.parsers import atop_1_26 as parsers

    out = []
    v = S.VIEW_VERSION
    for name in names:
        def setup(ip, name=name):
            args = [a_header(ip, v), a_record(ip, v), ip.mk_struct(S.SSTATS[v], View("S")), task_list(ip, v)]
            return ([name] if ip.side == "S" else []) + args, {}
        out.append(Case(f"parse_{name}", getattr(parsers, f"parse_{name}"), S.view, setup, getter_contracts(), PRIMITIVES, {"any_order": True}))
    return out


VERSION_PROPERTIES = ("semantic_version", "major_version", "minor_version")


IMMUTABLE = (int, str, bytes, float, type(None), type, T.SInt, T.SBool, T.SStr, T.SText, T.SBytes, T.SOpaque)


def plain(v):
    if isinstance(v, T.STuple):
        return all(plain(x) for x in v.items)
    return isinstance(v, IMMUTABLE)


def every_read(ip, header):
    """Reads the version properties in every order, any number of times.

    What a read leaves behind are attributes of the header. The states of these attributes that reads can reach from the
    present one are enumerated until no read adds another: the set is closed under reading, so it is an invariant of every
    sequence of reads. -> [the three values, do all reads in all these states agree with them]
    """
    def attrs():
        return {k: x for k, x in ip.obj(header).f.items() if k.startswith("a:")}

    def restore(state):
        o = ip.obj(header)
        f = {k: x for k, x in o.f.items() if not k.startswith("a:")}
        f.update(state)
        ip.st.heap[header.addr] = type(o)(o.kind, f)

    states, first, agree, i = [attrs()], {}, True, 0
    while i < len(states):
        for name in VERSION_PROPERTIES:
            restore(states[i])
            x = ip.getattr_(header, name)
            if name not in first:
                first[name] = x
            elif not T.same_value(x, first[name]):
                same = ip.models.equal(x, first[name]) if ip.models.pytype(x) is ip.models.pytype(first[name]) else False
                agree = T.land(agree, same)
            now = attrs()
            if not all(plain(v) for v in now.values()):
                raise T.Unsupported("the header remembers a mutable object")
            if not any(set(now) == set(s) and all(T.same_value(now[k], s[k]) for k in s) for s in states):
                states.append(now)
        i += 1
        if len(states) > 40:
            raise T.Unsupported("version properties never settle")
    restore({})
    return ip.mk_list([first[n] for n in VERSION_PROPERTIES] + [T.SBool(agree) if T.is_z(agree) else agree])


def expected_reads(ip, header):
    return ip.mk_list([ip.call_body(getattr(S, n), [header], {}) for n in VERSION_PROPERTIES] + [True])


def cases_version():
    """Any sequence of reads: of a header just made, and of one that get_header returns."""
    out = []
    for v, unk in KINDS:
        def setup(ip, v=v, unk=unk):
            return [a_header(ip, v, unk)], {}

        def call(ip, fn, args, kwargs):
            return every_read(ip, args[0]) if ip.side == "C" else expected_reads(ip, args[0])

        out.append(Case(f"any reads of the version [{kind_name(v, unk)}]", None, None, setup, dict(PRIMITIVES), PRIMITIVES, {"call": call}))

    def setup_f(ip):
        return [a_file(ip)], {"check_compatibility": False}

    def call_f(ip, fn, args, kwargs):
        if ip.side == "C":
            return every_read(ip, ip.call_body(U.get_header, args, kwargs))
        return expected_reads(ip, ip.call_body(S.get_header, args, kwargs))

    out.append(Case("get_header(), then any reads of the version", None, None, setup_f, dict(PRIMITIVES), PRIMITIVES, {"call": call_f}))
    return out


def frame_of(case):
    """The case's function leaves everything but the position of its file alone and hands out nothing shared."""
    opts = {k: x for k, x in case.opts.items() if k in ("field_min", "hooks")}
    call = case.opts.get("call")
    if call is not None:
        opts["call"] = lambda ip, fn, args, kwargs: call(ip, fn, args, kwargs) if ip.side == "C" else None
    opts["frame_only"] = True
    opts["frame_skip"] = (("file", "pos"),)
    return Case("frame of " + case.name, case.code, S.nothing, case.setup, case.code_contracts, PRIMITIVES, opts)


def cases_frame():
    out = cases_header()[:2] + cases_check() + cases_version()[:-1]
    for n in ("get_record", "get_sstat", "get_tstat"):
        out += cases_getter(n)
    out += cases_getter("get_cstat", ("2.11", "2.12")) + cases_generate() + cases_dict(None)
    out += cases_view(SYSTEM_NAMES) + cases_view(TASK_NAMES) + cli("cases_plain", [("1.26", False), ("2.12", False)]) + cli("cases_selected")[:2] + cli("cases_main")
    return [frame_of(c) for c in out]


def cli(name, *args):
    from . import cli as m

    return getattr(m, name)(*args)


PROPERTY_CASES = {
    "C15": lambda: cli("cases_plain"),
    "C16": lambda: cli("cases_selected"),
    "C17": lambda: cli("cases_main") + cli("cases_plain", [("1.26", False), ("2.3", False), ("2.12", False)]),
    "C01": lambda: cases_header(),
    "C02": lambda: cases_version() + cases_header((False,))[:1] + [c for n in ("get_record", "get_sstat", "get_tstat", "get_cstat") for c in cases_getter(n) if "unknown" in c.name]
    + [c for c in cases_generate() if "[unknown" in c.name],
    "C03": lambda: cases_check() + cases_header(),
    "C04": lambda: cases_getter("get_record"),
    "C05": lambda: cases_getter("get_sstat"),
    "C06": lambda: cases_getter("get_tstat"),
    "C07": lambda: cases_getter("get_cstat", ("2.11", "2.12")),
    "C08": lambda: cases_generate(),
    "C09": lambda: cases_cut(),
    "C10": lambda: cases_layout(),
    "C11": lambda: cases_dict("numbers"),
    "C12": lambda: cases_dict("limits"),
    "C13": lambda: cases_view(SYSTEM_NAMES),
    "C14": lambda: cases_view(TASK_NAMES),
    "C18": lambda: cases_frame(),
}


def hints_from(model, case):
    """Concrete values of the inputs in a solver model, by role."""
    out = {"record": {}, "header": {}, "file_bytes": {}}
    names = {d.name() for d in model.decls()}
    for n in ("N", "P", "M", "max_samples"):
        if n in names:
            out[n] = model.eval(z3.Int(n)).as_long()
    if "raise_flag" in names:
        out["raise_flag"] = bool(model.eval(z3.Bool("raise_flag")))
    for top, buf in (("Record", "R"), ("Header", "H")):
        if not any(n == buf or n.endswith(":" + buf) for n in names):
            continue
        for v in S.VERSIONS:
            if f"[{v}]" in case.name or "unknown" in case.name and v == S.NEWEST or v == S.NEWEST and "[" not in case.name:
                for f in S.LAYOUTS[v]["structs"][S.LAYOUTS[v]["top"][top]]["fields"]:
                    if f["kind"] == "int" and "count" not in f:
                        e = T.decode_int(View(buf), f["off"], f["size"], f.get("signed", False))
                        if str(e.decl().name()) in names:
                            x = model.eval(e)
                            if z3.is_int_value(x):
                                out[top.lower()][f["name"]] = x.as_long()
    if "P" in out:
        for v in S.VERSIONS:
            if f"[{v}]" in case.name or v == S.NEWEST and "[" not in case.name:
                for f in S.LAYOUTS[v]["structs"][S.LAYOUTS[v]["top"]["Header"]]["fields"]:
                    if f["kind"] == "int" and "count" not in f:
                        e = T.decode_int(View("F"), out["P"] + f["off"], f["size"], f.get("signed", False))
                        if str(e.decl().name()) in names:
                            x = model.eval(e)
                            if z3.is_int_value(x) and x.as_long():
                                out["header"][f["name"]] = x.as_long()
        for i in range(480):
            x = model.eval(View("F").at(out["P"] + i))
            if z3.is_int_value(x) and x.as_long():
                out["file_bytes"][i] = x.as_long()
    return out


def effort(case):
    """Cases that take longer are started first."""
    return sum(t in case.name for t in ("2.11]", "2.12]", "unknown", "default", "no header")) + 2 * case.name.startswith("generate_statistics")

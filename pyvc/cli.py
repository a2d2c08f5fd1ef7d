"""The functions of the command under contract (C15 - C17)."""
from __future__ import annotations

import ctypes
import inspect
import zlib

import z3

import atopspec as S
from atoparser import reader as R
from atoparser import utils as U
from atoparser.parsers import atop_1_26 as parsers

from . import cases as K
from . import terms as T
from .engine import intern_id
from .terms import FArr, FDict, FInst, FList, FStruct, Forall, Item, Map, SBool, SExc, SInt, SOpaque, SStr, STuple, Unsupported, View, le, mk_bool, zmax, zmin, zv
from .verify import Case


# ------------------------------------------------------------------ what a value is made of, as a key of uninterpreted functions
def key_of(ip, v):
    """(name, integers): two values with the same key are equal."""
    name, ints = [], []

    def content(c):
        if isinstance(c, View):
            name.append(c.buf)
            ints.extend(c.args)
            ints.append(c.off)
        else:
            raise Unsupported("structure assembled from several places")

    def go(v):
        if isinstance(v, T.Ref):
            o = ip.obj(v)
            if o.kind == "struct":
                name.append(o.f["cls"].__module__ + "." + o.f["cls"].__name__)
                content(ip.get(o.f["mem"], "content").shift(o.f["off"]))
                return
            if o.kind == "list":
                go(FList(ip.freeze_segs(ip.get(v, "segs"), ip.st.next + 1)) if False else FList(ip.get(v, "segs")))
                return
            raise Unsupported("argument of a contract")
        if isinstance(v, FStruct):
            name.append(v.cls.__module__ + "." + v.cls.__name__)
            content(v.content)
        elif isinstance(v, FList):
            name.append("[")
            for s in v.segs:
                if isinstance(s, Item):
                    go(s.v)
                else:
                    ints.append(s.n)
                    for c, ch in s.alts:
                        if c is not True:
                            raise Unsupported("list with alternatives")
                        for probe in (-1, -7):
                            name.append("*")
                            go(FList(T.subst_segs(ch, [(s.var, z3.IntVal(probe))])))
            name.append("]")
        elif v is None:
            name.append("None")
        else:
            raise Unsupported(f"argument of a contract: {type(v).__name__}")

    go(v)
    return "|".join(name), [T.zv(x) if not isinstance(x, int) else x for x in ints]


# ------------------------------------------------------------------ contracts of callees
def bound(fn, args, kw):
    b = inspect.signature(fn).bind(*args, **kw)
    b.apply_defaults()
    return b.arguments


def version_of(ip, header):
    v = S.VERSION_OF.get(ip.obj(header).f["cls"]) if ip.kind(header) == "struct" else None
    if v is None:
        raise Unsupported("header of another class")
    return v


def a_generate(fn):
    """generate_statistics (contract proved by C08): any number of samples, a function of file, position, header and options."""
    def h(ip, args, kw):
        a = bound(fn, args, kw)
        f, header = a["raw_file"], a["header"]
        if ip.kind(f) == "badfile":
            ip.raise_(ip.get(f, "exc"))
        if header is None:
            header = ip.call_body(S.get_header, [f], {})
        version = version_of(ip, header)
        buf, bargs, at, left = K.file_state(ip, f)
        hname, hints = key_of(ip, header)
        limit = ip.as_int(a["max_samples"])
        name = f"{version}:{buf}:{hname}"
        ints = list(bargs) + [at, left] + hints
        total = T.app(f"total:{name}", ints, T.I, ("nonneg",))
        n = zmin(total, zmax(limit, 0))
        k = z3.Int("ix!sample")
        j = z3.Int("ix!member")
        one = ints + [k]

        def struct(cls, what, extra=()):
            return FStruct(cls, View(f"{what}:{name}", tuple(one) + tuple(extra), 0), ctypes.sizeof(cls))

        tasks = FList((Map(T.app(f"ntasks:{name}", one, T.I, ("nonneg",)), j, [(True, (Item(struct(S.TSTATS[version], "task", (j,))),))]),))
        cgroups = FList(())
        if S.HAS_CGROUPS[version]:
            ids = FArr(ctypes.c_int, T.app(f"nids:{name}", one + [j], T.I, ("nonneg",)), View(f"ids:{name}", tuple(one) + (j,), 0))
            chain = FInst(S.CHAINERS[version], (("cstat", struct(S.CSTATS[version], "cstat", (j,))), ("proclist", ids)))
            cgroups = FList((Map(T.app(f"ncgroups:{name}", one, T.I, ("nonneg",)), j, [(True, (Item(chain),))]),))
        sample = STuple((struct(S.RECORDS[version], "record"), struct(S.SSTATS[version], "sstat"), tasks, cgroups))
        end = None
        if ip.branch(T.lt(total, limit)):
            if ip.branch(T.app(f"corrupt:{name}", ints, T.B)):
                end = SExc(ValueError)
            elif ip.branch(T.app(f"cut:{name}", ints, T.B)):
                if ip.test(a["raise_on_truncation"]):
                    end = SExc(zlib.error)
        ip.put(f, "pos", T.add(ip.get(f, "pos"), T.app(f"consumed:{name}", ints + [T.zv(limit)], T.I, ("nonneg",))))
        return ip.generator((Map(n, k, [(True, (Item(sample),))]),), end, (f.addr,), owned=True)

    return h


def view_rows(ip, ident, header, record, sstat, tasks):
    """Rows of a view (contract proved by C13 and C14): any number, a function of its name and the sample."""
    name, ints = [], [ident]
    for x in (header, record, sstat, tasks):
        n, i = key_of(ip, x)
        name.append(n)
        ints += i
    name = ";".join(name)
    n = T.app(f"nrows:{name}", ints, T.I, ("nonneg",))
    j = z3.Int("ix!row")
    row = FDict((), SOpaque(f"row:{name}", tuple(ints) + (j,), "dict"))
    return ip.generator((Map(n, j, [(True, (Item(row),))]),), owned=True)


def ident(ip, name):
    return intern_id(name) if isinstance(name, str) else ip.opaque_id(name)


def h_view(ip, args, kw):
    name, header, record, sstat, tasks = args
    return view_rows(ip, ident(ip, name), header, record, sstat, tasks)


def a_parser(name):
    fn = getattr(parsers, f"parse_{name}")

    def h(ip, args, kw):
        a = list(bound(fn, args, kw).values())
        if len(a) != 4:
            raise Unsupported("arguments of a view")
        return view_rows(ip, intern_id(name), *a)

    return h


def h_select(ip, sel, args, kw):
    if any(sel.table.get(n) is not getattr(parsers, f"parse_{n}") for n in S.VIEW_NAMES):
        raise Unsupported("table of views")
    if kw or len(args) != 4:
        raise Unsupported("arguments of a view")
    return view_rows(ip, ip.opaque_id(sel.key), *args)


def h_to_dict(ip, args, kw):
    x = args[0] if args else next(iter(kw.values()))
    if ip.kind(x) == "inst" and ip.obj(x).f["cls"] in S.CHAINERS.values():
        v = next(v for v in S.VERSIONS if S.HAS_CGROUPS[v] and S.CHAINERS[v] is ip.obj(x).f["cls"])
        return ip.call_body(S.chainer_to_dict, [v, x], {})
    return K.h_struct_to_dict(ip, args, kw)


def h_open_log(ip, args, kw):
    f = ip.models.f_open([args[0], "rb"], {})
    o = ip.obj(f)
    c, n = o.f["content"], o.f["n"]
    if ip.branch(T.land(T.eq(c.at(0), 0x1F), T.eq(c.at(1), 0x8B), le(2, n))):
        return ip.models.f_gzip_open([f, "rb"], {})
    return f


def h_emit(ip, args, kw):
    document, pretty = args
    layout = mk_bool(ip.truth(pretty))
    ip.models.emit_text(SOpaque("json", (ip.freeze(document, 0), layout), "json"))


def h_refusal(ip, args, kw):
    return SOpaque("refusal", (args[0],), "str")


def hook(cmp_, label, hyps, a, b):
    if isinstance(b, SOpaque) and b.name == "refusal":
        refusal_names_version(cmp_, label, hyps, a, b.args[0])
        return True
    if isinstance(a, SOpaque) and isinstance(b, SOpaque):
        return K.dict_hook(cmp_, label, hyps, a, b)
    return False


def refusal_names_version(cmp_, label, hyps, a, version):
    """The text holds the version as a word of its own (its wording is free)."""
    import re

    pieces = a.pieces if isinstance(a, SStr) else (a,) if isinstance(a, str) else None
    want = version.pieces if isinstance(version, SStr) else (version,)
    nums = [x for p in want for x in (re.findall(r"\d+", p) if isinstance(p, str) else [p[1]])]
    nums = [int(x) if isinstance(x, str) else x for x in nums]
    if pieces is None or len(nums) != 2:
        cmp_.goal(label + " (text)", hyps, None)
        return
    if not any(isinstance(p, str) and "support" in p.lower() for p in pieces):
        cmp_.goal(label + " (wording)", hyps, None)
    for i, p in enumerate(pieces):
        if isinstance(p, tuple) and p[0] == "int" and i + 2 < len(pieces) and pieces[i + 1] == "." and isinstance(pieces[i + 2], tuple) and pieces[i + 2][0] == "int":
            cmp_.ints(label + ".major", hyps, p[1], nums[0])
            cmp_.ints(label + ".minor", hyps, pieces[i + 2][1], nums[1])
            return
        if isinstance(p, str):
            m = re.search(r"(?<![\d.])(\d+)\.(\d+)(?![\d])", p)
            if m:
                cmp_.ints(label + ".major", hyps, int(m.group(1)), nums[0])
                cmp_.ints(label + ".minor", hyps, int(m.group(2)), nums[1])
                return
    cmp_.goal(label + " (text without the version)", hyps, None)


# ------------------------------------------------------------------ parse_file
def file_contracts(code):
    c = dict(K.PRIMITIVES)
    c.update({S.open_log: h_open_log, S.emit: h_emit, S.refusal: h_refusal})
    if code:
        c.update(K.property_contracts())
        c[U.get_header] = K.by_spec(S.get_header)
        c[U.generate_statistics] = a_generate(U.generate_statistics)
        c[U.struct_to_dict] = h_to_dict
        for n in S.VIEW_NAMES + ("PRD",):
            c[getattr(parsers, f"parse_{n}")] = a_parser(n)
        c["select"] = h_select
    else:
        c[S.generate_statistics] = a_generate(S.generate_statistics)
        c[S.view] = h_view
    return c


PATH = SOpaque("path", (), "str")


def assume_stored(ip, version, unknown):
    """The log behind the path, compressed or not, is of this version."""
    nm = ip.opaque_flat([PATH])[0]
    disk, gun = View(f"disk:{nm}", (), 0), View(f"gunzip:disk:{nm}", (), 0)
    n = T.app(f"size:{nm}", [], T.I, ("nonneg",))
    magic = z3.And(zv(disk.at(0)) == 0x1F, zv(disk.at(1)) == 0x8B, n >= 2)
    number = z3.If(magic, T.decode_int(gun, 4, 2, False), T.decode_int(disk, 4, 2, False)) % 32768
    if unknown:
        for v in S.VERSIONS:
            ip.assume(number != S.number(v))
    else:
        ip.assume(number == S.number(version))


def new_trace(ip):
    return ip.alloc("list", segs=(), trace=True)


def selection(ip):
    """Any list of one or more documented view names."""
    n, i = z3.Int("nviews"), z3.Int("ix!view")
    ip.assume(n >= 1)
    name = SOpaque("view", (i,), "str")
    ip.st.facts.append(Forall(i, 0, n, [z3.Or(*[ip.opaque_id(name) == intern_id(x) for x in S.VIEW_NAMES])]))
    return ip.mk_segs((Map(n, i, [(True, (Item(name),))]),))


K.structure_pairs()
FLAGS = ("pretty_print", "show_tstats", "show_cstats")


def file_case(name, version, unknown, views, flags=True):
    def setup(ip):
        new_trace(ip)
        assume_stored(ip, version, unknown)
        kw = {}
        if flags:
            kw = {k: SBool(z3.Bool(k)) for k in FLAGS}
        args = [PATH]
        if views == "any":
            args.append(selection(ip))
        elif views is not None:
            args.append(ip.mk_list(views))
        return args, kw

    return Case(name, R.parse_file, S.parse_file, setup, file_contracts(True), file_contracts(False), {"any_order": True, "any_error": True, "hooks": hook})


def cases_plain(kinds=None):
    out = [file_case(f"parse_file(file, None, ...) [{K.kind_name(v, u)}]", v, u, None) for v, u in kinds or K.KINDS]
    if kinds is None:
        out.append(file_case("parse_file(file)", S.NEWEST, False, None, False))
        out.append(file_case("parse_file(file, [])", "1.26", False, []))
    return out


def cases_selected():
    out = [file_case(f"parse_file(file, views, ...) [{K.kind_name(v, u)}]", v, u, "any") for v, u in K.KINDS]
    out += [file_case(f"parse_file(file, [{n}], ...) [1.26]", "1.26", False, [n]) for n in S.VIEW_NAMES]
    return out


# ------------------------------------------------------------------ main
def h_operands(ip, args, kw):
    return operand_list(ip, args[0])


def operand_list(ip, name):
    n, i = z3.Int(f"n:{name}"), z3.Int("ix!operand")
    ip.assume(n >= 1)
    return ip.mk_segs((Map(n, i, [(True, (Item(SOpaque(f"operand:{name}", (i,), "str")),))]),))


def h_option_values(ip, args, kw):
    return option_list(ip, tuple(sorted(args)), None)


def option_list(ip, names, default):
    key = "|".join(names)
    if not ip.branch(z3.Bool(f"given:{key}")):
        return default
    n, i = z3.Int(f"n:{key}"), z3.Int("ix!value")
    ip.assume(n >= 1)
    return ip.mk_segs((Map(n, i, [(True, (Item(SOpaque(f"value:{key}", (i,), "str")),))]),))


def h_given(ip, args, kw):
    return SBool(zv(T.lor(*[z3.Bool(f"given:{n}") for n in args])))


DOCUMENTED = {"-P", "--parseables", "-p", "--pretty-print", "--tstats", "--cstats"}


class Parser:
    """argparse.ArgumentParser for the options the command documents (abbreviations of them included)."""

    def __init__(self, ip):
        self.ip = ip

    def new(self, args, kw):
        if set(kw) - {"prog", "description", "epilog", "usage", "formatter_class"}:
            raise Unsupported("argument parser options")
        return self.ip.alloc("argparser", args=())

    def add_argument(self, v, args, kw):
        ip = self.ip
        for x in list(args) + list(kw.values()):
            if not isinstance(x, (str, int, type(None), list, tuple, STuple)) and not (isinstance(x, T.Ref) and ip.kind(x) == "list"):
                raise Unsupported("add_argument")
        ip.put(v, "args", ip.get(v, "args") + ((tuple(args), tuple(kw.items())),))
        return None

    def parse_args(self, v, args, kw):
        if args or kw:
            raise Unsupported("parse_args arguments")
        ip = self.ip
        specs = ip.get(v, "args")
        options = {o for names, _ in specs for o in names if o.startswith("-")}
        for doc in DOCUMENTED:
            for o in options - DOCUMENTED:
                if len(doc) > 3 and o.startswith(doc[:5]):
                    raise Unsupported("option similar to a documented one")
        out = {}
        taken = set()
        positionals = 0
        for names, kw in specs:
            kw = dict(kw)
            kw.pop("help", None)
            kw.pop("metavar", None)
            action = kw.pop("action", "store")
            nargs = kw.pop("nargs", None)
            dest = kw.pop("dest", None)
            default = kw.pop("default", False if action == "store_true" else None)
            choices = kw.pop("choices", None)
            if not isinstance(default, (bool, type(None))):
                raise Unsupported("default of an option")
            if names and names[0].startswith("-"):
                if kw.pop("required", False):
                    raise Unsupported("required option")
                if dest is None:
                    long = [n for n in names if n.startswith("--")]
                    dest = (long[0] if long else names[0]).lstrip("-").replace("-", "_")
                known = tuple(sorted(set(names) & DOCUMENTED))
                if set(known) & taken:
                    raise Unsupported("conflicting options")
                taken |= set(known)
                if kw or dest in out:
                    raise Unsupported("add_argument options")
                if action == "store_true":
                    g = T.lor(*[z3.Bool(f"given:{n}") for n in known])
                    out[dest] = mk_bool(T.lor(g, default is True))
                elif action == "store" and nargs in ("+", "*"):
                    if not known:
                        out[dest] = default
                        continue
                    self.check_choices(choices)
                    out[dest] = option_list(ip, known, default)
                else:
                    raise Unsupported("option action")
            else:
                if kw or action != "store" or nargs not in ("+", "*") or len(names) > 1 or choices is not None:
                    raise Unsupported("positional argument")
                positionals += 1
                name = names[0] if names else dest
                out[name] = operand_list(ip, "files")
        if positionals != 1:
            raise Unsupported("positional arguments")
        if DOCUMENTED - taken:  # argparse refuses an option it does not know
            missing = sorted(DOCUMENTED - taken)
            if ip.branch(T.lor(*[z3.Bool(f"given:{n}") for n in missing])):
                ip.raise_(SystemExit)
        import types

        return ip.alloc("inst", cls=types.SimpleNamespace, **out)

    def check_choices(self, choices):
        if choices is None:
            return
        ip = self.ip
        vals = list(choices.items) if isinstance(choices, STuple) else list(choices) if isinstance(choices, (list, tuple, dict)) else ip.unpack(choices)
        missing = [n for n in S.VIEW_NAMES if n not in vals]
        if missing and ip.branch(z3.Bool(f"selects:{missing}")):
            ip.raise_(SystemExit)


def a_parse_file(fn):
    def h(ip, args, kw):
        a = bound(fn, args, kw)
        names = ("file", "parseables", "pretty_print", "show_tstats", "show_cstats")
        if set(a) != set(names):
            raise Unsupported("signature of parse_file")
        vals = []
        for n in names:
            x = a[n]
            if n in FLAGS:
                x = mk_bool(ip.truth(x))
            elif n == "parseables" and isinstance(x, T.Ref) and ip.kind(x) == "list":
                x = FList(ip.get(x, "segs"))
            vals.append(x)
        ip.append(ip.models.trace(), STuple(["file"] + vals))
        return None

    return h


def cases_main():
    def setup(ip):
        new_trace(ip)
        return [], {}

    code = {R.parse_file: a_parse_file(R.parse_file)}
    spec = {S.parse_file: a_parse_file(S.parse_file), S.operands: h_operands, S.option_values: h_option_values, S.given: h_given}
    return [Case("main()", R.main, S.main, setup, code, spec, {"any_error": True, "hooks": hook})]

"""Models of the built-in types, functions and library calls the verified code uses."""
from __future__ import annotations

import argparse
import ast
import contextlib
import ctypes
import dataclasses
import functools
import gzip
import io
import itertools
import json
import logging
import re
import string
import struct as struct_mod
import sys
import types
import zlib

import z3

from . import terms as T
from .terms import (Cond, Const, FArr, FList, FStruct, Forall, Item, Map, PoisonContent, Ref, SBool, SBound, SBytes,
                    SExc, SFloat, SFunc, SInt, SOpaque, SRange, SSel, SSeq, SSlice, SStr, STuple, SText, Unsupported,
                    View, Zero, add, eq, ite, land, le, lnot, lor, lt, mk_bool, mk_int, mul, sub, zmax, zmin, zv)

ENC_IGNORE = "ignore"


class SArrType:
    """ctypes array type with a symbolic length."""

    def __init__(self, elem, n):
        self.elem, self.n = elem, n


class Manager:
    """A context manager of contextlib: kind is suppress, null, closing, stack or generator."""

    def __init__(self, kind, payload):
        self.kind, self.payload = kind, payload


class Models:
    SArrType = SArrType
    Manager = Manager

    def __init__(self, ip):
        self.ip = ip
        self.table = {
            len: self.f_len, isinstance: self.f_isinstance, issubclass: self.f_issubclass, hasattr: self.f_hasattr,
            getattr: self.f_getattr, setattr: self.f_setattr, range: self.f_range, int: self.f_int, str: self.f_str,
            bool: self.f_bool, bytes: self.f_bytes, bytearray: self.f_bytearray, memoryview: self.f_memoryview,
            list: self.f_list, tuple: self.f_tuple, dict: self.f_dict, enumerate: self.f_enumerate, zip: self.f_zip,
            map: self.f_map, filter: self.f_filter, reversed: self.f_reversed, iter: self.f_iter, next: self.f_next,
            min: self.f_min, max: self.f_max, sum: self.f_sum, any: self.f_any, all: self.f_all, abs: self.f_abs,
            type: self.f_type, hex: self.f_text, repr: self.f_text, format: self.f_text, print: self.f_print,
            divmod: self.f_divmod, ord: self.f_ord, vars: self.f_vars, callable: self.f_callable, sorted: self.f_unsupported,
            ctypes.addressof: self.f_addressof, ctypes.byref: self.f_addressof, ctypes.string_at: self.f_string_at,
            zlib.decompress: self.f_inflate, ctypes.sizeof: self.f_sizeof, open: self.f_open, io.open: self.f_open,
            gzip.open: self.f_gzip_open, gzip.GzipFile: self.f_gzip_open, json.dumps: self.f_dumps, json.dump: self.f_dump,
            itertools.takewhile: self.f_takewhile, itertools.islice: self.f_islice, itertools.count: self.f_count,
            itertools.chain: self.f_chain, itertools.repeat: self.f_repeat, itertools.chain.from_iterable: self.f_chain_iter,
            struct_mod.unpack_from: self.f_unpack_from, struct_mod.unpack: self.f_unpack,
            argparse.ArgumentParser: self.f_argparser,
            contextlib.closing: lambda a, k: Manager("closing", a[0]),
            contextlib.nullcontext: lambda a, k: Manager("null", a[0] if a else k.get("enter_result")),
            contextlib.suppress: lambda a, k: Manager("suppress", self.flat_classes(STuple(a))),
            contextlib.ExitStack: lambda a, k: Manager("stack", ip.mk_list([])),
        }

    def function(self, f):
        if f is ctypes.memmove:
            return self.f_memmove
        if f is ctypes.memset:
            return self.f_memset
        try:
            m = self.table.get(f)
        except TypeError:
            return None
        return m

    def f_argparser(self, args, kw):
        from .cli import Parser

        return Parser(self.ip).new(args, kw)

    def m_argparser_add_argument(self, v, args, kw):
        from .cli import Parser

        return Parser(self.ip).add_argument(v, args, kw)

    def m_argparser_parse_args(self, v, args, kw):
        from .cli import Parser

        return Parser(self.ip).parse_args(v, args, kw)

    def f_unsupported(self, args, kw):
        raise Unsupported("built-in function")

    # ------------------------------------------------------------ helpers
    def seq(self, v):
        return self.ip.seq_of(v)

    def to_segs(self, v):
        """Sequence as list segments (consuming generators)."""
        ip = self.ip
        s = ip.seq_of(v)
        if s[0] == "items":
            return tuple(Item(x) for x in s[1])
        if s[0] == "segs":
            return s[1]
        tmp = ip.alloc("list", segs=())
        ip.iterate(v, lambda x: ip.append(tmp, x))
        return ip.get(tmp, "segs")

    def random_access(self, v):
        """-> (n, elem) for sequences addressable by a symbolic index."""
        ip = self.ip
        s = ip.seq_of(v)
        if s[0] == "n":
            return s[1], s[2]
        if s[0] == "items":
            items = s[1]
            return len(items), lambda k: self.pick(items, k)
        if s[0] == "gen":
            g = s[1]
            if ip.get(g, "used") or ip.get(g, "end") is not None or ip.get(g, "files"):
                raise Unsupported("generator in composite iteration")
            ip.unchanged(ip.get(g, "snap"))
            ip.put(g, "used", "partly")
            segs = ip.get(g, "segs")
        elif s[0] == "segs":
            segs = s[1]
        elif s[0] == "iter":
            n, idx, elem = ip.get(v, "n"), ip.get(v, "idx"), ip.get(v, "elem")
            ip.unchanged(ip.get(v, "snap"))
            ip.put(v, "idx", T.Poison(("read elsewhere", v.addr)))
            return None if n is None else zmax(sub(n, idx), 0), lambda k: elem(add(idx, k))
        else:
            raise Unsupported("composite iteration")
        if all(isinstance(x, Item) for x in segs):
            vals = [x.v for x in segs]
            return len(vals), lambda k: self.pick(vals, k)
        if len(segs) == 1 and isinstance(segs[0], Map):
            m = segs[0]
            if len(m.alts) == 1 and len(m.alts[0][1]) == 1 and isinstance(m.alts[0][1][0], Item):
                t = m.alts[0][1][0].v
                return m.n, lambda k: ip.thaw(T.subst(t, [(m.var, zv(k))]))
        parts = []  # (where it starts, elements per step, chunk, loop variable)
        n = 0
        for x in segs:
            if isinstance(x, Item):
                parts.append((n, None, x.v, None))
                n = add(n, 1)
                continue
            if not isinstance(x, Map) or len({len(ch) for _, ch in x.alts}) != 1 or not all(isinstance(y, Item) for _, ch in x.alts for y in ch):
                raise Unsupported("index into a list of varying chunks")
            c = len(x.alts[0][1])
            if c:
                parts.append((n, c, x.alts, x.var))
                n = add(n, mul(x.n, c))

        def elem3(k):
            for j, (at, c, what, var) in enumerate(parts):
                if j + 1 < len(parts) and not ip.branch(lt(k, parts[j + 1][0])):
                    continue
                if c is None:
                    return what
                d = sub(k, at)
                if c == 1:
                    q, r = d, 0
                elif isinstance(d, int):
                    q, r = d // c, d % c
                else:
                    q, r = T.simp(zv(d) / c), T.simp(zv(d) % c)
                p = [(var, zv(q))]
                i = 0 if len(what) == 1 else ip.decide([([T.zsub(cond, p)], []) for cond, _ in what])
                chunk = what[i][1]
                for i in range(c):
                    if i == c - 1 or ip.branch(eq(r, i)):
                        return ip.thaw(T.subst(chunk[i].v, p))
            raise Unsupported("index into an empty list")

        return n, elem3

    def pick(self, items, k):
        """items[k] for an index in range."""
        if isinstance(k, int):
            return items[k]
        if len(items) > 64 or not items:
            raise Unsupported("symbolic index into constant items")
        for j in range(len(items) - 1):
            if self.ip.branch(eq(k, j)):
                return items[j]
        return items[-1]

    # ------------------------------------------------------------ plain functions
    def f_len(self, args, kw):
        ip = self.ip
        v = args[0]
        if isinstance(v, SBytes):
            return mk_int(v.length)
        if isinstance(v, SArrType):
            ip.raise_(TypeError)
        if isinstance(v, Ref):
            o = ip.obj(v)
            if o.kind == "list":
                return mk_int(ip.list_len(ip.get(v, "segs")))
            if o.kind == "dict":
                if o.f["base"] is None:
                    return len(o.f["entries"])
            if o.kind == "mem":
                return mk_int(o.f["size"])
            if o.kind == "arr":
                return mk_int(o.f["length"])
            if o.kind in ("struct", "gen", "file"):
                ip.raise_(TypeError)
            raise Unsupported("len")
        if isinstance(v, (SRange,)):
            return mk_int(zmax(v.n, 0))
        if isinstance(v, STuple):
            return len(v.items)
        if isinstance(v, SOpaque) and v.typ == "str":
            return mk_int(ip.opaque_id(SOpaque("len", (v,))))
        if isinstance(v, SOpaque) and v.typ == "list":
            n = ip.opaque_id(SOpaque("len", (v,)))
            ip.assume(le(0, n))
            return mk_int(n)
        if isinstance(v, (str, bytes, list, tuple, dict, range, frozenset)):
            return len(v)
        if v is None or isinstance(v, (int, SInt, SBool)):
            ip.raise_(TypeError)
        raise Unsupported("len")

    def pytype(self, v):
        if isinstance(v, SBool):
            return bool
        if isinstance(v, SInt):
            return int
        if isinstance(v, SFloat):
            return float
        if isinstance(v, (SStr, SText)):
            return str
        if isinstance(v, SBytes):
            return {"bytes": bytes, "memoryview": memoryview}[v.kind]
        if isinstance(v, STuple):
            return v.cls or tuple
        if isinstance(v, SRange):
            return range
        if isinstance(v, SExc):
            return v.cls
        if isinstance(v, (SFunc,)):
            return types.FunctionType
        if isinstance(v, SBound):
            return types.MethodType
        if isinstance(v, SOpaque):
            if v.typ == "str":
                return str
            raise Unsupported("type of opaque value")
        if isinstance(v, Ref):
            o = self.ip.obj(v)
            if o.kind in ("struct", "inst"):
                return o.f["cls"]
            if o.kind in ("list", "dict"):
                return {"list": list, "dict": dict}[o.kind]
            if o.kind == "arr":
                return ("arr", o.f["elem"], o.f["length"])
            if o.kind == "mem":
                return bytearray
            if o.kind == "gen":
                return types.GeneratorType
            if o.kind == "file":
                return io.BufferedReader
            raise Unsupported("type of object")
        return type(v)

    def f_type(self, args, kw):
        if len(args) != 1:
            raise Unsupported("type()")
        t = self.pytype(args[0])
        if isinstance(t, tuple):
            if isinstance(t[2], int):
                return t[1] * t[2]
            return SArrType(t[1], t[2])
        return t

    def f_isinstance(self, args, kw):
        v, c = args
        cs = self.flat_classes(c)
        t = self.pytype(v)
        if isinstance(t, tuple):
            for x in cs:
                if x in (object, ctypes.Array):
                    return True
                if issubclass(x, ctypes.Array) and getattr(x, "_length_", None) is not None:
                    if x._type_ is t[1] and isinstance(t[2], int) and x._length_ == t[2]:
                        return True
                    if x._type_ is t[1] and not isinstance(t[2], int):
                        raise Unsupported("array class test")
            return False
        if isinstance(v, Ref) and self.ip.obj(v).kind == "file" and any(x not in (str, bytes, type(None), int) for x in cs):
            raise Unsupported("isinstance of a file")
        return any(issubclass(t, x) for x in cs)

    def flat_classes(self, c):
        if isinstance(c, STuple):
            c = c.items
        if isinstance(c, types.UnionType) or getattr(c, "__origin__", None) is not None and str(c).startswith("typing.Union"):
            c = c.__args__
        if not isinstance(c, (tuple, list)):
            c = (c,)
        out = []
        for x in c:
            if isinstance(x, (tuple, STuple)):
                out.extend(self.flat_classes(x))
            elif isinstance(x, type):
                out.append(x)
            else:
                raise Unsupported("class test")
        return out

    def f_issubclass(self, args, kw):
        a, c = args
        if not isinstance(a, type):
            raise Unsupported("issubclass")
        return issubclass(a, tuple(self.flat_classes(c)))

    def f_callable(self, args, kw):
        v = args[0]
        if isinstance(v, (SFunc, SBound, SSel)):
            return True
        if isinstance(v, (Ref, SInt, SBool, SBytes, SStr, SText)):
            return False
        return callable(v)

    def f_hasattr(self, args, kw):
        from .engine import PyRaise

        v, n = args
        if not isinstance(n, str):
            raise Unsupported("hasattr name")
        try:
            self.ip.getattr_(v, n)
            return True
        except PyRaise as e:
            if issubclass(e.exc.cls, AttributeError):
                return False
            raise

    def f_getattr(self, args, kw):
        from .engine import PyRaise

        v, n = args[:2]
        if isinstance(n, SSel) or not isinstance(n, str):
            raise Unsupported("getattr name")
        if len(args) == 2:
            return self.ip.getattr_(v, n)
        try:
            return self.ip.getattr_(v, n)
        except PyRaise as e:
            if issubclass(e.exc.cls, AttributeError):
                return args[2]
            raise

    def f_setattr(self, args, kw):
        if not isinstance(args[1], str):
            raise Unsupported("setattr name")
        self.ip.setattr_(*args)

    def f_range(self, args, kw):
        ip = self.ip
        for a in args:
            if not ip.is_intlike(a):
                if isinstance(a, (SFloat, float, str, SStr, SText, SBytes, bytes)) or a is None:
                    ip.raise_(TypeError)
                raise Unsupported("range")
        v = [ip.as_int(a) for a in args]
        start, stop, step = (0, v[0], 1) if len(v) == 1 else (v[0], v[1], v[2] if len(v) > 2 else 1)
        if isinstance(start, int) and isinstance(stop, int) and isinstance(step, int):
            if step == 0:
                ip.raise_(ValueError)
            return range(start, stop, step)
        if not isinstance(step, int):
            # symbolic step: number of steps is a ceiling division
            if not ip.branch(lnot(le(step, 0))):
                if ip.branch(T.eq(step, 0)):
                    ip.raise_(ValueError)
                raise Unsupported("range with a symbolic negative step")
            q = T.exact_quotient(sub(stop, start), step)
            n = zmax(T.simp((zv(sub(stop, start)) + zv(step) - 1) / zv(step)) if q is None else q, 0)
            return SRange(start, n, step)
        if step == 1:
            n = zmax(sub(stop, start), 0)
        elif step > 1:
            n = zmax(T.simp((zv(sub(stop, start)) + step - 1) / step), 0)
        elif step == -1:
            n = zmax(sub(start, stop), 0)
        else:
            raise Unsupported("range step")
        return SRange(start, n, step)

    def f_int(self, args, kw):
        ip = self.ip
        if not args:
            return 0
        v = args[0]
        if len(args) > 1 or kw:
            if isinstance(v, (str, bytes)) and all(isinstance(a, int) for a in args[1:]):
                return int(v, *args[1:], **kw)
            raise Unsupported("int base")
        if ip.is_intlike(v):
            return mk_int(ip.as_int(v))
        if isinstance(v, (str, bytes, float)):
            try:
                return int(v)
            except ValueError:
                ip.raise_(ValueError)
        if isinstance(v, SStr) and len(v.pieces) == 1 and isinstance(v.pieces[0], tuple) and v.pieces[0][0] == "int":
            return mk_int(v.pieces[0][1])
        raise Unsupported("int()")

    def f_str(self, args, kw):
        if not args:
            return ""
        if len(args) > 1 or kw:
            return self.method(args[0], "decode", args[1:], kw)
        return self.mk_str(self.format_piece(args[0], -1, ""))

    def f_bool(self, args, kw):
        return mk_bool(self.ip.truth(args[0])) if args else False

    def as_bytes(self, v, writable=False):
        """bytes-like value -> SBytes (snapshot) or None."""
        ip = self.ip
        if isinstance(v, bytes):
            return SBytes(Const(v), len(v))
        if isinstance(v, SBytes):
            return v
        if isinstance(v, Ref):
            o = ip.obj(v)
            if o.kind == "mem":
                return SBytes(ip.get(v, "content"), o.f["size"], "bytes")
            if o.kind == "struct":
                return SBytes(ip.get(o.f["mem"], "content").shift(o.f["off"]), ctypes.sizeof(o.f["cls"]), "bytes")
            if o.kind == "arr":
                return SBytes(ip.get(o.f["mem"], "content").shift(o.f["off"]), mul(o.f["length"], ctypes.sizeof(o.f["elem"])), "bytes")
        return None

    def f_bytes(self, args, kw):
        if not args:
            return b""
        v = args[0]
        b = self.as_bytes(v)
        if b is not None:
            return self.norm_bytes(SBytes(b.content, b.length))
        if self.ip.is_intlike(v) and not isinstance(v, (bool, SBool)):
            n = self.ip.as_int(v)
            if isinstance(n, int):
                return bytes(n)
            if not self.ip.branch(le(0, n)):
                self.ip.raise_(ValueError)
            return SBytes(Zero(), n)
        if isinstance(v, (str, SStr, SText, SOpaque)) or v is None:
            raise Unsupported("bytes(str)")
        segs = self.to_segs(v)
        if all(isinstance(s, Item) and isinstance(s.v, int) for s in segs):
            return bytes(s.v for s in segs)
        raise Unsupported("bytes of a sequence")

    def norm_bytes(self, b):
        if isinstance(b.length, int) and isinstance(b.content, Const):
            return b.content.data[: b.length].ljust(b.length, b"\0")
        return b

    def f_bytearray(self, args, kw):
        ip = self.ip
        if not args:
            return ip.alloc("mem", content=Zero(), size=0)
        b = self.f_bytes(args, kw)
        b = SBytes(Zero(), len(b)) if isinstance(b, bytes) and not any(b) else self.as_bytes(b)
        return ip.alloc("mem", content=b.content, size=b.length)

    def f_memoryview(self, args, kw):
        v = args[0]
        if isinstance(v, (bytes, SBytes)):
            b = self.as_bytes(v)
            return SBytes(b.content, b.length, "memoryview")
        if isinstance(v, Ref) and self.ip.kind(v) in ("mem", "struct"):
            return v  # same memory; only used for readinto / slicing
        raise Unsupported("memoryview")

    def f_list(self, args, kw):
        if not args:
            return self.ip.mk_list()
        return self.ip.mk_segs(self.to_segs(args[0]))

    def f_tuple(self, args, kw):
        if not args:
            return STuple(())
        segs = self.to_segs(args[0])
        if all(isinstance(s, Item) for s in segs):
            return STuple([s.v for s in segs])
        raise Unsupported("tuple of symbolic length")

    def f_dict(self, args, kw):
        d = self.ip.alloc("dict", entries=(), base=None)
        if args:
            self.method(d, "update", args, {})
        for k, v in kw.items():
            self.setitem(d, k, v)
        return d

    def f_enumerate(self, args, kw):
        start = self.ip.as_int(args[1] if len(args) > 1 else kw.get("start", 0))
        if self.steps(args[0]):
            return self.zip_steps([self.f_count([mk_int(start)], {}), args[0]])

        def make():
            items = self.constant(args[0])
            if items is not None:
                return None, None, [STuple((mk_int(add(start, i)), x)) for i, x in enumerate(items)]
            n, elem = self.random_access(args[0])
            return n, lambda k: STuple((mk_int(add(start, k)), elem(k))), None

        return self.iterator(make)

    def known(self, v):
        """Is v a sequence of known length?"""
        ip = self.ip
        s = ip.seq_of(v)
        if s[0] == "iter":
            return ip.get(v, "items") is not None and isinstance(ip.get(v, "idx"), int)
        if s[0] == "gen":
            return not ip.get(v, "used") and ip.get(v, "end") is None and not ip.get(v, "files") and all(isinstance(x, Item) for x in ip.get(v, "segs"))
        return s[0] == "items" or s[0] == "segs" and all(isinstance(x, Item) for x in s[1])

    def constant(self, v):
        """The elements, if v is a sequence of known length that stays as it is."""
        ip = self.ip
        if not self.known(v):
            return None
        s = ip.seq_of(v)
        if s[0] == "items":
            return s[1]
        if s[0] == "segs":
            return [x.v for x in s[1]]
        ip.unchanged(ip.get(v, "snap"))
        if s[0] == "gen":
            ip.put(v, "used", "partly")
            return [x.v for x in ip.get(v, "segs")]
        items = ip.get(v, "items")[ip.get(v, "idx"):]
        ip.put(v, "idx", T.Poison(("read elsewhere", v.addr)))
        return items

    def iterator(self, make):
        """An iterator over what make() -> (n, elem, items) describes; nothing it reads may change before it is used up."""
        (n, elem, items), snap = self.ip.ahead(make)
        if items is not None:
            n, elem = len(items), lambda k: self.pick(items, k)
        return self.ip.alloc("iter", n=n, idx=0, elem=elem, items=items, snap=snap)

    def f_zip(self, args, kw):
        if set(kw) - {"strict"} or kw.get("strict"):
            raise Unsupported("zip keywords")

        if sum(self.steps(a) for a in args) == 1:
            return self.zip_steps(args)

        def make():
            if all(self.known(a) for a in args):
                return None, None, [STuple(t) for t in zip(*[self.constant(a) for a in args])]
            parts = [self.random_access(a) for a in args]
            n = parts[0][0]
            for p in parts[1:]:
                n = zmin(n, p[0]) if p[0] is not None and n is not None else (p[0] if n is None else n)
            return n, lambda k: STuple([p[1](k) for p in parts]), None

        return self.iterator(make)

    def steps(self, v):
        """Is v a generator that has to be run step by step: it reads a file, or ends in an error?"""
        ip = self.ip
        s = ip.seq_of(v)
        return s[0] == "gen" and not ip.get(s[1], "used") and bool(ip.get(s[1], "end") is not None or ip.get(s[1], "files"))

    def zip_steps(self, args):
        from .engine import BreakEx

        ip = self.ip

        def loop(emit):
            at = [self.steps(a) for a in args].index(True)
            parts = [None if i == at else self.random_access(a) for i, a in enumerate(args)]

            def ends(k, which):  # whether one of these has no element k
                return any(p[0] is not None and not ip.branch(lt(k, p[0])) for p in which)

            if ends(0, parts[:at]):
                return
            cell = ip.alloc("frame", k=0)

            def body(x):
                k = ip.as_int(ip.get(cell, "k"))
                if ends(k, parts[at + 1:]):
                    raise BreakEx()
                emit(STuple([x if p is None else p[1](k) for p in parts]))
                k = add(k, 1)
                ip.put(cell, "k", mk_int(k))
                if ends(k, parts[:at]):
                    raise BreakEx()

            try:
                ip.iterate(args[at], body)
            except BreakEx:
                pass

        return self.collected(loop)

    def collected(self, loop):
        """A lazy iterator over what loop(emit) hands out."""
        return self.ip.eager(lambda out: loop(lambda x: self.ip.append(out, x)))

    def f_map(self, args, kw):
        f = args[0]
        if len(args) == 2:
            return self.collected(lambda emit: self.ip.iterate(args[1], lambda x: emit(self.ip.call(f, [x], {}))))
        z = self.f_zip(args[1:], {})
        return self.f_map([lambda_star(self.ip, f), z], {})

    def f_filter(self, args, kw):
        f = args[0]

        def loop(emit):
            def body(x):
                if self.ip.test(x if f is None else self.ip.call(f, [x], {})):
                    emit(x)

            self.ip.iterate(args[1], body)

        return self.collected(loop)

    def f_takewhile(self, args, kw):
        from .engine import BreakEx

        f = args[0]
        ip = self.ip

        def loop(emit):
            def body(x):
                if not ip.test(ip.call(f, [x], {})):
                    raise BreakEx()
                emit(x)

            try:
                ip.iterate(args[1], body)
            except BreakEx:
                pass

        return self.collected(loop)

    def f_islice(self, args, kw):
        ip = self.ip
        src = args[0]
        bounds = args[1:]
        if len(bounds) == 1:
            start, stop = 0, bounds[0]
        elif len(bounds) == 2:
            start, stop = bounds
        else:
            raise Unsupported("islice step")
        start = 0 if start is None else ip.as_int(start)
        if stop is not None:
            stop = ip.as_int(stop)
            if not ip.branch(le(0, stop)):
                ip.raise_(ValueError)
        if not ip.branch(le(0, start)):
            ip.raise_(ValueError)
        if isinstance(start, int) and start == 0 and stop is not None and self.steps(src):
            pairs = self.zip_steps([SRange(0, stop, 1), src])
            return self.collected(lambda emit: ip.iterate(pairs, lambda t: emit(t.items[1])))

        def make():
            n, elem = self.random_access(src)
            m = n if stop is None else stop if n is None else zmin(stop, n)
            return None if m is None else zmax(sub(m, start), 0), lambda k: elem(add(start, k)), None

        return self.iterator(make)

    def f_count(self, args, kw):
        a = args + [kw[k] for k in ("start", "step") if k in kw]
        start = self.ip.as_int(a[0]) if a else 0
        step = self.ip.as_int(a[1]) if len(a) > 1 else 1
        return self.iterator(lambda: (None, lambda k: mk_int(add(start, mul(k, step))), None))

    def f_repeat(self, args, kw):
        n = self.ip.as_int(args[1]) if len(args) > 1 else None
        return self.iterator(lambda: (None if n is None else zmax(n, 0), lambda k: args[0], None))

    def f_chain(self, args, kw):
        ip = self.ip

        def loop(out):
            for a in args:
                s = ip.seq_of(a)
                if s[0] == "segs":
                    ip.put(out, "segs", ip.get(out, "segs") + tuple(s[1]))
                else:
                    ip.iterate(a, lambda x: ip.append(out, x))

        return ip.eager(loop)

    def f_chain_iter(self, args, kw):
        return self.collected(lambda emit: self.ip.iterate(args[0], lambda x: self.ip.iterate(x, emit)))

    def f_reversed(self, args, kw):
        def make():
            if isinstance(args[0], Ref) and self.ip.kind(args[0]) in ("gen", "iter"):
                self.ip.raise_(TypeError)
            s = self.ip.seq_of(args[0])
            if s[0] == "items":
                return None, None, list(reversed(s[1]))
            n, elem = self.random_access(args[0])
            return n, lambda k: elem(sub(sub(n, 1), k)), None

        return self.iterator(make)

    def f_iter(self, args, kw):
        ip = self.ip
        if len(args) == 2:
            return self.collected(lambda emit: self.until(args[0], args[1], emit))
        v = args[0]
        if isinstance(v, Ref) and ip.kind(v) in ("gen", "iter"):
            return v

        def make():
            items = self.constant(v)
            if items is not None:
                return None, None, list(items)
            return self.random_access(v) + (None,)

        return self.iterator(make)

    def until(self, f, sentinel, emit):
        from .engine import WhileExit

        def body(k):
            x = self.ip.call(f, [], {})
            if self.ip.branch(self.equal(x, sentinel)):
                raise WhileExit()
            emit(x)

        try:
            self.ip.loop_n(None, body)
        except WhileExit:
            pass

    def f_next(self, args, kw):
        ip = self.ip
        it = args[0]
        if isinstance(it, Ref) and ip.kind(it) == "iter":
            n, idx = ip.get(it, "n"), ip.get(it, "idx")
            ip.unchanged(ip.get(it, "snap"))
            if n is None or ip.branch(lt(idx, n)):
                v = ip.get(it, "elem")(idx)
                ip.put(it, "idx", add(idx, 1))
                return v
            if len(args) > 1:
                return args[1]
            ip.raise_(StopIteration)
        if isinstance(it, Ref) and ip.kind(it) == "gen" and not ip.get(it, "used") and not ip.get(it, "files"):
            segs, end = ip.get(it, "segs"), ip.get(it, "end")
            ip.unchanged(ip.get(it, "snap"))
            if end is None and segs and isinstance(segs[0], Item):
                ip.put(it, "segs", segs[1:])
                return segs[0].v
            if end is None and not segs:
                if len(args) > 1:
                    return args[1]
                ip.raise_(StopIteration)
        raise Unsupported("next")

    def f_minmax(self, args, kw, op, less):
        ip = self.ip
        if set(kw) - {"key", "default"} or len(args) < 1:
            raise Unsupported("min/max keywords")
        vals = ip.unpack(args[0]) if len(args) == 1 else args
        if not vals:
            if "default" in kw:
                return kw["default"]
            ip.raise_(ValueError)
        key = kw.get("key")
        if key is None and all(ip.is_intlike(v) for v in vals) and not any(isinstance(v, (bool, SBool)) for v in vals):
            r = ip.as_int(vals[0])
            for v in vals[1:]:
                r = op(r, ip.as_int(v))
            return mk_int(r)
        best = vals[0]
        of = best if key is None else ip.call(key, [best], {})
        for v in vals[1:]:
            w = v if key is None else ip.call(key, [v], {})
            if not ip.is_intlike(w) or not ip.is_intlike(of):
                raise Unsupported("min/max of non-integers")
            if ip.branch(less(ip.as_int(w), ip.as_int(of))):
                best, of = v, w
        return best

    def f_min(self, args, kw):
        return self.f_minmax(args, kw, zmin, lambda x, y: lt(x, y))

    def f_max(self, args, kw):
        return self.f_minmax(args, kw, zmax, lambda x, y: lt(y, x))

    def f_sum(self, args, kw):
        ip = self.ip
        acc = ip.alloc("box", v=args[1] if len(args) > 1 else 0)
        ip.iterate(args[0], lambda x: ip.put(acc, "v", self.binop(ast.Add(), ip.get(acc, "v"), x)))
        return ip.get(acc, "v")

    def f_any(self, args, kw):
        return self.any_all(args, True)

    def f_all(self, args, kw):
        return self.any_all(args, False)

    def any_all(self, args, stop):
        from .engine import BreakEx

        def body(x):
            if self.ip.test(x) == stop:
                raise BreakEx()

        try:
            self.ip.iterate(args[0], body)
        except BreakEx:
            return stop
        return not stop

    def f_abs(self, args, kw):
        i = self.ip.as_int(args[0])
        return mk_int(abs(i) if isinstance(i, int) else ite(le(0, i), i, sub(0, i)))

    def f_divmod(self, args, kw):
        return STuple((self.binop(ast.FloorDiv(), *args), self.binop(ast.Mod(), *args)))

    def f_ord(self, args, kw):
        ip = self.ip
        b = self.as_bytes(args[0])
        if b is None:
            if isinstance(args[0], str) and len(args[0]) == 1:
                return ord(args[0])
            raise Unsupported("ord")
        if not ip.branch(T.eq(b.length, 1)):
            ip.raise_(TypeError)
        return mk_int(b.content.at(0))

    def f_vars(self, args, kw):
        """The attributes of a plain object (a copy: nothing may be stored in it)."""
        ip = self.ip
        if len(args) != 1 or not isinstance(args[0], Ref) or ip.kind(args[0]) != "inst":
            raise Unsupported("reflection")
        return ip.alloc("dict", entries=tuple((k, x) for k, x in ip.obj(args[0]).f.items() if k != "cls"), base=None, view=True)

    def f_text(self, args, kw):
        """Some text depending on the arguments; its value is not modelled."""
        return SOpaque("text", (self.ip.uid(),), "str")

    # ------------------------------------------------------------ zlib, ctypes, struct
    def f_inflate(self, args, kw):
        ip = self.ip
        if kw or len(args) != 1:
            raise Unsupported("zlib.decompress options")
        b = self.as_bytes(args[0])
        if b is None:
            ip.raise_(TypeError)
        c, n = b.content, b.length
        while isinstance(c, Cond) and not ip.feasible([lnot(le(n, c.n))]):
            c = c.a
        if isinstance(c, Const) and isinstance(n, int):
            try:
                data = zlib.decompress(c.data[:n].ljust(n, b"\0"))
            except zlib.error:
                ip.raise_(zlib.error)
            return data
        if isinstance(n, int) and n == 0:
            ip.raise_(zlib.error)
        if not isinstance(c, View):
            raise Unsupported("decompression of assembled bytes")
        a = c.args + (c.off, n)
        ok = T.app(f"ok:{c.buf}", a, T.B, ("ok",))
        if not ip.branch(ok):
            ip.raise_(zlib.error)
        ln = T.app(f"dlen:{c.buf}", a, T.I, ("nonneg",))
        return SBytes(View(f"inf:{c.buf}", a, 0), ln)

    def extent(self, t):
        """Memory object, offset and size behind a buffer."""
        o = self.ip.obj(t)
        if o.kind == "mem":
            return t, 0, o.f["size"]
        if o.kind == "struct":
            return o.f["mem"], o.f["off"], ctypes.sizeof(o.f["cls"])
        if o.kind == "arr":
            return o.f["mem"], o.f["off"], mul(o.f["length"], ctypes.sizeof(o.f["elem"]))
        raise Unsupported(f"memory of a {o.kind}")

    def store(self, mem, off, n, src, size=None):
        """The first n bytes of src to mem[off:]."""
        ip = self.ip
        m = ip.obj(mem)
        old = m.f["content"]
        size = m.f["size"] if size is None else size
        whole = isinstance(off, int) and off == 0
        if whole and T.same_int(n, size):
            new = src if T.same_int(size, m.f["size"]) else Cond(n, src, old)
        elif whole:
            new = Cond(n, src, old)
        else:
            new = Cond(off, old, Cond(add(off, n), T.Moved(src, sub(0, off)) if not isinstance(src, View) else src.shift(sub(0, off)), old))
        if isinstance(old, PoisonContent) and not (whole and T.same_int(n, size)):
            raise T.PoisonRead(old.loc)
        ip.put(mem, "content", new)

    def f_addressof(self, args, kw):
        if kw or not isinstance(args[0], Ref) or self.ip.kind(args[0]) not in ("struct", "arr"):
            raise Unsupported("address")
        mem, off, _ = self.extent(args[0])
        return T.SPtr(mem, add(off, self.ip.as_int(args[1])) if len(args) > 1 else off)

    def pointed(self, v):
        """Memory and offset a pointer argument designates."""
        if isinstance(v, T.SPtr):
            return v.mem, v.off
        if isinstance(v, Ref) and self.ip.kind(v) == "arr":
            return self.extent(v)[:2]
        raise Unsupported("pointer argument")

    def inside(self, mem, off, n):
        ip = self.ip
        if not ip.branch(T.land(le(0, off), le(0, n), le(add(off, n), ip.get(mem, "size")))):
            raise Unsupported("access beyond the end of an object")

    def f_memmove(self, args, kw):
        ip = self.ip
        mem, off = self.pointed(args[0])
        n = ip.as_int(args[2])
        self.inside(mem, off, n)
        b = self.as_bytes(args[1]) if isinstance(args[1], (bytes, SBytes)) else None
        if b is not None:
            if not ip.branch(le(n, add(b.length, 1))):
                raise Unsupported("access beyond the end of an object")
            src = b.content if ip.branch(le(n, b.length)) else Cond(b.length, b.content, Zero())
        else:
            m2, o2 = self.pointed(args[1])
            self.inside(m2, o2, n)
            src = ip.get(m2, "content").shift(o2)
        self.store(mem, off, n, src)
        return args[0]

    def f_memset(self, args, kw):
        ip = self.ip
        mem, off = self.pointed(args[0])
        n = ip.as_int(args[2])
        self.inside(mem, off, n)
        if args[1] != 0 or isinstance(args[1], bool):
            raise Unsupported("memset")
        self.store(mem, off, n, Zero())
        return args[0]

    def f_string_at(self, args, kw):
        ip = self.ip
        if len(args) < 2:
            raise Unsupported("string_at without a size")
        mem, off = self.pointed(args[0])
        n = ip.as_int(args[1])
        self.inside(mem, off, n)
        return SBytes(ip.get(mem, "content").shift(off), n)

    def f_sizeof(self, args, kw):
        v = args[0]
        if isinstance(v, SArrType):
            return mk_int(mul(v.n, ctypes.sizeof(v.elem)))
        if isinstance(v, Ref):
            o = self.ip.obj(v)
            if o.kind == "struct":
                return ctypes.sizeof(o.f["cls"])
            if o.kind == "arr":
                return mk_int(mul(o.f["length"], ctypes.sizeof(o.f["elem"])))
            raise Unsupported("sizeof")
        if isinstance(v, type):
            try:
                return ctypes.sizeof(v)
            except TypeError:
                self.ip.raise_(TypeError)
        if v is None:
            self.ip.raise_(TypeError)
        raise Unsupported("sizeof")

    def f_unpack_from(self, args, kw):
        fmt, buf = args[0], args[1]
        off = args[2] if len(args) > 2 else kw.get("offset", 0)
        return self.unpack_fmt(fmt, buf, off, False)

    def f_unpack(self, args, kw):
        return self.unpack_fmt(args[0], args[1], 0, True)

    def unpack_fmt(self, fmt, buf, off, exact):
        ip = self.ip
        b = self.as_bytes(buf)
        if not isinstance(fmt, str) or b is None:
            raise Unsupported("struct format")
        codes = fmt[1:] if fmt[:1] in "<=" else fmt
        if fmt[:1] not in "<=" or any(c not in "bBhHiIlLqQ" for c in codes):
            raise Unsupported("struct format")
        off = ip.as_int(off)
        size = struct_mod.calcsize(fmt)
        if not ip.branch(le(0, off)):
            raise Unsupported("negative offset")
        ok = eq(b.length, size) if exact else le(add(off, size), b.length)
        if not ip.branch(ok):
            ip.raise_(struct_mod.error)
        out = []
        for c in codes:
            n = struct_mod.calcsize("<" + c)
            out.append(mk_int(T.decode_int(b.content, off, n, c.islower())))
            off = add(off, n)
        return STuple(out)

    def arrtype_attr(self, v, name):
        if name in ("from_buffer_copy", "from_buffer"):
            return SBound(v, name)
        if name == "_length_":
            return mk_int(v.n)
        if name == "_type_":
            return v.elem
        raise Unsupported("array type attribute")

    def buffer_new(self, cls, name, args, kw):
        """cls.from_buffer(_copy)(source, offset)"""
        ip = self.ip
        src = args[0] if args else kw.get("source")
        off = args[1] if len(args) > 1 else kw.get("offset", 0)
        off = ip.as_int(off)
        if isinstance(cls, SArrType):
            size = mul(cls.n, ctypes.sizeof(cls.elem))
        else:
            size = ctypes.sizeof(cls)
        b = self.as_bytes(src)
        if b is None:
            if isinstance(src, (str, int, SInt)) or src is None:
                ip.raise_(TypeError)
            raise Unsupported("buffer source")
        if not ip.branch(le(0, off)):
            ip.raise_(ValueError)
        if not ip.branch(le(size, sub(b.length, off))):
            ip.raise_(ValueError)
        if name == "from_buffer_copy":
            mem = ip.alloc("mem", content=b.content.shift(off), size=size)
            base = 0
        else:
            if not isinstance(src, Ref):
                ip.raise_(TypeError)
            o = ip.obj(src)
            mem, base = (src, 0) if o.kind == "mem" else (o.f["mem"], o.f["off"])
            base = add(base, off)
        if isinstance(cls, SArrType):
            return ip.alloc("arr", elem=cls.elem, length=cls.n, mem=mem, off=base)
        if issubclass(cls, ctypes.Array):
            return ip.alloc("arr", elem=cls._type_, length=cls._length_, mem=mem, off=base)
        return ip.alloc("struct", cls=cls, mem=mem, off=base)

    def write_field(self, ref, owner, d, name, val):
        ip = self.ip
        t = ip.field_type(owner, name)
        o = ip.obj(ref)
        if not (isinstance(t, type) and t.__mro__[1] is ctypes._SimpleCData and t._type_ in "bBhHiIlLqQ"):
            raise Unsupported("assignment to a structure field")
        v = ip.as_int(val)
        size = ctypes.sizeof(t)
        mem = o.f["mem"]
        old = ip.get(mem, "content")
        off = add(o.f["off"], d.offset)
        if isinstance(v, int):
            new = Const((v % (1 << (8 * size))).to_bytes(size, "little"))
        else:
            new = T.Encoded(v, size)
        new = T.Moved(new, sub(0, off)) if not (isinstance(off, int) and off == 0) else new
        ip.put(mem, "content", Cond(off, old, Cond(add(off, size), new, old)))

    def construct(self, cls, args, kw):
        ip = self.ip
        if issubclass(cls, ctypes.Structure):
            if args or kw:
                raise Unsupported("structure initialiser")
            if "__init__" in cls.__dict__ or any("__init__" in c.__dict__ or "__new__" in c.__dict__ for c in cls.__mro__ if c.__module__.startswith("atoparser")):
                raise Unsupported("structure constructor")
            return ip.mk_struct(cls, Zero())
        if issubclass(cls, ctypes.Array):
            if args or kw:
                raise Unsupported("array initialiser")
            mem = ip.alloc("mem", content=Zero(), size=ctypes.sizeof(cls))
            return ip.alloc("arr", elem=cls._type_, length=cls._length_, mem=mem, off=0)
        if issubclass(cls, BaseException):
            return SExc(cls, args)
        if cls is object:
            return ip.alloc("inst", cls=object)
        if cls is io.BytesIO and len(args) == 1 and not kw and self.as_bytes(args[0]) is not None:
            b = self.as_bytes(args[0])
            return ip.alloc("file", content=b.content, n=b.length, pos=0, memory=True)
        if cls is functools.partial:
            return SBound(STuple((args[0], STuple(args[1:]), STuple([STuple(x) for x in kw.items()]))), "()partial")
        if cls is types.SimpleNamespace:
            return ip.alloc("inst", cls=cls, **kw)
        if issubclass(cls, tuple) and hasattr(cls, "_fields") and hasattr(cls, "_field_defaults"):
            return self.namedtuple(cls, args, kw)
        init = None
        for c in cls.__mro__:
            if "__new__" in c.__dict__ and c is not object:
                raise Unsupported(f"construct {cls.__name__}")
            if "__init__" in c.__dict__ and init is None and c is not object:
                init = c.__dict__["__init__"]
        if cls.__flags__ & (1 << 8) or type(cls) is not type:  # immutable built-in or metaclass
            raise Unsupported(f"construct {cls.__name__}")
        ref = ip.alloc("inst", cls=cls)
        if init is not None:
            if dataclasses.is_dataclass(cls) and init.__code__.co_filename == "<string>":
                self.dataclass_init(ref, cls, args, kw)
            elif not ip.inlinable(init):
                raise Unsupported(f"construct {cls.__name__}")
            else:
                ip.call(init, [ref] + args, kw)
        return ref

    def namedtuple(self, cls, args, kw):
        if not cls.__new__.__code__.co_filename.startswith("<"):
            raise Unsupported(f"construct {cls.__name__}")
        vals = dict(zip(cls._fields, args))
        if len(args) > len(cls._fields) or set(kw) & set(vals) or set(kw) - set(cls._fields):
            self.ip.raise_(TypeError)
        vals = {**cls._field_defaults, **vals, **kw}
        if len(vals) < len(cls._fields):
            self.ip.raise_(TypeError)
        return STuple([vals[n] for n in cls._fields], cls)

    def namedtuple_attr(self, v, name):
        if name in v.cls._fields:
            return v.items[v.cls._fields.index(name)]
        owner, d = self.ip.class_lookup(v.cls, name)
        if isinstance(d, property):
            return self.ip.call_property(v, d, name)
        if isinstance(d, types.FunctionType) and self.ip.inlinable(d):
            return SBound(v, name, d)
        if name == "_fields":
            return v.cls._fields
        if name == "_asdict":
            return SBound(v, name)
        if not hasattr(v.cls, name):
            self.ip.raise_(AttributeError, name)
        raise Unsupported(f"attribute {name} of a named tuple")

    def dataclass_init(self, ref, cls, args, kw):
        ip = self.ip
        fields = [f for f in dataclasses.fields(cls) if f.init]
        if len(fields) != len(dataclasses.fields(cls)) or any(f.kw_only for f in fields):
            raise Unsupported("dataclass fields")
        vals = dict(zip([f.name for f in fields], args))
        if len(args) > len(fields) or set(kw) & set(vals) or set(kw) - {f.name for f in fields}:
            ip.raise_(TypeError)
        vals.update(kw)
        for f in fields:
            if f.name in vals:
                v = vals[f.name]
            elif f.default is not dataclasses.MISSING:
                v = f.default
            elif f.default_factory is not dataclasses.MISSING:
                v = ip.call(f.default_factory, [], {})
            else:
                ip.raise_(TypeError)
            ip.put(ref, f.name, v)
        if hasattr(cls, "__post_init__"):
            ip.call(ip.getattr_(ref, "__post_init__"), [], {})

    PURE = {"hex", "ord", "chr", "round", "pow", "bin", "oct", "calcsize", "id"}

    def native_call(self, f, args, kw):
        name = getattr(f, "__name__", "?")
        conc = all(isinstance(a, (int, str, bytes, float, type(None))) for a in list(args) + list(kw.values()))
        if name in self.PURE and conc and isinstance(f, types.BuiltinFunctionType):
            return f(*args, **kw)
        if f is ctypes.c_char or isinstance(f, type):
            raise Unsupported(f"construct {name}")
        self_obj = getattr(f, "__self__", None)
        if isinstance(f, types.BuiltinMethodType) and self_obj is not None and not isinstance(self_obj, types.ModuleType):
            if isinstance(self_obj, type):
                return self.method(self_obj, name, args, kw)
            if self_obj is sys.stdout and name == "write":
                return self.emit_text(args[0])
        if isinstance(f, types.MethodType) and isinstance(self_obj, logging.Logger) and name in ("debug", "info", "warning", "error"):
            self.ip.assumptions.add("log messages have no effect on results")
            return None
        if isinstance(f, functools._lru_cache_wrapper) and isinstance(f.__wrapped__, types.FunctionType):
            plain = (int, SInt, str, bytes, type, type(None))
            if not all(isinstance(a, plain) for a in list(args) + list(kw.values())):
                raise Unsupported("cached function of an object")
            r = self.ip.call_body(f.__wrapped__, args, kw, cached=True)
            if not isinstance(r, plain + (SArrType, SBool)):
                raise Unsupported("cached function that returns an object")
            return r
        raise Unsupported(f"call of {name}")

    # ------------------------------------------------------------ files and output
    def file_avail(self, ref):
        return zmax(sub(self.ip.get(ref, "n"), self.ip.get(ref, "pos")), 0)

    def f_open(self, args, kw):
        """open(path, "rb"): a regular file whose contents are a function of the path."""
        ip = self.ip
        names = ["file", "mode", "buffering"]
        a = dict(zip(names, args))
        a.update(kw)
        if a.get("mode") != "rb" or set(a) - {"file", "mode"}:
            raise Unsupported("open mode")
        p = a["file"]
        if not (isinstance(p, (str, SOpaque))):
            raise Unsupported("open path")
        nm, ints = ip.opaque_flat([p])
        ip.assumptions.add("open(path, 'rb') succeeds and the path names a regular file that does not change during the run")
        n = T.app(f"size:{nm}", ints, T.I, ("nonneg",))
        return ip.alloc("file", content=View(f"disk:{nm}", ints, 0), n=n, pos=0, gz=False)

    def f_gzip_open(self, args, kw):
        ip = self.ip
        names = ["filename", "mode", "compresslevel", "fileobj"]
        a = dict(zip(names, args))
        a.update(kw)
        if a.get("mode", "rb") not in ("rb", "r"):
            raise Unsupported("gzip mode")
        p = a.get("fileobj") or a.get("filename")
        if isinstance(p, (str, SOpaque)):
            p = self.f_open([p, "rb"], {})
        if not (isinstance(p, Ref) and ip.kind(p) == "file"):
            raise Unsupported("gzip source")
        pos = ip.get(p, "pos")
        c, n = ip.get(p, "content"), ip.get(p, "n")
        if not (isinstance(pos, int) and pos == 0 and isinstance(c, View) and isinstance(c.off, int) and c.off == 0):
            raise Unsupported("gzip of part of a file")
        gn = T.app(f"gsize:{c.buf}", c.args, T.I, ("nonneg",))
        magic = land(eq(c.at(0), 0x1F), eq(c.at(1), 0x8B), le(2, n))
        if not ip.branch(magic):
            # gzip refuses (BadGzipFile) at the first read
            return ip.alloc("badfile", exc=gzip.BadGzipFile)
        ip.assumptions.add("a file starting with the gzip magic number is a complete gzip file (gunzip is an uninterpreted function of it)")
        return ip.alloc("file", content=View(f"gunzip:{c.buf}", c.args, 0), n=gn, pos=0, gz=True, under=p)

    def enter(self, cm):
        ip = self.ip
        if isinstance(cm, Ref) and ip.kind(cm) in ("file", "badfile"):
            return cm
        if isinstance(cm, Manager) and cm.kind != "generator":
            return {"suppress": None, "stack": cm}.get(cm.kind, cm.payload)
        if isinstance(cm, Ref) and ip.kind(cm) == "inst" and self.has_method(cm, "__enter__") and self.has_method(cm, "__exit__"):
            return ip.call(ip.getattr_(cm, "__enter__"), [], {})
        raise Unsupported("context manager")

    def closed(self, v):
        f = self.ip.obj(v).f
        return f.get("closed") or f.get("under") is not None and self.closed(f["under"])

    def has_method(self, v, name):
        return isinstance(self.ip.class_lookup(self.ip.obj(v).f["cls"], name)[1], types.FunctionType)

    def exit(self, cm, exc):
        """-> is the exception swallowed?"""
        ip = self.ip
        if isinstance(cm, Manager):
            if cm.kind == "suppress":
                return exc is not None and any(issubclass(exc.cls, c) for c in cm.payload)
            if cm.kind == "closing":
                ip.call(ip.getattr_(cm.payload, "close"), [], {})
            if cm.kind == "stack":
                swallowed = False
                for s in reversed(ip.get(cm.payload, "segs")):
                    if not isinstance(s, Item):
                        raise Unsupported("exit stack filled in a loop")
                    if self.exit(s.v, None if swallowed else exc):
                        swallowed = True
                return swallowed and exc is not None
            return False
        if ip.kind(cm) == "inst":
            r = ip.call(ip.getattr_(cm, "__exit__"), [exc.cls, exc, None] if exc is not None else [None, None, None], {})
            return exc is not None and ip.test(r)
        ip.put(cm, "closed", True)
        return False

    def doc(self, v):
        """Image of a value for the output trace."""
        return self.ip.freeze(v, 0)

    def f_dumps(self, args, kw):
        ip = self.ip
        ok = {"indent", "separators", "sort_keys", "ensure_ascii"}
        if set(kw) - ok or len(args) != 1 or kw.get("sort_keys") not in (None, False):
            raise Unsupported("json options")
        indent = kw.get("indent")
        if indent is None:
            pretty = False
        elif isinstance(indent, int) and not isinstance(indent, bool) and indent > 0 or isinstance(indent, str):
            pretty = True
        else:
            raise Unsupported("json indentation")
        if kw.get("separators") is not None:
            s = self.ip.unpack(kw["separators"])
            if [str(x).strip() for x in s] != [",", ":"] or any(c in x for x in s for c in "\n\r"):
                raise Unsupported("json separators")
        return SOpaque("json", (self.ip.freeze(args[0], 0), pretty), "json")

    def f_dump(self, args, kw):
        if len(args) < 2 or args[1] is not sys.stdout:
            raise Unsupported("json.dump target")
        t = self.f_dumps([args[0]], kw)
        return self.emit_text(t)

    def emit_text(self, v):
        """sys.stdout.write"""
        if isinstance(v, str) and not v.strip():
            return None
        if isinstance(v, SStr):  # white space after a document
            pieces = list(v.pieces)
            while pieces and isinstance(pieces[-1], str) and not pieces[-1].strip():
                pieces.pop()
            v = self.mk_str(pieces)
        tr = self.trace()
        self.ip.append(tr, STuple(("text", v)))
        return None

    def trace(self):
        for a, o in self.ip.st.heap.items():
            if o.kind == "list" and o.f.get("trace"):
                return Ref(a)
        raise Unsupported("output")

    def f_print(self, args, kw):
        if set(kw) - {"flush", "end", "file"}:
            raise Unsupported("print options")
        if "file" in kw and kw["file"] is sys.stderr:
            return None
        if "file" in kw and kw["file"] is not sys.stdout:
            raise Unsupported("print target")
        end = kw.get("end", "\n")
        if len(args) > 1 or not (end is None or isinstance(end, str) and not end.strip()):
            raise Unsupported("print form")
        self.emit_text(args[0] if args else "")
        return None

    # ------------------------------------------------------------ strings
    def mk_str(self, pieces):
        out = []
        for p in pieces:
            if isinstance(p, str):
                if out and isinstance(out[-1], str):
                    out[-1] += p
                elif p:
                    out.append(p)
            elif isinstance(p, tuple) and p[0] == "int" and isinstance(p[1], int):
                s = str(p[1])
                if out and isinstance(out[-1], str):
                    out[-1] += s
                else:
                    out.append(s)
            else:
                out.append(p)
        if not out:
            return ""
        if len(out) == 1 and isinstance(out[0], str):
            return out[0]
        if len(out) == 1 and isinstance(out[0], tuple) and out[0][0] == "val":
            return out[0][1]
        return SStr(out)

    def format_piece(self, v, conversion, spec):
        ip = self.ip
        if spec not in ("", "d") or conversion not in (-1, 115):
            if isinstance(v, (int, str, float)) and isinstance(spec, str):
                if conversion == 114:
                    v = repr(v)
                return [format(v, spec)]
            return [("val", SOpaque("text", (ip.uid(),), "str"))]
        if isinstance(v, bool) or v is None or isinstance(v, (int, str, float, bytes)):
            return [str(v)]
        if isinstance(v, SInt):
            return [("int", v.e)]
        if isinstance(v, SStr):
            return list(v.pieces)
        if isinstance(v, (SText, SOpaque)):
            return [("val", v)]
        return [("val", SOpaque("text", (ip.uid(),), "str"))]

    def percent(self, template, b):
        """template % b"""
        ip = self.ip
        args = list(b.items if isinstance(b, STuple) else b) if isinstance(b, (STuple, tuple)) else [b]
        if isinstance(b, (dict, Ref)) or "%(" in template:
            return SOpaque("text", (ip.uid(),), "str")
        pieces = []
        for part in re.split(r"(%[^a-zA-Z%]*[a-zA-Z%])", template):
            if part == "%%":
                pieces.append("%")
            elif part.startswith("%"):
                if "*" in part:
                    return SOpaque("text", (ip.uid(),), "str")
                if not args:
                    ip.raise_(TypeError)
                v = args.pop(0)
                if part[-1] not in "srdiuxXoc" or part[-1] not in "sr" and not (ip.is_intlike(v) or isinstance(v, float)):
                    return SOpaque("text", (ip.uid(),), "str")
                if not self.symbolic(v):
                    try:
                        pieces.append(part % (v,))
                    except (TypeError, ValueError) as e:
                        ip.raise_(type(e))
                    continue
                if part in ("%d", "%i", "%u") and isinstance(v, SBool):
                    v = mk_int(ip.as_int(v))
                pieces.extend(self.format_piece(v, -1, "" if part in ("%s", "%d", "%i", "%u") or part == "%r" and isinstance(v, (SInt, SBool)) else part))
            else:
                pieces.append(part)
        if args:
            ip.raise_(TypeError)
        return self.mk_str(pieces)

    def str_format(self, template, args, kw):
        ip = self.ip
        pieces, auto = [], 0
        try:
            parts = list(string.Formatter().parse(template))
        except ValueError:
            ip.raise_(ValueError)
        for text, field, spec, conv in parts:
            pieces.append(text)
            if field is None:
                continue
            head, rest = re.match(r"([^.\[]*)(.*)", field).groups()
            if head == "":
                head, auto = str(auto), auto + 1
            if "{" in spec or "[" in rest:
                return SOpaque("text", (ip.uid(),), "str")
            if head.isdigit():
                if int(head) >= len(args):
                    ip.raise_(IndexError)
                v = args[int(head)]
            else:
                if head not in kw:
                    ip.raise_(KeyError)
                v = kw[head]
            for n in rest.split(".")[1:]:
                v = ip.getattr_(v, n)
            pieces.extend(self.format_piece(v, ord(conv) if conv else -1, spec))
        return self.mk_str(pieces)

    def str_eq_const(self, v, c):
        """Condition under which SStr v equals the constant c (integers print canonically)."""

        def go(pieces, s):
            if not pieces:
                return s == ""
            p = pieces[0]
            if isinstance(p, str):
                return go(pieces[1:], s[len(p):]) if s.startswith(p) else False
            if p[0] != "int":
                raise Unsupported("comparison with opaque text")
            alts = []
            for n in range(1, len(s) + 1):
                t = s[:n]
                d = t[1:] if t.startswith("-") else t
                if not d.isdigit() or not d.isascii() or (len(d) > 1 and d[0] == "0") or t == "-0":
                    continue
                alts.append(land(eq(p[1], int(t)), go(pieces[1:], s[n:])))
            return lor(*alts)

        return go(list(v.pieces), c)

    def str_eq(self, a, b):
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, SStr) and isinstance(b, str):
            return T.simp(self.str_eq_const(a, b))
        if isinstance(b, SStr) and isinstance(a, str):
            return T.simp(self.str_eq_const(b, a))
        if isinstance(a, SStr) and isinstance(b, SStr):
            pa, pb = a.pieces, b.pieces
            sep = all(not (isinstance(x, tuple) and isinstance(y, tuple)) for x, y in zip(pa, pa[1:]))
            if len(pa) == len(pb) and sep:
                cs = []
                for i, (x, y) in enumerate(zip(pa, pb)):
                    if isinstance(x, str) and isinstance(y, str):
                        if x != y or (i + 1 < len(pa) and x[-1:].isdigit()) or x[:1].isdigit():
                            raise Unsupported("text comparison")
                        continue
                    if isinstance(x, str) or isinstance(y, str):
                        raise Unsupported("text comparison")
                    if x[0] == "int" and y[0] == "int":
                        cs.append(eq(x[1], y[1]))
                    else:
                        raise Unsupported("text comparison")
                return land(*cs)
        if isinstance(a, SOpaque) or isinstance(b, SOpaque):
            def sid(x):
                if isinstance(x, SOpaque):
                    return self.ip.opaque_id(x)
                if isinstance(x, str):
                    from .engine import intern_id

                    return intern_id(x)
                raise Unsupported("text comparison")

            return eq(sid(a), sid(b))
        raise Unsupported("text comparison")

    def is_str(self, v):
        return isinstance(v, (str, SStr, SText)) or isinstance(v, SOpaque) and v.typ in ("str", "json")

    def decode(self, v, args, kw):
        ip = self.ip
        enc = args[0] if args else kw.get("encoding", "utf-8")
        errors = args[1] if len(args) > 1 else kw.get("errors", "strict")
        b = self.as_bytes(v)
        if not isinstance(enc, str):
            raise Unsupported("encoding")
        import codecs

        encn = codecs.lookup(enc).name
        if isinstance(b.length, int) and isinstance(b.content, Const):
            try:
                return b.content.data[: b.length].ljust(b.length, b"\0").decode(enc, errors)
            except UnicodeDecodeError:
                ip.raise_(UnicodeDecodeError)
        if isinstance(b.length, int) and b.length == 0:
            return ""
        if encn != "utf-8":
            return SOpaque(f"decode-{encn}-{errors}", (ip.uid(),), "str")
        if errors == "strict":
            c = b.content
            if isinstance(c, View):
                ok = T.app(f"utf8:{c.buf}", c.args + (c.off, b.length), T.B)
            else:
                ok = ip.fresh("utf8", T.B)
            if not ip.branch(ok):
                ip.raise_(UnicodeDecodeError)
            return SText(b.content, b.length)
        if errors == "ignore":
            return SText(b.content, b.length)
        return SOpaque(f"decode-{errors}", (ip.uid(),), "str")

    # ------------------------------------------------------------ comparison
    def is_bytes(self, v):
        return isinstance(v, (bytes, SBytes)) or isinstance(v, Ref) and self.ip.kind(v) == "mem"

    def equal(self, a, b):
        """z3/bool for a == b"""
        ip = self.ip
        if ip.is_intlike(a) and ip.is_intlike(b):
            return eq(ip.as_int(a), ip.as_int(b))
        if self.is_str(a) and self.is_str(b):
            return self.str_eq(a, b)
        if self.is_bytes(a) and self.is_bytes(b):
            x, y = self.as_bytes(a), self.as_bytes(b)
            if isinstance(x.length, int) and isinstance(y.length, int) and x.length != y.length:
                return False
            n = x.length if isinstance(x.length, int) else y.length
            if not isinstance(n, int) or n > 64:
                raise Unsupported("comparison of byte strings")
            return land(eq(x.length, y.length), *[eq(x.content.at(i), y.content.at(i)) for i in range(n)])
        if isinstance(a, (STuple, tuple)) and isinstance(b, (STuple, tuple)):
            xs = a.items if isinstance(a, STuple) else a
            ys = b.items if isinstance(b, STuple) else b
            if len(xs) != len(ys):
                return False
            return land(*[self.equal(x, y) for x, y in zip(xs, ys)])
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.addr == b.addr:
                return True
            oa, ob = ip.obj(a), ip.obj(b)
            if oa.kind in ("struct", "file", "inst") and ob.kind in ("struct", "file", "inst"):
                if any(o.kind == "inst" and o.f["cls"].__eq__ is not object.__eq__ for o in (oa, ob)):
                    raise Unsupported("comparison of instances")
                return False
            if oa.kind == "list" and ob.kind == "list":
                sa, sb = oa.f["segs"], ob.f["segs"]
                if all(isinstance(x, Item) for x in sa + sb):
                    return len(sa) == len(sb) and land(*[self.equal(x.v, y.v) for x, y in zip(sa, sb)])
            raise Unsupported("comparison of objects")
        ta, tb = self.cat(a), self.cat(b)
        if ta is not None and tb is not None and ta != tb:
            return False
        if isinstance(a, type) or isinstance(b, type):
            if isinstance(a, SArrType) or isinstance(b, SArrType):
                raise Unsupported("type comparison")
            return a is b
        if not self.symbolic(a) and not self.symbolic(b):
            return bool(a == b)
        raise Unsupported(f"comparison {type(a).__name__} == {type(b).__name__}")

    def cat(self, v):
        ip = self.ip
        if v is None:
            return "none"
        if ip.is_intlike(v):
            return "num"
        if self.is_str(v):
            return "str"
        if self.is_bytes(v):
            return "bytes"
        if isinstance(v, (STuple, tuple)):
            return "tuple"
        if isinstance(v, type) or isinstance(v, SArrType):
            return "type"
        if isinstance(v, Ref):
            k = ip.kind(v)
            return k if k in ("list", "dict", "struct", "file", "inst") else None
        if isinstance(v, list):
            return "list"
        if isinstance(v, dict):
            return "dict"
        return None

    def symbolic(self, v):
        return isinstance(v, (SInt, SBool, SFloat, SStr, SText, SBytes, SOpaque, STuple, SRange, SSeq, SFunc, SBound, SSel, SExc, Ref, SArrType))

    def identical(self, a, b):
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, SBool) or isinstance(b, SBool):
                return self.equal(a, b) if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)) else False
            if isinstance(a, SOpaque) and a.typ == "optlist" and b is None:
                return self.ip.opaque_bool("isnone", [a])
            if isinstance(a, SOpaque) and a.typ not in ("str", "json"):
                raise Unsupported("identity of opaque value")
            return a is b
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.addr == b.addr:
                return True
            ka, kb = self.ip.kind(a), self.ip.kind(b)
            return False
        if isinstance(a, (type, types.FunctionType, types.ModuleType)) or isinstance(b, (type, types.FunctionType, types.ModuleType)):
            return a is b
        if self.cat(a) is not None and self.cat(b) is not None and self.cat(a) != self.cat(b):
            return False
        if not self.symbolic(a) and not self.symbolic(b) and isinstance(a, (list, dict)):
            return a is b
        raise Unsupported("identity test")

    def compare(self, op, a, b):
        ip = self.ip
        if isinstance(op, (ast.Is, ast.IsNot)):
            c = self.identical(a, b)
            return c if isinstance(op, ast.Is) else lnot(c)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            c = self.equal(a, b)
            return c if isinstance(op, ast.Eq) else lnot(c)
        if isinstance(op, (ast.In, ast.NotIn)):
            c = self.contains(b, a)
            return c if isinstance(op, ast.In) else lnot(c)
        if ip.is_intlike(a) and ip.is_intlike(b):
            x, y = ip.as_int(a), ip.as_int(b)
            if isinstance(op, ast.Lt):
                return lt(x, y)
            if isinstance(op, ast.LtE):
                return le(x, y)
            if isinstance(op, ast.Gt):
                return lt(y, x)
            return le(y, x)
        if isinstance(a, (STuple, tuple)) and isinstance(b, (STuple, tuple)):
            xs = list(a.items if isinstance(a, STuple) else a)
            ys = list(b.items if isinstance(b, STuple) else b)
            return self.lex(op, xs, ys)
        if not self.symbolic(a) and not self.symbolic(b):
            import operator

            f = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[type(op)]
            try:
                return bool(f(a, b))
            except TypeError:
                ip.raise_(TypeError)
        ca, cb = self.cat(a), self.cat(b)
        if ca and cb and ca != cb:
            ip.raise_(TypeError)
        raise Unsupported("ordering of values")

    def lex(self, op, xs, ys):
        strict = isinstance(op, (ast.Lt, ast.Gt))
        if isinstance(op, (ast.Gt, ast.GtE)):
            xs, ys = ys, xs
        if not xs or not ys:
            return (len(xs) < len(ys)) if strict else (len(xs) <= len(ys))
        ip = self.ip
        a, b = xs[0], ys[0]
        if not (ip.is_intlike(a) and ip.is_intlike(b)):
            raise Unsupported("ordering of tuples")
        a, b = ip.as_int(a), ip.as_int(b)
        return T.simp(zv(lor(lt(a, b), land(eq(a, b), self.lex(ast.Lt() if strict else ast.LtE(), xs[1:], ys[1:])))))

    def contains(self, coll, x):
        ip = self.ip
        if isinstance(coll, (dict, list, tuple, set, frozenset)) or type(coll).__name__ in ("dict_keys", "dict_values"):
            return lor(*[self.equal_or_false(x, STuple(k) if isinstance(k, tuple) else k) for k in coll])
        if isinstance(coll, STuple):
            return lor(*[self.equal_or_false(x, k) for k in coll.items])
        if isinstance(coll, Ref):
            o = ip.obj(coll)
            if o.kind == "dict" and o.f["base"] is None:
                return lor(*[self.equal_or_false(x, k) for k, _ in o.f["entries"]])
            if o.kind == "list" and all(isinstance(s, Item) for s in o.f["segs"]):
                return lor(*[self.equal_or_false(x, s.v) for s in o.f["segs"]])
            raise Unsupported("membership")
        if isinstance(coll, str) and isinstance(x, str):
            return x in coll
        if isinstance(coll, bytes) and isinstance(x, (bytes, int)):
            return x in coll
        if isinstance(coll, (range, SRange)) and ip.is_intlike(x):
            i = ip.as_int(x)
            if isinstance(coll, range) and coll.step == 1:
                return land(le(coll.start, i), lt(i, coll.stop))
            if isinstance(coll, SRange) and coll.step == 1:
                return land(le(coll.start, i), lt(i, add(coll.start, coll.n)))
        if isinstance(coll, SOpaque) and coll.typ == "str" and (isinstance(x, str)):
            return ip.opaque_bool("in", [x, coll])
        raise Unsupported("membership")

    def equal_or_false(self, x, k):
        return self.equal(x, k)

    # ------------------------------------------------------------ arithmetic
    def binop(self, op, a, b):
        ip = self.ip
        if ip.is_intlike(a) and ip.is_intlike(b):
            x, y = ip.as_int(a), ip.as_int(b)
            return self.int_op(op, x, y)
        if isinstance(a, T.SPtr) and isinstance(op, ast.Add) and ip.is_intlike(b):
            return T.SPtr(a.mem, add(a.off, ip.as_int(b)))
        if isinstance(op, ast.Mult):
            if isinstance(a, type) and issubclass(a, (ctypes._SimpleCData, ctypes.Structure)) and ip.is_intlike(b):
                n = ip.as_int(b)
                if isinstance(n, int):
                    if n < 0:
                        ip.raise_(ValueError)
                    return a * n
                if not ip.branch(le(0, n)):
                    ip.raise_(ValueError)
                return SArrType(a, n)
            if isinstance(b, (bytes, str)) and ip.is_intlike(a):
                a, b = b, a
            if isinstance(a, bytes) and ip.is_intlike(b):
                n = ip.as_int(b)
                if isinstance(n, int):
                    return a * n
                if a == b"\0":
                    return SBytes(Zero(), zmax(n, 0))
            if isinstance(a, str) and isinstance(b, int):
                return a * b
            if isinstance(a, Ref) and ip.kind(a) == "list" and isinstance(b, int) and b < 50:
                return ip.mk_segs(ip.get(a, "segs") * b)
        if isinstance(op, ast.Add):
            if self.is_bytes(a) and self.is_bytes(b):
                if isinstance(a, bytes) and isinstance(b, bytes):
                    return a + b
                x, y = self.as_bytes(a), self.as_bytes(b)
                if isinstance(y.length, int) and y.length == 0:
                    return SBytes(x.content, x.length)
                return SBytes(Cond(x.length, x.content, T.Moved(y.content, sub(0, x.length))), add(x.length, y.length))
            if self.is_str(a) and self.is_str(b):
                return self.mk_str(self.format_piece(a, -1, "") + self.format_piece(b, -1, ""))
            if isinstance(a, Ref) and ip.kind(a) == "list" or isinstance(b, Ref) and ip.kind(b) == "list":
                return ip.mk_segs(tuple(self.to_segs(a)) + tuple(self.to_segs(b)))
            if isinstance(a, (STuple, tuple)) and isinstance(b, (STuple, tuple)):
                return STuple(tuple(getattr(a, "items", a)) + tuple(getattr(b, "items", b)))
        if isinstance(op, ast.BitOr) and isinstance(a, Ref) and ip.kind(a) == "dict":
            d = self.f_dict([a], {})
            self.method(d, "update", [b], {})
            return d
        if isinstance(op, ast.Mod) and isinstance(a, str):
            return self.percent(a, b)
        if not self.symbolic(a) and not self.symbolic(b):
            import operator

            f = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv, ast.BitOr: operator.or_}.get(type(op))
            if f is not None and not isinstance(a, list):
                try:
                    return f(a, b)
                except TypeError:
                    ip.raise_(TypeError)
        ca, cb = self.cat(a), self.cat(b)
        if ca and cb and ca != cb and {ca, cb} <= {"num", "str", "bytes", "none"} and not isinstance(op, (ast.Mult, ast.Mod)):
            ip.raise_(TypeError)
        raise Unsupported(f"{type(op).__name__} of {type(a).__name__} and {type(b).__name__}")

    def int_op(self, op, x, y):
        ip = self.ip
        conc = isinstance(x, int) and isinstance(y, int)
        if isinstance(op, ast.Add):
            return mk_int(add(x, y))
        if isinstance(op, ast.Sub):
            return mk_int(sub(x, y))
        if isinstance(op, ast.Mult):
            return mk_int(mul(x, y))
        if isinstance(op, (ast.FloorDiv, ast.Mod, ast.Div)):
            if ip.branch(eq(y, 0)):
                ip.raise_(ZeroDivisionError)
            if conc:
                return x // y if isinstance(op, ast.FloorDiv) else x % y if isinstance(op, ast.Mod) else x / y
            if isinstance(op, ast.Div):
                raise Unsupported("true division")
            if isinstance(y, int) and y > 0 or not isinstance(y, int) and ip.branch(lt(0, y)):
                return mk_int(zv(x) / zv(y) if isinstance(op, ast.FloorDiv) else zv(x) % zv(y))
            u, w = zv(sub(0, x)), zv(sub(0, y))
            return mk_int(T.simp(u / w if isinstance(op, ast.FloorDiv) else -(u % w)))
        if isinstance(op, ast.Pow) and isinstance(y, int):
            if conc:
                return x ** y
            if 0 <= y <= 4:
                r = 1
                for _ in range(y):
                    r = mul(r, x) if isinstance(r, int) else r * zv(x)
                return mk_int(r)
        if isinstance(op, ast.LShift):
            if isinstance(y, int) and 0 <= y < 256:
                return mk_int(mul(x, 1 << y))
        if isinstance(op, ast.RShift):
            if conc and y >= 0:
                return x >> y
            if isinstance(y, int) and 0 <= y < 256:
                return mk_int(zv(x) / (1 << y))
        if isinstance(op, ast.Pow) and conc and 0 <= y < 300:
            return x ** y
        if isinstance(op, ast.BitAnd):
            if conc:
                return x & y
            if isinstance(x, int):
                x, y = y, x
            if isinstance(y, int):
                if y < 0:
                    m = ~y
                    return mk_int(sub(x, self.mask(x, m)))
                return mk_int(self.mask(x, y))
        if isinstance(op, ast.BitOr):
            if conc:
                return x | y
            if isinstance(x, int):
                x, y = y, x
            if isinstance(y, int) and y >= 0:
                return mk_int(add(sub(x, self.mask(x, y)), y))
            b = self.disjoint_or(x, y)
            if b is not None:
                return mk_int(b)
        if isinstance(op, ast.BitXor):
            if conc:
                return x ^ y
            if isinstance(x, int):
                x, y = y, x
            if isinstance(y, int) and y >= 0:
                return mk_int(sub(add(x, y), mul(2, self.mask(x, y))))
        raise Unsupported(f"integer {type(op).__name__}")

    def mask(self, x, m):
        """x & m for a constant m >= 0 and any x (two's complement), by div/mod."""
        out = 0
        i = 0
        while m >> i:
            if (m >> i) & 1:
                j = i
                while (m >> j) & 1:
                    j += 1
                part = (zv(x) / (1 << i)) % (1 << (j - i)) if i else zv(x) % (1 << j)
                out = add(out, mul(T.simp(part), 1 << i))
                i = j
            else:
                i += 1
        return out

    def disjoint_or(self, x, y):
        """x | y where one is a multiple of 2^n and the other lies in [0, 2^n)."""
        ip = self.ip
        for a, b in ((x, y), (y, x)):
            for n in (8, 16, 32, 24):
                c = land(eq(T.simp(zv(a) % (1 << n)), 0), le(0, b), lt(b, 1 << n))
                if c is True or (T.is_z(c) and not ip.feasible([lnot(c)])):
                    return add(a, b)
        return None

    # ------------------------------------------------------------ subscripts
    def norm_index(self, i, n):
        ip = self.ip
        if isinstance(i, int) and isinstance(n, int):
            if i < 0:
                i += n
            if not 0 <= i < n:
                ip.raise_(IndexError)
            return i
        if not ip.branch(le(0, i)):
            i = add(i, n)
            if not ip.branch(le(0, i)):
                ip.raise_(IndexError)
        if not ip.branch(lt(i, n)):
            ip.raise_(IndexError)
        return i

    def slice_bounds(self, s, n):
        """-> start, length (step 1)"""
        ip = self.ip
        if s.c is not None and s.c != 1:
            raise Unsupported("slice step")

        def norm(x, default):
            if x is None:
                return default
            if not ip.is_intlike(x):
                if isinstance(x, (float, SFloat, str, bytes, SBytes, SText, SStr)):
                    ip.raise_(TypeError)
                raise Unsupported("slice bound")
            x = ip.as_int(x)
            if not ip.branch(le(0, x)):
                return zmax(add(x, n), 0)
            return zmin(x, n)

        a = norm(s.a, 0)
        b = norm(s.b, n)
        return a, zmax(sub(b, a), 0)

    def getitem(self, v, i):
        ip = self.ip
        if isinstance(v, T.Poison):
            raise T.PoisonRead(v.loc)
        if isinstance(v, (SBytes,)) or isinstance(v, bytes) and self.symbolic(i) or isinstance(v, Ref) and ip.kind(v) == "mem":
            b = self.as_bytes(v)
            if isinstance(i, SSlice):
                a, n = self.slice_bounds(i, b.length)
                if isinstance(v, Ref):
                    return ip.alloc("mem", content=b.content.shift(a), size=n)
                return self.norm_bytes(SBytes(b.content.shift(a), n, b.kind))
            k = self.norm_index(ip.as_int(i), b.length)
            return mk_int(b.content.at(k))
        if isinstance(v, (bytes, str, list, tuple, range)) and isinstance(i, SSlice):
            parts = [i.a, i.b, i.c]
            if all(p is None or isinstance(p, int) for p in parts):
                r = v[slice(*parts)]
                return STuple(r) if isinstance(r, tuple) else ip.mk_list(r) if isinstance(r, list) else r
            raise Unsupported("symbolic slice of a constant")
        if isinstance(v, STuple):
            if isinstance(i, SSlice):
                parts = [i.a, i.b, i.c]
                if all(p is None or isinstance(p, int) for p in parts):
                    return STuple(v.items[slice(*parts)])
                raise Unsupported("symbolic slice")
            if isinstance(i, int):
                if -len(v.items) <= i < len(v.items):
                    return v.items[i]
                ip.raise_(IndexError)
            if not ip.is_intlike(i):
                ip.raise_(TypeError)
            return self.pick(v.items, self.norm_index(ip.as_int(i), len(v.items)))
        if isinstance(v, (list, tuple, str)) and isinstance(i, (SInt, SBool)):
            return self.pick(v, self.norm_index(ip.as_int(i), len(v)))
        if isinstance(v, (list, tuple)) and isinstance(i, (int,)):
            try:
                return v[i]
            except IndexError:
                ip.raise_(IndexError)
        if isinstance(v, dict):
            return self.native_dict_get(v, i, True, None)
        if isinstance(v, Ref):
            o = ip.obj(v)
            if o.kind == "list":
                segs = ip.get(v, "segs")
                if isinstance(i, SSlice):
                    return self.slice_list(v, i)
                if all(isinstance(s, Item) for s in segs) and isinstance(i, int):
                    if -len(segs) <= i < len(segs):
                        return segs[i].v
                    ip.raise_(IndexError)
                n, elem = self.random_access(v)
                return elem(self.norm_index(ip.as_int(i), n))
            if o.kind == "arr":
                n = o.f["length"]
                if isinstance(i, SSlice):
                    a, m = self.slice_bounds(i, n)
                    if o.f["elem"] is ctypes.c_char:
                        raise Unsupported("char array slice")
                    j = ip.alloc("list", segs=())
                    ip.loop_n(m, lambda k: ip.append(j, ip.arr_elem(v, add(a, k))))
                    return j
                return ip.arr_elem(v, self.norm_index(ip.as_int(i), n))
            if o.kind == "dict":
                return self.dict_get(v, i, True, None)
            if o.kind == "struct":
                ip.raise_(TypeError)
        if isinstance(v, str) and isinstance(i, int):
            try:
                return v[i]
            except IndexError:
                ip.raise_(IndexError)
        if isinstance(v, SSeq) or isinstance(v, SRange):
            n, elem = self.random_access(v)
            return elem(self.norm_index(ip.as_int(i), n))
        if isinstance(v, type) or hasattr(v, "__class_getitem__"):
            raise Unsupported("generic alias")
        if v is None:
            ip.raise_(TypeError)
        raise Unsupported(f"subscript of {type(v).__name__}")

    def slice_list(self, v, i):
        ip = self.ip
        segs = ip.get(v, "segs")
        parts = [i.a, i.b, i.c]
        if all(isinstance(s, Item) for s in segs) and all(p is None or isinstance(p, int) for p in parts):
            return ip.mk_segs(segs[slice(*parts)])
        n, elem = self.random_access(v)
        a, m = self.slice_bounds(i, n)
        out = ip.alloc("list", segs=())
        ip.loop_n(m, lambda k: ip.append(out, elem(add(a, k))))
        return out

    def native_dict_get(self, d, key, strict, default):
        ip = self.ip
        if not self.symbolic(key):
            try:
                hash(key)
            except TypeError:
                ip.raise_(TypeError)
            if key in d:
                return d[key]
            if strict:
                ip.raise_(KeyError)
            return default
        if isinstance(key, SOpaque) and d and all(isinstance(x, types.FunctionType) for x in d.values()):
            inside = lor(*[self.equal(key, k) for k in d])
            if ip.branch(inside):
                return SSel(d, key)
            if strict:
                ip.raise_(KeyError)
            return default
        for k, v in d.items():
            if ip.branch(self.equal(key, k)):
                return v
        if strict:
            ip.raise_(KeyError)
        return default

    def dict_get(self, ref, key, strict, default):
        ip = self.ip
        o = ip.obj(ref)
        for k, v in o.f["entries"]:
            if ip.branch(self.equal(key, k)):
                return v
        if o.f["base"] is not None:
            raise Unsupported("lookup in opaque dict")
        if strict:
            ip.raise_(KeyError)
        return default

    def setitem(self, v, i, val):
        from .engine import FrameViolation

        ip = self.ip
        if isinstance(v, Ref):
            o = ip.obj(v)
            if o.kind == "dict":
                entries = list(o.f["entries"])
                for j, (k, _) in enumerate(entries):
                    if ip.branch(self.equal(i, k)):
                        entries[j] = (k, val)
                        ip.put(v, "entries", tuple(entries))
                        return
                entries.append((i, val))
                ip.put(v, "entries", tuple(entries))
                return
            if o.kind == "list" and isinstance(i, int):
                segs = list(ip.get(v, "segs"))
                if all(isinstance(s, Item) for s in segs) and -len(segs) <= i < len(segs):
                    segs[i] = Item(val)
                    ip.put(v, "segs", tuple(segs))
                    return
            if o.kind == "mem" and isinstance(i, SSlice):
                b = self.as_bytes(val)
                n = o.f["size"]
                a, m = self.slice_bounds(i, n)
                if b is not None and not ip.feasible([lnot(eq(m, b.length))]):
                    old = ip.get(v, "content")
                    ip.put(v, "content", Cond(a, old, Cond(add(a, m), T.Moved(b.content, sub(0, a)), old)))
                    return
            raise Unsupported(f"item assignment to {o.kind}")
        if isinstance(v, (list, dict)):
            raise FrameViolation("writes a module level container")
        raise Unsupported("item assignment")

    # ------------------------------------------------------------ attributes
    def object_attr(self, ref, o, name):
        ip = self.ip
        kinds = {
            "list": list, "dict": dict, "file": io.BufferedReader, "mem": bytearray, "gen": types.GeneratorType,
        }
        if o.kind == "arr":
            if name == "_length_":
                return mk_int(o.f["length"])
            if name == "_type_":
                return o.f["elem"]
            if name == "_fields_" or name == "fields_limiters":
                ip.raise_(AttributeError)
            raise Unsupported(f"array attribute {name}")
        if o.kind in kinds:
            if o.kind == "file" and name in ("seek", "tell", "read", "readinto", "peek", "close", "read1", "readable", "seekable", "readline"):
                return SBound(ref, name)
            if hasattr(kinds[o.kind], name):
                return SBound(ref, name)
            ip.raise_(AttributeError)
        if o.kind in ("badfile", "argparser"):
            return SBound(ref, name)
        raise Unsupported(f"attribute {name} of {o.kind}")

    def value_attr(self, v, name):
        t = {SBytes: bytes, SStr: str, SText: str, SRange: range, STuple: tuple, SInt: int, SBool: bool, SFloat: float}.get(type(v))
        if isinstance(v, SOpaque):
            if v.typ == "str":
                t = str
            else:
                raise Unsupported("attribute of opaque value")
        if name == "nbytes" and isinstance(v, SBytes):
            return mk_int(v.length)
        if not hasattr(t, name):
            self.ip.raise_(AttributeError, name)
        return SBound(v, name)

    # ------------------------------------------------------------ methods
    def method(self, v, name, args, kw):
        ip = self.ip
        if isinstance(v, SArrType) or isinstance(v, type) and name in ("from_buffer", "from_buffer_copy"):
            return self.buffer_new(v, name, args, kw)
        if v is int and name == "from_bytes" or isinstance(v, type) and v is int:
            return self.int_from_bytes(args, kw)
        if isinstance(v, type) and v is dict and name == "fromkeys":
            raise Unsupported("dict.fromkeys")
        if isinstance(v, Manager):
            if v.kind == "stack" and name == "enter_context" and len(args) == 1:
                if isinstance(args[0], Manager) and args[0].kind == "generator":
                    raise Unsupported("generator in an exit stack")
                r = self.enter(args[0])
                ip.append(v.payload, args[0])
                return r
            raise Unsupported(f"method {name} of a context manager")
        if isinstance(v, Ref):
            k = ip.kind(v)
            if k in ("file", "badfile") and name not in ("close", "__exit__") and self.closed(v):
                ip.raise_(ValueError)
            m = getattr(self, f"m_{k}_{name}", None)
            if m is None:
                raise Unsupported(f"method {name} of {k}")
            return m(v, args, kw)
        if isinstance(v, (bytes, SBytes)):
            if isinstance(v, bytes) and all(not self.symbolic(a) for a in args):
                return self.native_method(v, name, args, kw)
            return self.bytes_method(v, name, args, kw)
        if isinstance(v, (str, SStr, SText, SOpaque)):
            if isinstance(v, str) and all(not self.symbolic(a) for a in args):
                return self.native_method(v, name, args, kw)
            return self.str_method(v, name, args, kw)
        if isinstance(v, (dict, list, tuple)):
            return self.native_container(v, name, args, kw)
        if isinstance(v, int) and name == "to_bytes" and not any(self.symbolic(a) for a in list(args) + list(kw.values())):
            return self.native_method(v, name, args, kw)
        if ip.is_intlike(v) and name == "to_bytes":
            return self.int_to_bytes(ip.as_int(v), args, kw)
        if ip.is_intlike(v) and name in ("__index__", "__int__", "conjugate") and not args:
            return mk_int(ip.as_int(v))
        if isinstance(v, STuple) and v.cls is not None and name == "_asdict":
            return ip.alloc("dict", entries=tuple(zip(v.cls._fields, v.items)), base=None)
        if isinstance(v, STuple) and name == "index":
            raise Unsupported("tuple.index")
        if isinstance(v, struct_mod.Struct):
            if name == "unpack_from":
                return self.f_unpack_from([v.format] + args, kw)
            if name == "unpack":
                return self.f_unpack([v.format] + args, kw)
        if name == "()partial":
            f, a, k = v.items
            return ip.call(f, list(a.items) + list(args), {**{x.items[0]: x.items[1] for x in k.items}, **kw})
        if name == "()star":
            return ip.call(v.items[0], list(ip.unpack(args[0])), kw)
        if v is sys.stdout and name == "write" and len(args) == 1 and not kw:
            self.emit_text(args[0])
            return SOpaque("text", (ip.uid(),), "str")  # the number of characters
        if v is sys.stdout and name == "flush":
            return None
        raise Unsupported(f"method {name} of {type(v).__name__}")

    def native_method(self, v, name, args, kw):
        try:
            r = getattr(v, name)(*args, **kw)
        except Exception as e:  # noqa
            self.ip.raise_(type(e))
        if isinstance(r, list):
            return self.ip.mk_list(r)
        if isinstance(r, tuple):
            return STuple(r)
        return r

    def native_container(self, v, name, args, kw):
        from .engine import FrameViolation

        ip = self.ip
        if name in ("append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault", "popitem", "sort", "reverse", "__setitem__"):
            if name == "pop" and False:
                pass
            raise FrameViolation(f"{name} on a module level container")
        if isinstance(v, dict):
            if name == "get":
                return self.native_dict_get(v, args[0], False, args[1] if len(args) > 1 else kw.get("default"))
            if name in ("keys", "values", "items"):
                return STuple([STuple(x) if isinstance(x, tuple) else x for x in getattr(v, name)()])
            if name == "copy":
                return ip.alloc("dict", entries=tuple(v.items()), base=None)
        if isinstance(v, list) and name == "copy":
            return ip.mk_list(v)
        if name in ("index", "count") and not any(self.symbolic(a) for a in args):
            return self.native_method(v, name, args, kw)
        raise Unsupported(f"method {name} of a constant {type(v).__name__}")

    def int_from_bytes(self, args, kw):
        ip = self.ip
        b = self.as_bytes(args[0] if args else kw["bytes"])
        order = args[1] if len(args) > 1 else kw.get("byteorder", "big")
        signed = kw.get("signed", False)
        if b is not None and not isinstance(b.length, int):
            for n in range(9):
                if ip.branch(eq(b.length, n)):
                    b = SBytes(b.content, n)
                    break
        if b is None or not isinstance(b.length, int) or b.length > 16 or not isinstance(order, str) or not isinstance(signed, bool):
            raise Unsupported("int.from_bytes")
        n = b.length
        if order == "little":
            return mk_int(T.decode_int(b.content, 0, n, signed))
        e = 0
        for j in range(n):
            e = add(mul(e, 256), b.content.at(j))
        if signed and n:
            e = ite(le(128, b.content.at(0)), sub(e, 1 << (8 * n)), e)
        return mk_int(e)

    def int_to_bytes(self, v, args, kw):
        ip = self.ip
        n = args[0] if args else kw.get("length", 1)
        order = args[1] if len(args) > 1 else kw.get("byteorder", "big")
        signed = kw.get("signed", False)
        if not isinstance(n, int) or not 0 <= n <= 16 or order not in ("big", "little") or not isinstance(signed, bool):
            raise Unsupported("int.to_bytes")
        low, high = (-(1 << (8 * n - 1)), 1 << (8 * n - 1)) if signed and n else (0, 1 << (8 * n))
        if not ip.branch(land(le(low, v), lt(v, high))):
            ip.raise_(OverflowError)
        byte = [T.simp(zv(v) / (1 << (8 * j)) % 256) for j in range(n)]
        return SBytes(T.Listed(byte if order == "little" else byte[::-1]), n)

    def bytes_method(self, v, name, args, kw):
        ip = self.ip
        b = self.as_bytes(v)
        if name == "decode":
            return self.decode(v, args, kw)
        if name in ("startswith", "endswith") and len(args) == 1 and isinstance(args[0], bytes):
            p = args[0]
            n = len(p)
            if name == "endswith":
                raise Unsupported("endswith")
            return mk_bool(land(le(n, b.length), *[eq(b.content.at(j), p[j]) for j in range(n)]))
        if name == "tobytes":
            return SBytes(b.content, b.length)
        if name in ("__len__",):
            return mk_int(b.length)
        if name in ("partition", "split") and len(args) >= 1 and args[0] == b"\0":
            # content up to the first NUL (only the head is modelled)
            raise Unsupported("bytes.split")
        if name in ("release", "__enter__", "__exit__"):
            return None
        if name == "ljust" and 1 <= len(args) <= 2 and isinstance(v, (bytes, SBytes)) and b.kind == "bytes" and (len(args) == 1 or isinstance(args[1], bytes)):
            fill = args[1] if len(args) > 1 else b" "
            if len(fill) != 1:
                ip.raise_(TypeError)
            w = ip.as_int(args[0])
            rest = Zero() if fill == b"\0" else T.Listed((), fill[0])
            return SBytes(Cond(b.length, b.content, rest), zmax(b.length, w))
        if name == "join" and len(args) == 1:
            items = ip.unpack(args[0])
            if not all(self.is_bytes(x) for x in items):
                raise Unsupported("bytes.join")
            out = b""
            for k, x in enumerate(items):
                for y in ([v, x] if k else [x]):
                    out = self.binop(ast.Add(), out, y)
            return out
        if name == "cast":
            raise Unsupported("memoryview.cast")
        if name in ("hex",):
            return SOpaque("text", (ip.uid(),), "str")
        raise Unsupported(f"bytes.{name}")

    def str_method(self, v, name, args, kw):
        ip = self.ip
        if isinstance(v, SStr) and name in ("split", "partition", "rpartition", "rsplit") and args == ["."]:
            if all(isinstance(p, str) or p[0] == "int" for p in v.pieces):
                parts = [[]]
                for p in v.pieces:
                    if isinstance(p, str):
                        bits = p.split(".")
                        parts[-1].append(bits[0])
                        for b in bits[1:]:
                            parts.append([b])
                    else:
                        parts[-1].append(p)
                strs = [self.mk_str([x for x in p if x != ""]) for p in parts]
                if name in ("split", "rsplit"):
                    return ip.mk_list(strs)
                if len(strs) == 2:
                    return STuple((strs[0], ".", strs[1]))
        if name == "format" and isinstance(v, str):
            return self.str_format(v, args, kw)
        if name == "join" and isinstance(v, str) and len(args) == 1:
            items = ip.unpack(args[0])
            if all(isinstance(x, (str, SStr)) for x in items):
                pieces = []
                for i, x in enumerate(items):
                    pieces += ([v] if i else []) + (list(x.pieces) if isinstance(x, SStr) else [x])
                return self.mk_str(pieces)
        if name in ("encode",) and isinstance(v, SText):
            raise Unsupported("str.encode")
        if isinstance(v, SOpaque) and v.typ == "str" and name in ("endswith", "startswith", "isdigit") and all(isinstance(a, (str, STuple, tuple)) for a in args):
            return SBool(ip.opaque_bool(name, [v] + [STuple(a) if isinstance(a, tuple) else a for a in args]))
        if isinstance(v, SOpaque) and v.typ == "str" and name in ("lower", "upper", "strip", "rstrip", "lstrip", "casefold", "removesuffix", "removeprefix"):
            return SOpaque("." + name, [v] + args, "str")
        raise Unsupported(f"str.{name}")

    # ---- list
    def m_list_append(self, v, args, kw):
        self.ip.append(v, args[0])

    def m_list_extend(self, v, args, kw):
        ip = self.ip
        src = args[0]
        s = ip.seq_of(src)
        if s[0] == "segs":
            ip.put(v, "segs", ip.get(v, "segs") + tuple(s[1]))
        elif s[0] == "gen" and ip.get(s[1], "end") is None and not ip.get(s[1], "files") and not ip.get(s[1], "used"):
            ip.put(s[1], "used", True)
            ip.unchanged(ip.get(s[1], "snap"))
            ip.put(v, "segs", ip.get(v, "segs") + tuple(ip.get(s[1], "segs")))
        else:
            ip.iterate(src, lambda x: ip.append(v, x))

    def items_of(self, v):
        segs = self.ip.get(v, "segs")
        if not all(isinstance(x, Item) for x in segs):
            raise Unsupported("change inside a list of symbolic length")
        return list(segs)

    def m_list_insert(self, v, args, kw):
        ip = self.ip
        if isinstance(args[0], int) and args[0] == 0:
            ip.put(v, "segs", (Item(args[1]),) + tuple(ip.get(v, "segs")))
            return
        segs = self.items_of(v)
        if not isinstance(args[0], int):
            raise Unsupported("symbolic index")
        segs.insert(args[0], Item(args[1]))
        ip.put(v, "segs", tuple(segs))

    def m_list_pop(self, v, args, kw):
        ip = self.ip
        i = args[0] if args else -1
        segs = tuple(ip.get(v, "segs"))
        if not segs:
            ip.raise_(IndexError)
        if i in (0, -1) and isinstance(i, int) and isinstance(segs[i], Item):
            ip.put(v, "segs", segs[1:] if i == 0 else segs[:-1])
            return segs[i].v
        items = self.items_of(v)
        if not isinstance(i, int):
            raise Unsupported("symbolic index")
        if not -len(items) <= i < len(items):
            ip.raise_(IndexError)
        x = items.pop(i)
        ip.put(v, "segs", tuple(items))
        return x.v

    def m_list_clear(self, v, args, kw):
        self.ip.put(v, "segs", ())

    def m_list_reverse(self, v, args, kw):
        self.ip.put(v, "segs", tuple(reversed(self.items_of(v))))

    def m_list_count(self, v, args, kw):
        n = 0
        for x in self.items_of(v):
            n = add(n, ite(zv(self.equal(x.v, args[0])), zv(1), zv(0)))
        return mk_int(n)

    def m_list_index(self, v, args, kw):
        if len(args) != 1:
            raise Unsupported("list.index")
        for k, x in enumerate(self.items_of(v)):
            if self.ip.branch(self.equal(x.v, args[0])):
                return k
        self.ip.raise_(ValueError)

    def m_dict_pop(self, v, args, kw):
        ip = self.ip
        o = ip.obj(v)
        for k, x in o.f["entries"]:
            if ip.branch(self.equal(args[0], k)):
                ip.put(v, "entries", tuple(e for e in o.f["entries"] if e[0] is not k))
                return x
        if o.f["base"] is not None:
            raise Unsupported("opaque dict")
        if len(args) > 1:
            return args[1]
        ip.raise_(KeyError)

    def m_dict_clear(self, v, args, kw):
        self.ip.put(v, "entries", ())
        self.ip.put(v, "base", None)

    def m_list_copy(self, v, args, kw):
        return self.ip.mk_segs(self.ip.get(v, "segs"))

    def m_list___len__(self, v, args, kw):
        return self.f_len([v], {})

    # ---- dict
    def m_dict_get(self, v, args, kw):
        return self.dict_get(v, args[0], False, args[1] if len(args) > 1 else None)

    def m_dict_update(self, v, args, kw):
        for a in args:
            if isinstance(a, dict):
                for k, x in a.items():
                    self.setitem(v, k, x)
            elif isinstance(a, Ref) and self.ip.kind(a) == "dict":
                o = self.ip.obj(a)
                if o.f["base"] is not None:
                    if self.ip.obj(v).f["entries"] or self.ip.obj(v).f["base"] is not None:
                        raise Unsupported("merge of opaque dict")
                    self.ip.put(v, "base", o.f["base"])
                for k, x in o.f["entries"]:
                    self.setitem(v, k, x)
            else:
                for x in self.ip.unpack(a):
                    p = self.ip.unpack(x)
                    if len(p) != 2:
                        self.ip.raise_(ValueError)
                    self.setitem(v, p[0], p[1])
        for k, x in kw.items():
            self.setitem(v, k, x)

    def m_dict_items(self, v, args, kw):
        o = self.ip.obj(v)
        if o.f["base"] is not None:
            raise Unsupported("opaque dict")
        return STuple([STuple(e) for e in o.f["entries"]])

    def m_dict_keys(self, v, args, kw):
        o = self.ip.obj(v)
        if o.f["base"] is not None:
            raise Unsupported("opaque dict")
        return STuple([e[0] for e in o.f["entries"]])

    def m_dict_values(self, v, args, kw):
        o = self.ip.obj(v)
        if o.f["base"] is not None:
            raise Unsupported("opaque dict")
        return STuple([e[1] for e in o.f["entries"]])

    def m_dict_setdefault(self, v, args, kw):
        ip = self.ip
        for k, x in ip.obj(v).f["entries"]:
            if ip.branch(self.equal(args[0], k)):
                return x
        if ip.obj(v).f["base"] is not None:
            raise Unsupported("opaque dict")
        d = args[1] if len(args) > 1 else None
        self.setitem(v, args[0], d)
        return d

    def m_dict_copy(self, v, args, kw):
        o = self.ip.obj(v)
        return self.ip.alloc("dict", entries=o.f["entries"], base=o.f["base"])

    # ---- bytearray
    def m_mem_decode(self, v, args, kw):
        return self.decode(v, args, kw)

    def m_mem_startswith(self, v, args, kw):
        return self.bytes_method(self.as_bytes(v), "startswith", args, kw)

    # ---- files
    def m_file_read(self, v, args, kw):
        ip = self.ip
        size = args[0] if args else kw.get("size", -1)
        avail = self.file_avail(v)
        pos = ip.get(v, "pos")
        if size is None:
            n = avail
        else:
            s = ip.as_int(size)
            if ip.branch(lt(s, 0)):
                n = avail
            else:
                n = zmin(s, avail)
        c = ip.get(v, "content").shift(pos)
        ip.put(v, "pos", add(pos, n))
        return self.norm_bytes(SBytes(c, n))

    m_file_read1 = None

    def m_file_readinto(self, v, args, kw):
        ip = self.ip
        t = args[0]
        if not isinstance(t, Ref):
            if isinstance(t, (bytes, SBytes)):
                ip.raise_(TypeError)
            raise Unsupported("readinto target")
        mem, off, size = self.extent(t)
        pos = ip.get(v, "pos")
        n = zmin(size, self.file_avail(v))
        self.store(mem, off, n, ip.get(v, "content").shift(pos), size)
        ip.put(v, "pos", add(pos, n))
        return mk_int(n)

    def m_file_getvalue(self, v, args, kw):
        if not self.ip.obj(v).f.get("memory"):
            raise Unsupported("attribute getvalue of a file")
        return self.norm_bytes(SBytes(self.ip.get(v, "content"), self.ip.get(v, "n")))

    def m_file_peek(self, v, args, kw):
        """At least one byte unless at the end; how many is the reader's choice (at least 2 assumed if there)."""
        ip = self.ip
        avail = self.file_avail(v)
        n = ip.fresh("peek")
        ip.assume(z3.And(n >= zv(zmin(avail, 2)), n <= zv(avail)))
        ip.assumptions.add("peek() on a regular file returns at least two bytes when the file has them")
        return SBytes(ip.get(v, "content").shift(ip.get(v, "pos")), n)

    def m_file_seek(self, v, args, kw):
        ip = self.ip
        off = ip.as_int(args[0])
        whence = args[1] if len(args) > 1 else kw.get("whence", 0)
        if whence == 0:
            p = off
        elif whence == 1:
            p = add(ip.get(v, "pos"), off)
        elif whence == 2:
            p = add(ip.get(v, "n"), off)
        else:
            raise Unsupported("seek")
        if not ip.branch(le(0, p)):
            raise Unsupported("negative seek")
        ip.put(v, "pos", p)
        return mk_int(p)

    def m_file_tell(self, v, args, kw):
        return mk_int(self.ip.get(v, "pos"))

    def m_file_close(self, v, args, kw):
        self.ip.put(v, "closed", True)
        return None

    def m_file_readable(self, v, args, kw):
        return True

    def m_file_seekable(self, v, args, kw):
        return True

    def bad(self, v, args, kw):
        self.ip.raise_(self.ip.get(v, "exc"))

    m_badfile_read = m_badfile_readinto = m_badfile_peek = m_badfile_seek = bad

    def m_badfile_close(self, v, args, kw):
        self.ip.put(v, "closed", True)
        return None

    # ---- generators
    def m_gen_close(self, v, args, kw):
        return None

    def m_gen___next__(self, v, args, kw):
        return self.f_next([v], {})

    def m_iter___next__(self, v, args, kw):
        return self.f_next([v], {})


def lambda_star(ip, f):
    return SBound(STuple((f,)), "()star")

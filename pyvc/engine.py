"""Path-wise symbolic execution of Python functions with loop summarisation.

The functions are parsed from their source files on every run; nothing is translated by hand.
"""
from __future__ import annotations

import ast
import builtins
import contextlib
import ctypes
import functools
import inspect
import itertools
import logging
import sys
import types

import z3

from . import terms as T
from .terms import (Cond, Const, FArr, FDict, FFile, FInst, FList, FMem, FRef, FStruct, Forall, Item, Map, Pre, Poison,
                    PoisonContent, PoisonRead, Rec, Ref, SBool, SBound, SBytes, SExc, SFloat, SFunc, SInt, SOpaque,
                    SRange, SSel, SSeq, SSlice, SStr, STuple, SText, Unsupported, View, Zero, add, eq, ite, land, le,
                    lnot, lor, lt, mk_bool, mk_int, mul, sub, zmax, zmin, zv)

UNROLL = 4          # symbolic sequences of at most this constant length are unrolled
NATIVE_UNROLL = 400  # constant Python sequences are unrolled up to this length


class PyRaise(Exception):
    def __init__(self, exc):
        super().__init__(exc.cls.__name__)
        self.exc = exc


class ReturnEx(Exception):
    def __init__(self, value):
        super().__init__()
        self.value = value


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class WhileExit(Exception):
    pass


class OuterExit(Exception):
    """The body of a `for` over a generator, run where the generator yields, leaves the loop: (kind, value)."""

    def __init__(self, kind, value=None):
        super().__init__()
        self.kind, self.value = kind, value


class Infeasible(Exception):
    pass


class HObj:
    """Immutable heap object: kind and fields; updates make new objects."""

    __slots__ = ("kind", "_f", "copy")

    def __init__(self, kind, f, copy=False):
        self.kind, self._f, self.copy = kind, f, copy  # copy: image of an element of a symbolic list

    @property
    def f(self):
        if LOGS:
            LOGS[-1].objects[id(self)] = self
        return self._f

    def __repr__(self):
        return f"<{self.kind} {self.f}>"


LOGS = []  # what is read while an iterator is evaluated ahead of its consumption, innermost last


class Log:
    def __init__(self):
        self.objects, self.names = {}, {}


class Snap:
    """What an iterator read when it was evaluated: it must still be so when it is consumed."""

    def __init__(self, objects, names):
        self.objects, self.names = objects, names

    def same(self, other):
        return (self.objects.keys() == other.objects.keys() and self.names.keys() == other.names.keys()
                and all(o is other.objects[a] or o.kind == other.objects[a].kind and o._f.keys() == other.objects[a]._f.keys()
                        and all(T.same_value(v, other.objects[a]._f[x]) for x, v in o._f.items()) for a, o in self.objects.items())
                and all(T.same_value(v, other.names[loc]) for loc, v in self.names.items()))


class State:
    def __init__(self):
        self.heap, self.pc, self.facts, self.recs, self.next = {}, [], [], [], 1

    def copy(self):
        s = State()
        s.heap, s.pc, s.facts, s.recs, s.next = dict(self.heap), list(self.pc), list(self.facts), list(self.recs), self.next
        return s


class Outcome:
    def __init__(self, state, kind, value, log):
        self.state, self.kind, self.value, self.log = state, kind, value, log

    def __repr__(self):
        return f"Outcome({self.kind},{self.value})"


@contextlib.contextmanager
def _manager():
    yield


# These may remember what they computed in attributes of the header; C02 decides what such attributes may hold.
VERSION_PROPERTIES = ("semantic_version", "major_version", "minor_version")
CONTEXTMANAGER = _manager.__code__


class Ctx:
    """Execution context of one function activation."""

    def __init__(self, frame, globs, parent=None, yields=None, localnames=(), fname="?"):
        self.frame, self.globs, self.parent, self.yields, self.localnames, self.fname = frame, globs, parent, yields, localnames, fname
        self.nonlocals = set()
        self.exc = None


class Decisions:
    def __init__(self, prefix, work):
        self.prefix, self.work, self.log = prefix, work, []


_SRC = {}


def module_tree(filename):
    """AST of a source file, parsed from the file as it is now."""
    if filename not in _SRC:
        with open(filename, encoding="utf-8") as f:
            _SRC[filename] = ast.parse(f.read(), filename)
    return _SRC[filename]


_NODES = {}


def function_node(fn):
    code = fn.__code__
    key = (code.co_filename, code.co_firstlineno, code.co_name)
    if key not in _NODES:
        _NODES[key] = find_node(fn, code)
    return _NODES[key]


def find_node(fn, code):
    tree = module_tree(code.co_filename)
    best = None
    for node in ast.walk(tree):
        if isinstance(node, (ast.FunctionDef, ast.Lambda)):
            first = min([node.lineno] + [d.lineno for d in getattr(node, "decorator_list", [])])
            name = getattr(node, "name", "<lambda>")
            if name == code.co_name and code.co_firstlineno in (first, node.lineno):
                if best is not None and name == "<lambda>":
                    raise Unsupported("ambiguous lambda")
                best = node
    if best is None:
        raise Unsupported(f"source of {fn} not found")
    return best


def own_nodes(node):
    """Nodes of a function body without nested function bodies."""
    body = node.body if isinstance(node.body, list) else [node.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


def is_generator(node):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(node))


def local_names(node):
    names = set()
    for n in own_nodes(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            names.add(n.name)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            names.update((a.asname or a.name).split(".")[0] for a in n.names)
    return names


UNBOUND = object()
_INTERN = {}


def intern_id(s):
    return _INTERN.setdefault(s, len(_INTERN) + 1)


class Interp:
    def __init__(self, side, prover, contracts=None, trusted_modules=(), inline_prefixes=()):
        self.side = side
        self.prover = prover
        self.contracts = contracts or {}
        self.st = State()
        self.loopvars = []
        self.dec = None
        self.ctxkey = ()
        self.memo = {}
        self.seq = 0
        self.ids = {}
        self.depth = 0
        self.inline_prefixes = tuple(inline_prefixes)
        self.inlined = set()
        self.assumptions = set()
        self.exact = True  # False once something over-approximates
        self.callees = set()
        self.exc_stack = []
        self.in_version = 0
        self.field_min = {}  # precondition on the input: lower bound of integer fields of that name
        from . import models

        self.models = models.Models(self)

    # ------------------------------------------------------------ heap
    def alloc(self, kind, /, **f):
        a = self.st.next
        self.st.next += 1
        self.st.heap[a] = HObj(kind, f)
        return Ref(a)

    def obj(self, ref):
        return self.st.heap[ref.addr]

    def kind(self, v):
        return self.st.heap[v.addr].kind if isinstance(v, Ref) else None

    def get(self, ref, field):
        v = self.st.heap[ref.addr].f[field]
        if isinstance(v, Poison):
            raise PoisonRead(v.loc)
        return v

    def put(self, ref, field, val):
        o = self.st.heap[ref.addr]
        if o.copy:
            raise Unsupported("store into an element of a symbolic list")
        f = dict(o._f)
        f[field] = val
        self.st.heap[ref.addr] = HObj(o.kind, f)

    def mk_list(self, values=()):
        return self.alloc("list", segs=tuple(Item(v) for v in values))

    def mk_segs(self, segs):
        return self.alloc("list", segs=tuple(segs))

    def mk_struct(self, cls, content, attrs=None):
        mem = self.alloc("mem", content=content, size=ctypes.sizeof(cls))
        return self.alloc("struct", cls=cls, mem=mem, off=0)

    # ------------------------------------------------------------ fresh symbols
    def uid(self):
        key = (self.ctxkey, tuple(self.dec.log) if self.dec else (), self.seq)
        self.seq += 1
        return self.ids.setdefault(key, len(self.ids))

    def fresh(self, name, sort=T.I, kind=None, index=False):
        n = f"{'ix!' if index else ''}{self.side}!{name}!{self.uid()}"
        return T.app(n, list(self.loopvars), sort, kind)

    # ------------------------------------------------------------ decisions
    def assume(self, c):
        c = T.simp(c) if T.is_z(c) else c
        if c is True:
            return
        if c is False:
            raise Infeasible()
        self.st.pc.append(c)

    def feasible(self, conds, facts=()):
        r, _ = self.prover.check(self.st.pc + [c for c in conds if c is not True], list(self.st.facts) + list(facts), timeout=3000, spell=False)
        return r != "unsat"

    def decide(self, options):
        """options: list of (conds list, facts list).  Pick one (exploring all feasible ones)."""
        d = self.dec
        i = len(d.log)
        if i < len(d.prefix):
            pick = d.prefix[i]
        else:
            live = []
            for j, (conds, facts) in enumerate(options):
                if any(c is False for c in conds):
                    continue
                live.append(j)
            if len(live) > 1 or (live and any(c is not True for c in options[live[0]][0])):
                live = [j for j in live if self.feasible(options[j][0], options[j][1])]
            if not live:
                raise Infeasible()
            pick = live[0]
            for j in live[1:]:
                d.work.append(d.log + [j])
        d.log.append(pick)
        conds, facts = options[pick]
        for c in conds:
            if c is not True:
                self.st.pc.append(c)
        self.st.facts.extend(facts)
        return pick

    def branch(self, c):
        """Truth of a z3 condition on this path."""
        if T.is_z(c):
            c = T.simp(c)
        if c is True or c is False:
            return c
        return self.decide([([c], []), ([lnot(c)], [])]) == 0

    def explore(self, thunk):
        key = (self.ctxkey, tuple(self.dec.log) if self.dec else (), self.seq)
        self.seq += 1
        if key in self.memo:
            return self.memo[key]
        base, dec, ctxkey, seq = self.st, self.dec, self.ctxkey, self.seq
        exc_stack = list(self.exc_stack)
        self.ctxkey = key
        results, work = [], [[]]
        try:
            while work:
                if len(results) > 400:
                    raise Unsupported("too many paths")
                prefix = work.pop()
                self.st = base.copy()
                self.dec = Decisions(prefix, work)
                self.seq = 0
                self.exc_stack = list(exc_stack)
                try:
                    kind, val = "normal", thunk()
                except ReturnEx as e:
                    kind, val = "return", e.value
                except PyRaise as e:
                    kind, val = "raise", e.exc
                except BreakEx:
                    kind, val = "break", None
                except ContinueEx:
                    kind, val = "normal", None
                except WhileExit:
                    kind, val = "whileexit", None
                except OuterExit as e:
                    kind, val = ("outer", e.kind), e.value
                except Infeasible:
                    continue
                results.append(Outcome(self.st, kind, val, list(self.dec.log)))
        finally:
            self.st, self.dec, self.ctxkey, self.seq = base, dec, ctxkey, seq
            self.exc_stack = exc_stack
        self.memo[key] = results
        return results

    # ------------------------------------------------------------ loops
    def flatten(self, v):
        """Split a value into a skeleton and integer leaves (for loop-carried structured values)."""
        leaves = []

        def go(v):
            if isinstance(v, bool):
                return ("const", v)
            if isinstance(v, int):
                leaves.append(v)
                return ("int",)
            if isinstance(v, SInt):
                leaves.append(v.e)
                return ("int",)
            if isinstance(v, STuple):
                return ("tuple", tuple(go(x) for x in v.items), v.cls)
            if isinstance(v, SBytes):
                c = v.content
                if isinstance(c, View):
                    leaves.append(c.off)
                    leaves.append(v.length)
                    return ("bytes", v.kind, c.buf, tuple(str(a) for a in c.args), c.args)
                raise Unsupported("loop-carried bytes")
            if isinstance(v, Ref):
                return ("ref", v.addr)
            if v is None or isinstance(v, (str, bytes, type)):
                return ("const", v)
            raise Unsupported(f"loop-carried value {type(v).__name__}")

        sk = go(v)
        return sk, leaves

    def unflatten(self, sk, leaves):
        it = iter(leaves)

        def go(sk):
            if sk[0] == "int":
                return mk_int(next(it))
            if sk[0] == "tuple":
                return STuple([go(x) for x in sk[1]], sk[2])
            if sk[0] == "bytes":
                off = next(it)
                return SBytes(View(sk[2], sk[4], off), next(it), sk[1])
            if sk[0] == "ref":
                return Ref(sk[1])
            return sk[1]

        return go(sk)

    @staticmethod
    def same_skel(a, b):
        if a[0] == "bytes" and b[0] == "bytes":
            return a[1:4] == b[1:4]
        if a[0] == "tuple" and b[0] == "tuple":
            return len(a[1]) == len(b[1]) and all(Interp.same_skel(x, y) for x, y in zip(a[1], b[1]))
        return a == b

    def changed(self, h0, h1):
        """Locations of h0 whose value differs in h1."""
        out = {}
        for a, o in h0.items():
            p = h1.get(a)
            if p is o:
                continue
            for k, v in p._f.items():
                w = o._f.get(k, UNBOUND)
                if v is w or (isinstance(v, Ref) and isinstance(w, Ref) and v.addr == w.addr):
                    continue
                if type(v) is type(w) and isinstance(v, (int, str, bytes)) and v == w:
                    continue
                if isinstance(v, SInt) and isinstance(w, SInt) and v.e.eq(w.e):
                    continue
                if T.same_value(v, w):
                    continue
                out[(a, k)] = (w, v)
        return out

    def loop_n(self, n, body):
        """Execute body(0), ..., body(n-1); n int, z3 term or None (until an exit)."""
        if isinstance(n, int) and n <= UNROLL:
            for i in range(n):
                try:
                    body(i)
                except ContinueEx:
                    pass
            return
        if n is not None and not isinstance(n, int):
            n = T.simp(n)
        base = self.st
        lid = self.uid()
        k = z3.Int(f"ix!{self.side}!k{lid}")
        modes = {}  # loc -> dict(mode=..., ...)
        outer = list(self.loopvars)

        def generic(t, inv=None):
            """Put the loop-carried values for iteration t into the current state."""
            for (a, fld), m in modes.items():
                ref = Ref(a)
                if m["mode"] == "poison":
                    v = PoisonContent((a, fld)) if m.get("content") else Poison((a, fld))
                elif m["mode"] == "list":
                    per = m.get("per")
                    v = (Pre((a, fld), None if per is None else add(m["len0"], mul(per, t))),)
                elif m["mode"] == "shape":
                    leaves = []
                    for i, leaf0 in enumerate(m["leaves0"]):
                        c = m["lin"].get(i)
                        if c is not None:
                            leaves.append(add(leaf0, mul(c, t)))
                        else:
                            leaf = T.app(m["names"][i], outer + [t])
                            leaves.append(leaf)
                            if i in m["ge0"] and inv is not None:
                                inv.append(leaf >= 0)
                    v = self.unflatten(m["skel"], leaves)
                    if m.get("raw"):
                        v = v.e if isinstance(v, SInt) else v
                elif m["mode"] == "bool":
                    v = SBool(T.app(m["names"][0], outer + [t], T.B))
                self.put(ref, fld, v)

        def iteration():
            self.loopvars = outer + [k]
            try:
                self.assume(le(0, k))
                if n is not None:
                    self.assume(lt(k, n))
                inv = []
                generic(k, inv)
                for c in inv:
                    self.assume(c)
                body(k)
            finally:
                self.loopvars = outer

        def newmode(loc, v0, v1):
            a, fld = loc
            o = base.heap[a]
            if o.kind == "list" and fld == "segs":
                return {"mode": "list", "v0": v0}
            if o.kind == "mem" and fld == "content":
                return {"mode": "poison", "content": True}
            if v0 is UNBOUND:
                return {"mode": "poison"}
            raw = isinstance(v0, z3.ExprRef) or (o.kind in ("file", "iter") and isinstance(v0, int))
            b0 = SInt(v0) if isinstance(v0, z3.ExprRef) else v0
            b1 = SInt(v1) if isinstance(v1, z3.ExprRef) else v1
            if isinstance(b0, (bool, SBool)) and isinstance(b1, (bool, SBool)):
                return {"mode": "bool", "names": [f"{self.side}!b{lid}!{a}!{fld}"], "v0": b0}
            try:
                s0, l0 = self.flatten(b0)
                s1, _ = self.flatten(b1)
            except Unsupported:
                return {"mode": "poison"}
            if not self.same_skel(s0, s1) or not l0:
                return {"mode": "poison"}
            ge0 = {i for i, x in enumerate(l0) if le(0, x) is True or not self.feasible([lt(x, 0)])}
            return {"mode": "shape", "skel": s0, "leaves0": l0, "lin": {}, "raw": raw, "ge0": ge0,
                    "names": [f"{self.side}!v{lid}!{a}!{fld}!{i}" for i in range(len(l0))]}

        for _ in range(40):
            try:
                outs = self.explore(iteration)
            except PoisonRead as p:
                m = modes.get(p.loc)
                if isinstance(p, T.PreLength) and m is not None and m["mode"] == "list" and "per" not in m:
                    m["per"], m["len0"] = 1, self.list_len(m["v0"])  # a guess, checked below
                    continue
                if m is None or m["mode"] != "poison":
                    raise
                raise Unsupported(f"value carried around the loop in {base.heap[p.loc[0]].kind} '{p.loc[1]}' has no common shape") from None
            normal = [o for o in outs if o.kind == "normal"]
            new = {}
            relin = False
            ghost = self.generic_heap(base, modes, generic, k)
            for o in normal:
                for loc, (v0, v1) in self.changed(ghost, o.state.heap).items():
                    if loc not in modes:
                        new.setdefault(loc, []).append(v1)
                    elif modes[loc]["mode"] == "shape":
                        pass
            if new:
                for loc, v1s in new.items():
                    v0 = base.heap[loc[0]]._f.get(loc[1], UNBOUND)
                    ms = [newmode(loc, v0, v1) for v1 in v1s]
                    m = ms[0]
                    if any(x["mode"] != m["mode"] for x in ms):
                        m = {"mode": "poison"}
                    modes[loc] = m
                continue
            # closed forms for constant steps
            again = False
            for loc, m in modes.items():
                if m["mode"] == "list" and m.get("per") is not None:
                    lens = {self.list_len(o.state.heap[loc[0]]._f["segs"][1:]) for o in normal}
                    if len(lens) > 1 or not all(isinstance(x, int) for x in lens) or (lens and m.get("guessed")  and lens != {m["per"]}):
                        raise Unsupported("a list grows by a varying number of elements in a loop which reads its length")
                    if lens and lens != {m["per"]}:
                        m["per"], m["guessed"] = lens.pop(), True
                        again = True
            if again:
                continue
            for loc, m in modes.items():
                if m["mode"] != "shape":
                    continue
                ends = []
                for o in normal:
                    v1 = o.state.heap[loc[0]].f[loc[1]]
                    v1 = SInt(v1) if isinstance(v1, z3.ExprRef) else v1
                    try:
                        sk, lv = self.flatten(v1)
                    except Unsupported:
                        sk = None
                    if sk is None or not self.same_skel(m["skel"], sk):
                        raise Unsupported("loop-carried value changes shape")
                    ends.append(lv)
                m["ends"] = ends
                for i in range(len(m["leaves0"])):
                    if i in m["lin"] or not ends or m.get("nolin"):
                        continue
                    cur = T.app(m["names"][i], outer + [k])
                    steps = [sub(e[i], cur) if T.is_z(e[i]) else None for e in ends]
                    if all(isinstance(s, int) for s in steps) and len(set(steps)) == 1:
                        m["lin"][i] = steps[0]
                        relin = True
                        continue
                    carried = {k.decl().name()} | {x for y in modes.values() for x in y.get("names", ())}
                    if all(T.is_z(s) and s.eq(steps[0]) and not T.occurs(s, carried) for s in steps):
                        m["lin"][i] = steps[0]
                        relin = True
            if relin:
                continue
            dropped = False
            for m in modes.values():
                if m["mode"] != "shape":
                    continue
                for i in list(m["ge0"]):
                    if i in m["lin"]:
                        continue
                    for o, lv in zip(normal, m["ends"]):
                        if le(0, lv[i]) is True:
                            continue
                        r, _ = self.prover.check(o.state.pc + [lt(lv[i], 0)], o.state.facts, timeout=3000)
                        if r != "unsat":
                            m["ge0"].discard(i)
                            dropped = True
                            break
            if not dropped:
                break
        else:
            raise Unsupported("loop frame does not stabilise")

        nb = len(base.pc)
        nf = len(base.facts)
        exits = [o for o in outs if o.kind != "normal"]

        def delta(o):
            rng = [le(0, k)] + ([lt(k, n)] if n is not None else [])
            inv = []
            self.generic_heap(base, modes, lambda t: generic(t, inv), k)
            rng += inv
            d = []
            for c in o.state.pc[nb:]:
                if any(T.is_z(r) and T.is_z(c) and c.eq(T.simp(r)) for r in rng):
                    continue
                d.append(c)
            return d

        conds = [land(*delta(o)) for o in normal]
        N = lor(*conds) if normal else False
        alln = bool(normal) and not exits
        # list chunks
        chunks = {}
        for loc, m in modes.items():
            if m["mode"] != "list":
                continue
            alts = []
            for o, c in zip(normal, conds):
                segs = o.state.heap[loc[0]]._f["segs"]
                if not segs or not isinstance(segs[0], Pre) or segs[0].loc != loc:
                    raise Unsupported("list is not only appended to in a loop")
                saved = self.st
                self.st = o.state
                try:
                    ch = tuple(self.freeze_segs(segs[1:], base.next, set(modes)))
                finally:
                    self.st = saved
                alts.append((c, ch))
            chunks[loc] = alts
        # merge alternatives that append nothing
        recs, inits = [], []
        for loc, m in modes.items():
            if not normal and m["mode"] == "shape":
                inits += [(m["names"][i], x, T.I) for i, x in enumerate(m["leaves0"]) if i not in m["lin"]]
            elif not normal and m["mode"] == "bool":
                inits.append((m["names"][0], self.as_bool(m["v0"]), T.B))
            if m["mode"] == "shape" and normal:
                for i in range(len(m["leaves0"])):
                    if i in m["lin"]:
                        continue
                    e = zv(m["ends"][-1][i])
                    for c, lv in list(zip(conds, m["ends"]))[-2::-1]:
                        e = ite(c, lv[i], e)
                    recs.append((m["names"][i], m["leaves0"][i], e, T.I))
            elif m["mode"] == "bool" and normal:
                vs = [self.as_bool(o.state.heap[loc[0]].f[loc[1]]) for o in normal]
                e = zv(vs[-1])
                for c, v in list(zip(conds, vs))[-2::-1]:
                    e = z3.If(zv(c), zv(v), e)
                recs.append((m["names"][0], self.as_bool(m["v0"]), e, T.B))

        def loop_facts(bound):
            fs, pcs, rs = [], [], []
            # without exits the conditions of the ways through the body are exhaustive; what they say of
            # values which the body introduces (where an inner loop stops, what it starts from) is not
            if not alln or (T.is_z(N) and T.occurs(N, lambda d: d.arity() and f"{self.side}!" in d.name())):
                fs.append(Forall(k, 0, bound, [N]))
            for o, c in zip(normal, conds):
                for f in o.state.facts[nf:]:
                    fs.append(Forall(k, 0, bound, [f if alln and len(normal) == 1 else T.guard(f, c)]))
            for m in modes.values():
                if m["mode"] == "shape":
                    for i in m["ge0"]:
                        if i not in m["lin"] and normal:
                            fs.append(Forall(k, 0, add(bound, 1), [T.app(m["names"][i], outer + [k]) >= 0]))
                            pcs.append(T.app(m["names"][i], outer + [zv(bound)]) >= 0 if not isinstance(bound, int) or bound >= 0 else True)
            for name, v0, sort in inits:
                pcs.append(zv(T.app(name, outer + [0], sort)) == zv(v0))
            for name, v0, e, sort in recs:
                fn = (lambda t, name=name, sort=sort: T.app(name, outer + [t], sort))
                pcs.append(zv(fn(0)) == zv(v0))
                fs.append(Forall(k, 0, bound, [zv(fn(add(k, 1))) == zv(e)]))
                rs.append(Rec(name, fn, v0, k, e, bound))
            for o in normal:
                for r in o.state.recs[len(base.recs):]:
                    rs.append(r)
            return fs, pcs, rs

        def finish_lists(segs, bound):
            out = []
            for s in segs:
                if isinstance(s, Pre) and s.loc in chunks:
                    out.extend(modes[s.loc]["v0"])
                    alts = chunks[s.loc]
                    if any(ch for _, ch in alts) and not (isinstance(bound, int) and bound == 0):
                        if len(alts) == 1:
                            alts = [(True, alts[0][1])]
                        out.append(Map(bound, k, alts))
                else:
                    out.append(s)
            return tuple(out)

        if n is None and self.side == "C":
            leaves = [(T.app(m["names"][i], outer + [k]), [zv(x[i]) for x in m["ends"]]) for m in modes.values() if m["mode"] == "shape" and normal
                      for i in range(len(m["leaves0"])) if i not in m["lin"]]
            self.ends(base, k, N, [delta(o) for o in exits], loop_facts, normal, leaves)

        options, actions = [], []
        if n is not None:
            fs, pcs, rs = loop_facts(n)
            nn = zmax(n, 0) if not isinstance(n, int) else max(n, 0)
            if T.is_z(nn) and not self.feasible([lt(n, 0)]):
                nn = n
            options.append((pcs, fs))
            actions.append(("complete", nn, rs, None, None))
        for o in exits:
            k0 = T.app(f"ix!{self.side}!x{lid}", outer)
            p = [(k, k0)]
            fs, pcs, rs = loop_facts(k0)
            conds0 = list(pcs) + [le(0, k0)] + ([lt(k0, n)] if n is not None else [])
            conds0 += [T.zsub(c, p) for c in delta(o)]
            fs = fs + [f.subst(p) for f in o.state.facts[nf:]]
            options.append((conds0, fs))
            actions.append((o.kind, k0, rs, o, p))
        if not options:
            raise Infeasible()
        self.st = base
        which, bound, rs, o, p = actions[self.decide(options)]
        st = self.st
        nxt = max([x.state.next for x in outs] + [st.next])
        st.recs = st.recs + rs
        if which == "complete":
            st.next = nxt
            if not normal:  # no iteration gets to its end: there was none
                return
            for loc, m in modes.items():
                a, fld = loc
                if m["mode"] == "list":
                    self.put(Ref(a), fld, finish_lists((Pre(loc),), bound))
                elif m["mode"] == "poison":
                    after = Poison(("after",) + loc)
                    self.put(Ref(a), fld, PoisonContent(("after",) + loc) if m.get("content") else after)
            saved = {l: m for l, m in modes.items() if m["mode"] in ("list", "poison")}
            for l in saved:
                del modes[l]
            generic(bound)
            modes.update(saved)
            return
        # exit in iteration k0: state of the exiting path with k := k0
        nm = T.app  # noqa
        heap = {}
        for a, ob in o.state.heap.items():
            if base.heap.get(a) is ob:
                heap[a] = ob
                continue
            f = {}
            for fld, v in ob._f.items():
                v = T.subst(v, p)
                if ob.kind == "list" and fld == "segs":
                    v = T.subst_segs(finish_lists(ob._f[fld], bound), p)
                f[fld] = v
            heap[a] = HObj(ob.kind, f, ob.copy)
        st.heap = heap
        st.next = nxt
        for r in o.state.recs[len(base.recs):]:
            st.recs.append(r)
        if which == "break":
            raise BreakEx()
        if which == "whileexit":
            raise WhileExit()
        if isinstance(which, tuple):
            raise OuterExit(which[1], T.subst(o.value, p))
        if which == "return":
            raise ReturnEx(T.subst(o.value, p))
        raise PyRaise(T.subst(o.value, p))

    def ends(self, base, k, goes_on, exits, loop_facts, normal, leaves):
        """A loop without a bound has to end: not all of the first b iterations go on, for some b, or an integer it carries
        grows (or shrinks) in every iteration and stays on one side of a value that the loop does not change."""
        bounds = [z3.IntVal(1)]
        todo = [c for conds in exits + [[goes_on]] for c in conds if T.is_z(c)]
        seen = set()
        while todo and len(bounds) < 16:
            e = todo.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_bool(e) and e.num_args() == 2 and z3.is_int(e.arg(0)):
                d = e.arg(0) - e.arg(1)
                d0, d1 = (z3.simplify(z3.substitute(d, (k, z3.IntVal(i)))) for i in (0, 1))
                c = z3.simplify(d1 - d0)
                if z3.is_int_value(c) and c.as_long() != 0 and z3.is_true(z3.simplify(d == d0 + c * k)):
                    size = d0 if c.as_long() < 0 else -d0
                    bounds.append(z3.simplify(z3.If(size > 0, size, z3.IntVal(0)) + 2))
            elif z3.is_bool(e):
                todo.extend(e.children())
        for b in bounds:
            fs, pcs, _ = loop_facts(b)
            r, _ = self.prover.check(base.pc + [p for p in pcs if p is not True], list(base.facts) + fs, timeout=5000)
            if r == "unsat":
                return
        carried = {k.decl().name()} | {x.decl().name() for x, _ in leaves}
        limits, todo, seen = [z3.IntVal(0)], [c for c in [goes_on] if T.is_z(c)], set()
        while todo and len(limits) < 12:
            e = todo.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_int(e) and not T.occurs(e, carried) and not any(e.eq(x) for x in limits):
                limits.append(e)
            todo.extend(e.children())

        def always(claims):
            return all(self.prover.check(o.state.pc + [lnot(c)], o.state.facts, timeout=3000)[0] == "unsat" for o, c in zip(normal, claims))

        for x, after in leaves:
            for sign in (1, -1):
                if always([sign * (y - x) >= 1 for y in after]) and any(always([sign * (b - x) >= 0] * len(normal)) for b in limits):
                    return
        raise Unsupported("loop not shown to end")

    def generic_heap(self, base, modes, generic, k):
        saved = self.st
        self.st = base.copy()
        try:
            generic(k)
            h = dict(self.st.heap)
        finally:
            self.st = saved
        return h

    # ------------------------------------------------------------ freezing
    def freeze(self, v, base, modified=frozenset(), seen=None):
        """Immutable image; objects allocated before `base` stay references."""
        if isinstance(v, Poison):
            raise Unsupported("value of a finished loop's temporary")
        if isinstance(v, Ref):
            if v.addr < base:
                if any(a == v.addr for a, _ in modified):
                    raise Unsupported("object modified by the loop escapes from it (shared between iterations)")
                return FRef(v.addr)
            seen = seen if seen is not None else {}
            if seen.get(v.addr):
                raise Unsupported("one mutable object reachable twice")
            seen[v.addr] = True
            o = self.st.heap[v.addr]
            f = o.f
            if o.kind == "list":
                return FList(self.freeze_segs(f["segs"], base, modified, seen))
            if o.kind == "dict":
                return FDict([(self.freeze(k, base, modified, seen), self.freeze(x, base, modified, seen)) for k, x in f["entries"]],
                             self.freeze(f["base"], base, modified, seen))
            if o.kind == "struct":
                if any(k.startswith("w:") for k in f):
                    raise Unsupported("structure with attributes of its own")
                mem = f["mem"]
                if mem.addr < base and any(a == mem.addr for a, _ in modified):
                    raise Unsupported("memory modified by the loop escapes from it")
                shared = None
                if mem.addr < base:
                    shared = mem.addr
                elif seen.get(("mem", mem.addr)):
                    raise Unsupported("two structures share memory")
                seen[("mem", mem.addr)] = True
                return FStruct(f["cls"], self.get(mem, "content").shift(f["off"]), ctypes.sizeof(f["cls"]), shared, f["off"])
            if o.kind == "arr":
                mem = f["mem"]
                if seen.get(("mem", mem.addr)):
                    raise Unsupported("two structures share memory")
                seen[("mem", mem.addr)] = True
                return FArr(f["elem"], f["length"], self.get(mem, "content").shift(f["off"]))
            if o.kind == "mem":
                return FMem(f["content"], f["size"])
            if o.kind == "inst":
                return FInst(f["cls"], [(k, self.freeze(x, base, modified, seen)) for k, x in f.items() if k != "cls"])
            if o.kind == "file":
                return FFile(f["content"], f["n"], f["pos"])
            raise Unsupported(f"{o.kind} object escapes")
        if isinstance(v, STuple):
            seen = seen if seen is not None else {}
            return STuple([self.freeze(x, base, modified, seen) for x in v.items], v.cls)
        if isinstance(v, SBytes) or isinstance(v, SText):
            return v
        if isinstance(v, (SFunc, SSeq, SBound, T.SPtr)):
            raise Unsupported(f"{type(v).__name__} escapes")
        return v

    def freeze_segs(self, segs, base, modified=frozenset(), seen=None):
        seen = seen if seen is not None else {}
        out = []
        for s in segs:
            if isinstance(s, Item):
                out.append(Item(self.freeze(s.v, base, modified, seen)))
            elif isinstance(s, Pre):
                raise Unsupported("list under construction escapes from its loop")
            else:
                out.append(s)
        return tuple(out)

    def thaw(self, v, owned=False):
        """Fresh heap image of a frozen tree (used when an element is taken out of a symbolic list).

        The list goes on holding the element, so the image is read-only, unless nothing else holds it (`owned`).
        """
        n0 = self.st.next
        r = self.image(v)
        if not owned:
            for a in range(n0, self.st.next):
                o = self.st.heap[a]
                self.st.heap[a] = HObj(o.kind, o._f, True)
        return r

    def image(self, v):
        if isinstance(v, FStruct):
            if v.shared is not None:
                return self.alloc("struct", cls=v.cls, mem=Ref(v.shared), off=v.off)
            return self.mk_struct(v.cls, v.content)
        if isinstance(v, FArr):
            size = mul(v.length, ctypes.sizeof(v.elem))
            mem = self.alloc("mem", content=v.content, size=size)
            return self.alloc("arr", elem=v.elem, length=v.length, mem=mem, off=0)
        if isinstance(v, FList):
            return self.alloc("list", segs=tuple(Item(self.image(s.v)) if isinstance(s, Item) else s for s in v.segs))
        if isinstance(v, FDict):
            return self.alloc("dict", entries=tuple((self.image(k), self.image(x)) for k, x in v.entries), base=v.base)
        if isinstance(v, FInst):
            return self.alloc("inst", cls=v.cls, **{k: self.image(x) for k, x in v.attrs})
        if isinstance(v, FMem):
            return self.alloc("mem", content=v.content, size=v.size)
        if isinstance(v, FFile):
            return self.alloc("file", content=v.content, n=v.n, pos=v.pos)
        if isinstance(v, FRef):
            return Ref(v.addr)
        if isinstance(v, STuple):
            return STuple([self.image(x) for x in v.items], v.cls)
        return v

    # ------------------------------------------------------------ coercions
    def as_int(self, v):
        """int-like value -> python int or z3 Int."""
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, SInt):
            return v.e
        if isinstance(v, SBool):
            return ite(v.e, 1, 0)
        raise Unsupported(f"integer expected, got {type(v).__name__}")

    def is_intlike(self, v):
        return isinstance(v, (int, SInt, SBool))

    def as_bool(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, SBool):
            return v.e
        raise Unsupported("bool expected")

    def raise_(self, cls, *args):
        raise PyRaise(SExc(cls, args))

    def truth(self, v):
        """z3/bool truth value of a Python value."""
        if isinstance(v, Poison):
            raise PoisonRead(v.loc)
        if isinstance(v, (bool,)):
            return v
        if isinstance(v, SBool):
            return v.e
        if isinstance(v, SInt):
            return lnot(eq(v.e, 0))
        if isinstance(v, SBytes):
            return lnot(le(v.length, 0))
        if isinstance(v, SStr):
            if any(isinstance(p, tuple) and p[0] == "int" for p in v.pieces) or any(isinstance(p, str) and p for p in v.pieces):
                return True
            raise Unsupported("truth of text")
        if isinstance(v, STuple):
            return bool(v.items)
        if isinstance(v, Ref):
            o = self.st.heap[v.addr]
            if o.kind == "list":
                return lnot(le(self.list_len(o.f["segs"]), 0))
            if o.kind == "dict":
                if o.f["base"] is None:
                    return bool(o.f["entries"])
                raise Unsupported("truth of dict")
            if o.kind == "mem":
                return lnot(le(o.f["size"], 0))
            if o.kind == "arr":
                return lnot(le(o.f["length"], 0))
            if o.kind in ("struct", "file"):
                return True
            if o.kind == "inst":
                if any(hasattr(o.f["cls"], x) for x in ("__bool__", "__len__")):
                    raise Unsupported("truth of instance")
                return True
            raise Unsupported(f"truth of {o.kind}")
        if isinstance(v, SRange):
            return lnot(le(v.n, 0))
        if isinstance(v, SOpaque):
            if v.typ == "str":
                return lnot(eq(self.opaque_id(v), intern_id("")))
            if v.typ == "list":
                n = self.opaque_id(SOpaque("len", (v,)))
                self.assume(le(0, n))
                return lt(0, n)
            if v.typ == "optlist":
                return self.opaque_bool("truthy", [v])
            raise Unsupported("truth of opaque value")
        if isinstance(v, SText):
            raise Unsupported("truth of decoded text")
        if isinstance(v, (SFunc, SBound, SExc, SSel)):
            return True
        if isinstance(v, (SFloat, SSeq)):
            raise Unsupported("truth of value")
        return bool(v)

    def opaque_flat(self, args):
        name, ints = [], []

        def go(a):
            if isinstance(a, bool) or a is None or isinstance(a, str):
                name.append(repr(a))
            elif isinstance(a, int):
                ints.append(a)
                name.append("#")
            elif isinstance(a, z3.ExprRef):
                ints.append(a)
                name.append("#")
            elif isinstance(a, SInt):
                ints.append(a.e)
                name.append("#")
            elif isinstance(a, SOpaque):
                name.append(a.name + "(")
                for x in a.args:
                    go(x)
                name.append(")")
            elif isinstance(a, STuple):
                name.append("(")
                for x in a.items:
                    go(x)
                name.append(")")
            else:
                raise Unsupported(f"opaque argument {type(a).__name__}")

        for a in args:
            go(a)
        return ",".join(name), ints

    def opaque_bool(self, op, args):
        n, ints = self.opaque_flat(args)
        return T.app(f"q:{op}:{n}", ints, T.B)

    def opaque_id(self, v):
        n, ints = self.opaque_flat([v])
        return T.app(f"id:{n}", ints, T.I)

    def test(self, v):
        return self.branch(self.truth(v))

    def list_len(self, segs):
        n = 0
        for s in segs:
            if isinstance(s, Item):
                n = add(n, 1)
            elif isinstance(s, Map):
                lens = {str(self.list_len(ch)) for _, ch in s.alts}
                ls = [self.list_len(ch) for _, ch in s.alts]
                if len(lens) != 1 or not isinstance(ls[0], int):
                    raise Unsupported("length of a list with varying chunks")
                n = add(n, mul(s.n, ls[0]))
            elif s.length is not None:
                n = add(n, s.length)
            else:
                raise T.PreLength(s.loc)
        return n

    # ------------------------------------------------------------ iterators
    def ahead(self, make):
        """-> (make(), what it read of the objects that existed before)"""
        h0, next0 = dict(self.st.heap), self.st.next
        log = Log()
        LOGS.append(log)
        try:
            r = make()
        finally:
            LOGS.pop()
            if LOGS:
                LOGS[-1].objects.update(log.objects)
                LOGS[-1].names.update(log.names)
        objs = {}
        for a, o in h0.items():
            now = self.st.heap[a]
            if o.kind not in ("frame", "file", "box") and (id(o) in log.objects or id(now) in log.objects):
                objs[a] = now
            if now is not o and o.kind in ("gen", "iter"):  # used up earlier than in the real run
                self.put(Ref(a), *(("used", "partly") if o.kind == "gen" else ("idx", Poison(("read elsewhere", a)))))
                objs.pop(a, None)
        return r, Snap(objs, {loc: v for loc, v in log.names.items() if loc[0] < next0})

    def unchanged(self, snap):
        if snap is None:
            return
        if LOGS:
            LOGS[-1].objects.update((id(o), o) for o in snap.objects.values())
            LOGS[-1].names.update(snap.names)
        saved = LOGS[:]
        del LOGS[:]
        try:
            for a, o in snap.objects.items():
                p = self.st.heap.get(a)
                if p is not o and (p is None or self.changed({a: o}, {a: p})):
                    raise Unsupported("what an iterator reads changes before it is consumed")
            for (a, name), v in snap.names.items():
                w = self.st.heap[a].f.get(name) if a in self.st.heap else v
                if w is not v and not T.same_value(v, w):
                    raise Unsupported(f"{name} changes before an iterator that reads it is consumed")
        finally:
            LOGS[:] = saved

    def generator(self, segs, end=None, files=(), snap=None, owned=False):
        """A generator evaluated ahead: the position of the files it reads is that after its last element."""
        ends = []
        for a in files:
            ends.append((a, self.get(Ref(a), "pos")))
            self.put(Ref(a), "pos", Poison(("lazy", a)))
        return self.alloc("gen", segs=tuple(segs), end=end, files=tuple(ends), used=False, snap=snap, owned=owned)

    def consume(self, g):
        """Marks a generator as consumed; -> its elements and what it ends with."""
        used = self.get(g, "used")
        if used == "partly":
            raise Unsupported("generator used again")
        if used:
            return (), None
        self.unchanged(self.get(g, "snap"))
        for a, _ in self.get(g, "files"):
            p = self.st.heap[a].f["pos"]
            if not (isinstance(p, Poison) and p.loc == ("lazy", a)):
                raise Unsupported("file moved before the generator that reads it is consumed")
        self.put(g, "used", True)
        return self.get(g, "segs"), self.get(g, "end")

    def finished(self, g):
        """The state after the last element of a generator nobody has started."""
        if not self.get(g, "used"):
            self.unchanged(self.get(g, "snap"))
            for a, pos in self.get(g, "files"):
                self.put(Ref(a), "pos", pos)

    def consumed(self, g):
        for a, pos in self.get(g, "files"):
            p = self.st.heap[a].f["pos"]
            if not (isinstance(p, Poison) and p.loc == ("lazy", a)):
                raise Unsupported("file moved while the generator that reads it is consumed")
            self.put(Ref(a), "pos", pos)
        self.unchanged(self.get(g, "snap"))

    # ------------------------------------------------------------ iteration
    def seq_of(self, v):
        """-> ('items', [values]) | ('n', n, elem) | ('segs', segs) | ('gen', ref)"""
        if isinstance(v, (list, tuple)):
            return ("items", list(v))
        if isinstance(v, (dict, set, frozenset)) or type(v).__name__ in ("dict_keys", "dict_values", "dict_items", "mappingproxy"):
            return ("items", [STuple(x) if isinstance(x, tuple) else x for x in v])
        if isinstance(v, range):
            return ("n", len(v), lambda k: mk_int(add(v.start, mul(k, v.step))))
        if isinstance(v, str):
            return ("items", list(v))
        if isinstance(v, bytes):
            return ("items", list(v))
        if isinstance(v, STuple):
            return ("items", list(v.items))
        if isinstance(v, SRange):
            return ("n", v.n, lambda k: mk_int(add(v.start, mul(k, v.step))))
        if isinstance(v, SSeq):
            return ("n", v.n, v.elem)
        if isinstance(v, SBytes):
            return ("n", v.length, lambda k: mk_int(v.content.at(k)))
        if isinstance(v, Ref):
            o = self.st.heap[v.addr]
            if o.kind == "list":
                return ("segs", o.f["segs"])
            if o.kind == "dict":
                if o.f["base"] is not None:
                    raise Unsupported("iteration over opaque dict")
                return ("items", [k for k, _ in o.f["entries"]])
            if o.kind == "arr":
                return ("n", o.f["length"], lambda k: self.arr_elem(v, k))
            if o.kind == "mem":
                c = o.f["content"]
                return ("n", o.f["size"], lambda k: mk_int(c.at(k)))
            if o.kind == "gen":
                return ("gen", v)
            if o.kind == "iter":
                return ("iter", v)
        if isinstance(v, SOpaque) and v.typ == "list":
            n = self.opaque_id(SOpaque("len", (v,)))
            self.assume(le(0, n))
            k = z3.Int("ix!item")
            return ("segs", (Map(n, k, [(True, (Item(SOpaque("item", (v, SInt(k)), None)),))]),))
        if isinstance(v, type) or v is None or isinstance(v, (int, SInt, SBool, float)):
            self.raise_(TypeError)
        raise Unsupported(f"iteration over {type(v).__name__}")

    def iterate(self, v, body):
        """body(value) per element; handles Continue; Break propagates."""
        s = self.seq_of(v)
        if s[0] == "items":
            if len(s[1]) > NATIVE_UNROLL:
                raise Unsupported("long constant sequence")
            for x in s[1]:
                try:
                    body(x)
                except ContinueEx:
                    pass
        elif s[0] == "n":
            self.loop_n(s[1], lambda k: body(s[2](k)))
        elif s[0] == "segs":
            o = self.st.heap[v.addr] if isinstance(v, Ref) else None
            try:
                self.iterate_segs(s[1], body)
            finally:
                if o is not None and self.st.heap.get(v.addr) is not o and self.changed({v.addr: o}, {v.addr: self.st.heap[v.addr]}):
                    raise Unsupported("list changed while it is read")
        elif s[0] == "gen":
            g = s[1]
            segs, end = self.consume(g)
            try:
                self.iterate_segs(segs, body, self.get(g, "owned"))
            except BaseException as e:
                if not isinstance(e, (Unsupported, PoisonRead, Infeasible)):
                    self.unchanged(self.get(g, "snap"))
                    self.put(g, "used", "partly")
                raise
            self.consumed(g)
            if end is not None:
                raise PyRaise(end)
        elif s[0] == "iter":
            it = s[1]
            n, idx, src = self.get(it, "n"), self.get(it, "idx"), self.get(it, "elem")
            self.unchanged(self.get(it, "snap"))

            def step(k):
                self.put(it, "idx", add(add(idx, k), 1))
                body(src(add(idx, k)))

            items = self.get(it, "items")
            if items is not None and isinstance(idx, int):
                if len(items) > NATIVE_UNROLL:
                    raise Unsupported("long constant sequence")

                def loop():
                    for k in range(len(items) - idx):
                        try:
                            step(k)
                        except ContinueEx:
                            pass
            else:
                def loop():
                    self.loop_n(None if n is None else zmax(sub(n, idx), 0), step)

            try:
                loop()
            except BaseException as e:
                if not isinstance(e, (Unsupported, PoisonRead, Infeasible)):
                    self.unchanged(self.get(it, "snap"))
                raise
            self.unchanged(self.get(it, "snap"))
        else:
            raise Unsupported("iteration")

    def iterate_segs(self, segs, body, owned=False):
        for s in segs:
            if isinstance(s, Item):
                try:
                    body(s.v)
                except ContinueEx:
                    pass
            elif isinstance(s, Map):
                def one(k, s=s):
                    p = [(s.var, k)]
                    if len(s.alts) == 1:
                        i = 0
                    else:
                        i = self.decide([([T.zsub(c, p)], []) for c, _ in s.alts])
                    ch = T.subst_segs(s.alts[i][1], p)
                    self.iterate_segs([Item(self.thaw(x.v, owned)) if isinstance(x, Item) else x for x in ch], body, owned)

                self.loop_n(s.n, one)
            else:
                raise Unsupported("list read while under construction")

    def append(self, ref, v):
        self.put(ref, "segs", self.get(ref, "segs") + (Item(v),))

    # ------------------------------------------------------------ ctypes
    def arr_elem(self, ref, k):
        o = self.st.heap[ref.addr].f
        et = o["elem"]
        return self.ctype_read(et, o["mem"], add(o["off"], mul(k, ctypes.sizeof(et))))

    def ctype_read(self, t, mem, off):
        if issubclass(t, ctypes.Structure):
            return self.alloc("struct", cls=t, mem=mem, off=off)
        if issubclass(t, ctypes.Array):
            if t._type_ is ctypes.c_char:
                content = self.get(mem, "content")
                return self.cstr(content, off, t._length_)
            return self.alloc("arr", elem=t._type_, length=t._length_, mem=mem, off=off)
        content = self.get(mem, "content")
        if t.__mro__[1] is not ctypes._SimpleCData:
            raise Unsupported("subclass of a simple C type")
        code = t._type_
        size = ctypes.sizeof(t)
        if code == "c":
            return SBytes(content.shift(off), 1)
        if code in "bhilq":
            return mk_int(T.decode_int(content, off, size, True))
        if code in "BHILQ":
            return mk_int(T.decode_int(content, off, size, False))
        if code in "fd":
            return SFloat(T.decode_int(content, off, size, False), size)
        if code == "?":
            return mk_bool(lnot(eq(content.at(off), 0)))
        raise Unsupported(f"C type {t.__name__}")

    def cstr(self, content, off, cap):
        c = content.shift(off)
        if cap == 0:
            return b""
        if isinstance(c, View):
            n = T.app(f"strn:{c.buf}:{cap}", c.args + (c.off,), T.I, ("strn", c.buf, len(c.args), cap))
        elif isinstance(c, Zero):
            return b""
        elif isinstance(c, Const):
            return c.data[:cap].split(b"\0")[0]
        elif isinstance(c, Cond):
            n = self.fresh("strn")
            self.assume(z3.And(n >= 0, n <= cap))
            self.assume(z3.Implies(n < cap, zv(c.at(n)) == 0))
            j = z3.Int("ix!strn")
            self.st.facts.append(Forall(j, 0, n, [zv(c.at(j)) != 0]))
        else:
            raise Unsupported("string content")
        return SBytes(c, n)

    def field_type(self, cls, name):
        for c in cls.__mro__:
            if "_fields_" in c.__dict__:
                for f in c.__dict__["_fields_"]:
                    if f[0] == name:
                        if len(f) > 2:
                            raise Unsupported("bit field")
                        return f[1]
        raise Unsupported(f"field {name}")

    def class_lookup(self, cls, name):
        for c in cls.__mro__:
            if name in c.__dict__:
                return c, c.__dict__[name]
        return None, UNBOUND

    def struct_attr(self, ref, name):
        o = self.st.heap[ref.addr]
        cls = o.f["cls"]
        owner, d = self.class_lookup(cls, name)
        if d is not UNBOUND and type(d).__name__ == "CField":
            v = self.ctype_read(self.field_type(owner, name), o.f["mem"], add(o.f["off"], d.offset))
            if name in self.field_min and isinstance(v, SInt):
                self.assume(v.e >= self.field_min[name])
            return v
        if isinstance(d, property):
            return self.call_property(ref, d, name)
        if "a:" + name in o.f:
            return self.get(ref, "a:" + name)
        if isinstance(d, functools.cached_property):
            v = self.call_property(ref, d, name)
            self.put(ref, "a:" + name, v)
            if name not in VERSION_PROPERTIES:
                self.put(ref, "w:" + name, True)
            return v
        return self.class_attr(ref, cls, d, name)

    def class_attr(self, ref, cls, d, name):
        if name == "__class__":
            return cls
        if d is UNBOUND:
            if name == "__dict__":
                raise Unsupported("__dict__")
            if any("__getattr__" in c.__dict__ for c in cls.__mro__):
                raise Unsupported("__getattr__")
            self.raise_(AttributeError, name)
        if isinstance(d, types.FunctionType):
            return SBound(ref, name, d)
        if isinstance(d, staticmethod):
            return d.__func__
        if isinstance(d, classmethod):
            return SBound(cls, name, d.__func__)
        if hasattr(type(d), "__get__") and not isinstance(d, type):
            raise Unsupported(f"descriptor {name} of {cls.__name__}")
        return d

    def call_property(self, ref, prop, name):
        get = prop.func if isinstance(prop, functools.cached_property) else prop.fget
        if name not in VERSION_PROPERTIES:
            return self.call_python(get, [ref], {})
        self.in_version += 1
        try:
            return self.call_python(get, [ref], {})
        finally:
            self.in_version -= 1

    # ------------------------------------------------------------ attribute access
    def getattr_(self, v, name):
        if isinstance(v, Poison):
            raise PoisonRead(v.loc)
        if isinstance(v, Ref):
            o = self.st.heap[v.addr]
            if o.kind == "struct":
                return self.struct_attr(v, name)
            if o.kind == "inst":
                cls = o.f["cls"]
                owner, d = self.class_lookup(cls, name)
                if isinstance(d, property):
                    return self.call_property(v, d, name)
                if name in o.f and name != "cls":
                    return self.get(v, name)
                if isinstance(d, functools.cached_property):
                    x = self.call_property(v, d, name)
                    self.put(v, name, x)
                    return x
                if o.f.get("cls") is types.SimpleNamespace:
                    self.raise_(AttributeError, name)
                return self.class_attr(v, cls, d, name)
            return self.models.object_attr(v, o, name)
        if isinstance(v, STuple) and v.cls is not None:
            return self.models.namedtuple_attr(v, name)
        if isinstance(v, (SBytes, SStr, SText, SOpaque, SRange, STuple, SInt, SBool, SFloat)):
            return self.models.value_attr(v, name)
        if isinstance(v, self.models.Manager):
            return SBound(v, name)
        if isinstance(v, SExc):
            if name == "args":
                return STuple(v.args)
            raise Unsupported("exception attribute")
        if isinstance(v, (SFunc, SBound, SSel, SSeq)):
            raise Unsupported(f"attribute {name} of function")
        if isinstance(v, self.models.SArrType):
            return self.models.arrtype_attr(v, name)
        # native
        if isinstance(v, types.ModuleType):
            try:
                return getattr(v, name)
            except AttributeError:
                self.raise_(AttributeError, name)
        if isinstance(v, type):
            owner, d = self.class_lookup(v, name)
            if isinstance(d, classmethod) and self.inlinable(d.__func__):
                return SBound(v, name, d.__func__)
            if d is UNBOUND and not hasattr(v, name):
                self.raise_(AttributeError, name)
            if isinstance(d, property):
                return d
            if issubclass(v, (ctypes._SimpleCData, ctypes.Structure, ctypes.Array)) and name in ("from_buffer_copy", "from_buffer"):
                return SBound(v, name)
            return getattr(v, name)
        if isinstance(v, (list, dict, tuple, str, bytes, set, frozenset, range)):
            if not hasattr(v, name):
                self.raise_(AttributeError, name)
            return SBound(v, name)
        if v is None or isinstance(v, (int, float)):
            if not hasattr(v, name):
                self.raise_(AttributeError, name)
            return SBound(v, name) if callable(getattr(v, name)) else getattr(v, name)
        if type(v).__name__ == "CField" and name in ("offset", "size"):
            return getattr(v, name)
        if isinstance(v, types.FunctionType) and name in ("__name__",):
            return getattr(v, name)
        if type(v).__module__ in ("struct",):
            return SBound(v, name)
        if v is sys.stdout and name in ("write", "flush"):
            return SBound(v, name)
        if isinstance(v, logging.Logger) and name in ("debug", "info", "warning", "error"):
            return getattr(v, name)
        raise Unsupported(f"attribute {name} of {type(v).__name__}")

    def setattr_(self, v, name, val):
        if isinstance(v, Ref):
            o = self.st.heap[v.addr]
            if o.kind == "struct":
                owner, d = self.class_lookup(o.f["cls"], name)
                if d is not UNBOUND and type(d).__name__ == "CField":
                    self.models.write_field(v, owner, d, name, val)
                    return
                if isinstance(d, property):
                    raise Unsupported("property assignment")
                self.put(v, "a:" + name, val)
                if not self.in_version:
                    self.put(v, "w:" + name, True)
                return
            if o.kind == "inst":
                owner, d = self.class_lookup(o.f["cls"], name)
                if isinstance(d, property) or d is not UNBOUND and hasattr(type(d), "__set__"):
                    raise Unsupported("property assignment")
                self.put(v, name, val)
                return
        raise FrameViolation(f"writes attribute {name} of {describe(v)}")

    # ------------------------------------------------------------ names
    def lookup(self, ctx, name):
        c = ctx
        while c is not None:
            f = self.st.heap[c.frame.addr].f
            if name in f:
                v = f[name]
                if isinstance(v, Poison):
                    raise PoisonRead(v.loc)
                if LOGS:
                    LOGS[-1].names[c.frame.addr, name] = v
                return v
            if c is ctx and name in ctx.localnames and name not in ctx.nonlocals:
                self.raise_(UnboundLocalError, name)
            c = c.parent
        if name in ctx.globs:
            return ctx.globs[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        self.raise_(NameError, name)

    def bind(self, ctx, name, v):
        if name in ctx.nonlocals:
            c = ctx.parent
            while c is not None:
                if name in self.st.heap[c.frame.addr].f:
                    self.put(c.frame, name, v)
                    return
                c = c.parent
            raise FrameViolation(f"writes global {name}")
        self.put(ctx.frame, name, v)

    # ------------------------------------------------------------ calls
    def inlinable(self, fn):
        if not isinstance(fn, types.FunctionType):
            return False
        return any(fn.__code__.co_filename.startswith(p) for p in self.inline_prefixes)

    def call(self, f, args, kwargs, node=None, ctx=None):
        if isinstance(f, Poison):
            raise PoisonRead(f.loc)
        if isinstance(f, SBound):
            if f.func is not None:
                return self.call(f.func, [f.obj] + list(args), kwargs)
            return self.models.method(f.obj, f.name, list(args), kwargs)
        if isinstance(f, SFunc):
            return self.call_closure(f, args, kwargs)
        if isinstance(f, SSel):
            h = self.contracts.get("select")
            if h is None:
                raise Unsupported("call through a table with a symbolic key")
            return h(self, f, args, kwargs)
        if isinstance(f, self.models.SArrType):
            raise Unsupported("construct array")
        try:
            h = self.contracts.get(f)
        except TypeError:
            h = None
        if h is not None:
            self.callees.add(getattr(f, "__qualname__", str(f)))
            return h(self, list(args), kwargs)
        m = self.models.function(f)
        if m is not None:
            return m(list(args), kwargs)
        if isinstance(f, functools.partial):
            return self.call(f.func, list(f.args) + list(args), {**f.keywords, **kwargs})
        if isinstance(f, types.FunctionType) and (self.inlinable(f) or f.__code__ is CONTEXTMANAGER):
            return self.call_python(f, args, kwargs)
        if isinstance(f, type):
            return self.models.construct(f, list(args), kwargs)
        return self.models.native_call(f, list(args), kwargs)

    def call_python(self, fn, args, kwargs):
        if fn in self.contracts:
            self.callees.add(fn.__qualname__)
            return self.contracts[fn](self, list(args), dict(kwargs))
        return self.call_body(fn, args, kwargs)

    def call_body(self, fn, args, kwargs, cached=False):
        raw = getattr(fn, "__wrapped__", None)
        if isinstance(raw, types.FunctionType) and fn.__code__ is CONTEXTMANAGER and self.inlinable(raw):
            node = function_node(raw)
            inside_loop = any(isinstance(n, (ast.For, ast.While)) and any(isinstance(y, ast.Yield) for y in ast.walk(n)) for n in ast.walk(node))
            if len(node.decorator_list) == 1 and not inside_loop:
                self.bind_args(node.args, args, kwargs, list(raw.__defaults__ or ()), dict(raw.__kwdefaults__ or {}), raw.__qualname__)
                return self.models.Manager("generator", (raw, list(args), dict(kwargs)))
        return self.run_function(fn, args, kwargs, cached)

    def run_function(self, fn, args, kwargs, cached=False, on_yield=None):
        if not self.inlinable(fn):
            raise Unsupported(f"call of {fn}")
        node = function_node(fn)  # of this function object: what decorators made of it is another object
        parent = self.cells(fn) if fn.__closure__ else None
        self.inlined.add(f"{fn.__module__}.{fn.__qualname__}")
        sig_defaults = list(fn.__defaults__ or ())
        return self.run_body(node, parent, fn.__globals__, args, kwargs, sig_defaults, dict(fn.__kwdefaults__ or {}), fn.__qualname__, on_yield)

    def cells(self, fn):
        """Variables of the enclosing functions of a function made at import, which nothing assigns any more."""
        names = fn.__code__.co_freevars
        for n in ast.walk(module_tree(fn.__code__.co_filename)):
            if isinstance(n, ast.Nonlocal) and set(n.names) & set(names):
                raise Unsupported("closure over a variable that is assigned")
        if "__class__" in names:
            raise Unsupported("super")
        try:
            values = {n: c.cell_contents for n, c in zip(names, fn.__closure__)}
        except ValueError:
            raise Unsupported("closure over an unbound variable") from None
        return Ctx(self.alloc("frame", **values), fn.__globals__, None, None, set(names), "enclosing")

    def call_closure(self, f, args, kwargs):
        return self.run_body(f.node, f.ctx, f.ctx.globs, args, kwargs, list(f.defaults), dict(f.kwdefaults), f.name)

    def bind_args(self, a, args, kwargs, defaults, kwdefaults, fname):
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        args = list(args)
        kwargs = dict(kwargs)
        if len(args) > len(names):
            if a.vararg is None:
                self.raise_(TypeError, f"{fname} arguments")
            vals[a.vararg.arg] = STuple(args[len(names):])
            args = args[: len(names)]
        elif a.vararg is not None:
            vals[a.vararg.arg] = STuple(())
        for n, v in zip(names, args):
            vals[n] = v
        for n in list(kwargs):
            if n in vals:
                self.raise_(TypeError, n)
            if n in [x.arg for x in a.args] or n in [x.arg for x in a.kwonlyargs]:
                vals[n] = kwargs.pop(n)
        if kwargs and a.kwarg is None:
            self.raise_(TypeError, "unexpected keyword")
        if a.kwarg is not None:
            vals[a.kwarg.arg] = self.alloc("dict", entries=tuple(kwargs.items()), base=None)
        for n, d in zip(names[len(names) - len(defaults):], defaults):
            vals.setdefault(n, d)
        for x in a.kwonlyargs:
            if x.arg not in vals and x.arg in kwdefaults:
                vals[x.arg] = kwdefaults[x.arg]
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in vals:
                self.raise_(TypeError, f"missing {n}")
        return vals

    def run_body(self, node, parent, globs, args, kwargs, defaults, kwdefaults, fname, on_yield=None):
        if self.depth > 25:
            raise Unsupported("call depth")
        vals = self.bind_args(node.args, args, kwargs, defaults, kwdefaults, fname)
        frame = self.alloc("frame", **vals)
        ctx = Ctx(frame, globs, parent, None, local_names(node) | set(vals), fname)
        self.depth += 1
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, ctx)
            if on_yield is not None:
                ctx.yields = on_yield
            elif is_generator(node):
                return self.run_generator(node, ctx)
            try:
                self.block(node.body, ctx)
            except ReturnEx as r:
                return r.value
            return None
        finally:
            self.depth -= 1

    def run_generator(self, node, ctx):
        """Generator functions are run to completion when created; see `gen` objects and iterate()."""
        h0 = dict(self.st.heap)
        next0 = self.st.next
        handed = {}  # what has been handed out may not change until the consumer has it
        owned = [True]

        def run():
            ys = self.alloc("list", segs=())

            def emit(v):
                self.append(ys, v)
                for a in self.reachable(v):
                    o = self.st.heap[a]
                    if o.copy and not handed.get(a):
                        owned[0] = False
                    elif a >= next0:
                        handed[a] = True
                        self.st.heap[a] = HObj(o.kind, o._f, True)

            ctx.yields = emit
            try:
                try:
                    self.block(node.body, ctx)
                except ReturnEx:
                    pass
            except PyRaise as e:
                return e.exc, ys
            return None, ys

        (end, ys), snap = self.ahead(run)
        for a in handed:
            o = self.st.heap.get(a)
            if o is not None:
                self.st.heap[a] = HObj(o.kind, o._f)
        files = []
        for (a, fld), _ in self.changed(h0, self.st.heap).items():
            o = self.st.heap[a]
            if o.kind == "file" and fld == "pos":
                files.append(a)
            elif a < next0 and a != ctx.frame.addr and o.kind not in ("gen", "iter"):
                raise Unsupported("generator with side effects")
        snap.names = {loc: v for loc, v in snap.names.items() if loc[0] != ctx.frame.addr}
        return self.generator(self.get(ys, "segs"), end, files, snap, owned[0])

    def reachable(self, v, out=None):
        out = [] if out is None else out
        if isinstance(v, Ref):
            if v.addr in out or v.addr not in self.st.heap:
                return out
            out.append(v.addr)
            for x in self.st.heap[v.addr]._f.values():
                self.reachable(x, out)
        elif isinstance(v, (STuple, tuple)):
            for x in v.items if isinstance(v, STuple) else v:
                self.reachable(x, out)
        elif isinstance(v, Item):
            self.reachable(v.v, out)
        return out

    # ------------------------------------------------------------ statements
    def block(self, stmts, ctx):
        for s in stmts:
            self.stmt(s, ctx)

    def stmt(self, s, ctx):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__} at line {s.lineno}")
        m(s, ctx)

    def s_Expr(self, s, ctx):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, ctx)

    def s_Pass(self, s, ctx):
        pass

    def s_Assign(self, s, ctx):
        v = self.eval(s.value, ctx)
        for t in s.targets:
            self.assign(t, v, ctx)

    def s_AnnAssign(self, s, ctx):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, ctx), ctx)

    def s_AugAssign(self, s, ctx):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.lookup(ctx, t.id)
            new = self.aug(s.op, old, self.eval(s.value, ctx))
            self.bind(ctx, t.id, new)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, ctx)
            old = self.getattr_(o, t.attr)
            self.setattr_(o, t.attr, self.aug(s.op, old, self.eval(s.value, ctx)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, ctx)
            i = self.eval(t.slice, ctx)
            old = self.models.getitem(o, i)
            self.models.setitem(o, i, self.aug(s.op, old, self.eval(s.value, ctx)))
        else:
            raise Unsupported("augmented assignment")

    def aug(self, op, old, val):
        if isinstance(op, ast.Add) and isinstance(old, Ref) and self.kind(old) == "list":
            self.models.method(old, "extend", [val], {})
            return old
        if isinstance(op, ast.Add) and isinstance(old, list):
            raise FrameViolation("extends a module level list")
        return self.binop(op, old, val)

    def assign(self, t, v, ctx):
        if isinstance(t, ast.Name):
            self.bind(ctx, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.eval(t.value, ctx), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.models.setitem(self.eval(t.value, ctx), self.eval(t.slice, ctx), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, len(t.elts))
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                m = len(vals) - (len(t.elts) - 1)
                if m < 0:
                    self.raise_(ValueError)
                vals = vals[:i] + [self.mk_list(vals[i:i + m])] + vals[i + m:]
                targets = [e.value if isinstance(e, ast.Starred) else e for e in t.elts]
            else:
                targets = t.elts
            if len(vals) != len(targets):
                self.raise_(ValueError, "unpack")
            for e, x in zip(targets, vals):
                self.assign(e, x, ctx)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, most=None):
        s = self.seq_of(v)
        if s[0] == "items":
            return s[1]
        if s[0] == "segs" and all(isinstance(x, Item) for x in s[1]):
            return [x.v for x in s[1]]
        if s[0] == "n" and isinstance(s[1], int) and s[1] < 50:
            return [s[2](i) for i in range(s[1])]
        if s[0] in ("gen", "iter"):
            if most is not None and s[0] == "gen" and self.get(v, "end") is not None and len(self.get(v, "segs")) > most:
                raise Unsupported("unpacking an iterator that fails further on")
            segs = self.models.to_segs(v)
            if all(isinstance(x, Item) for x in segs):
                return [x.v for x in segs]
        raise Unsupported("unpacking a symbolic sequence")

    def s_Delete(self, s, ctx):
        for t in s.targets:
            if isinstance(t, ast.Name):
                o = self.st.heap[ctx.frame.addr]
                if t.id not in o.f:
                    raise Unsupported("del")
                f = dict(o.f)
                del f[t.id]
                self.st.heap[ctx.frame.addr] = HObj(o.kind, f)
            else:
                raise Unsupported("del")

    def s_Global(self, s, ctx):
        ctx.nonlocals.update(s.names)

    def s_Nonlocal(self, s, ctx):
        ctx.nonlocals.update(s.names)

    def s_Import(self, s, ctx):
        for a in s.names:
            mod = __import__(a.name)
            if a.asname:
                import importlib

                mod = importlib.import_module(a.name)
            self.bind(ctx, a.asname or a.name.split(".")[0], mod)

    def s_ImportFrom(self, s, ctx):
        import importlib

        if s.level:
            raise Unsupported("relative import")
        mod = importlib.import_module(s.module)
        for a in s.names:
            if hasattr(mod, a.name):
                self.bind(ctx, a.asname or a.name, getattr(mod, a.name))
            else:
                self.bind(ctx, a.asname or a.name, importlib.import_module(f"{s.module}.{a.name}"))

    def s_If(self, s, ctx):
        if self.test(self.eval(s.test, ctx)):
            self.block(s.body, ctx)
        else:
            self.block(s.orelse, ctx)

    def s_Assert(self, s, ctx):
        if not self.test(self.eval(s.test, ctx)):
            self.raise_(AssertionError)

    def s_Return(self, s, ctx):
        raise ReturnEx(self.eval(s.value, ctx) if s.value is not None else None)

    def s_Break(self, s, ctx):
        raise BreakEx()

    def s_Continue(self, s, ctx):
        raise ContinueEx()

    def s_Raise(self, s, ctx):
        if s.exc is None:
            if not self.exc_stack:
                self.raise_(RuntimeError)
            raise PyRaise(self.exc_stack[-1])
        e = self.eval(s.exc, ctx)
        if s.cause is not None:
            self.eval(s.cause, ctx)
        if isinstance(e, type) and issubclass(e, BaseException):
            e = SExc(e)
        if not isinstance(e, SExc):
            raise Unsupported("raise of a non-exception")
        raise PyRaise(e)

    def s_FunctionDef(self, s, ctx):
        defaults = [self.eval(d, ctx) for d in s.args.defaults]
        kwd = {a.arg: self.eval(d, ctx) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        f = SFunc(s, ctx, defaults, kwd, s.name)
        for d in reversed(s.decorator_list):
            f = self.call(self.eval(d, ctx), [f], {})
        self.bind(ctx, s.name, f)

    def streamed(self, e, ctx):
        """Does the expression make a generator here, of a function in which nothing surrounds its yields but loops and ifs?"""
        if not isinstance(e, ast.Call) or any(isinstance(a, ast.Starred) for a in e.args) or any(k.arg is None for k in e.keywords):
            return None
        if not isinstance(e.func, ast.Name) and not (isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name)):
            return None
        f = self.eval(e.func, ctx)
        if f in (enumerate, itertools.islice) and e.args and not e.keywords:
            return f if self.streamed(e.args[0], ctx) else None
        if f is zip and not e.keywords:
            which = [self.streamed(a, ctx) is not None for a in e.args]
            plain = [isinstance(a, ast.Call) and isinstance(a.func, (ast.Name, ast.Attribute)) and self.eval(a.func, ctx) in (range, itertools.count)
                     for a in e.args if self.streamed(a, ctx) is None]
            return f if sum(which) == 1 and all(plain) else None
        if isinstance(f, SFunc):
            node = f.node
        elif isinstance(f, types.FunctionType) and self.inlinable(f) and f not in self.contracts and not hasattr(f, "__wrapped__") and self.models.function(f) is None:
            node = function_node(f)
        else:
            return None
        if isinstance(node, ast.Lambda) or not is_generator(node):
            return None

        def plain(stmts):
            for x in stmts:
                if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                if not any(isinstance(y, (ast.Yield, ast.YieldFrom)) for y in ast.walk(x)):
                    continue
                if isinstance(x, (ast.For, ast.While, ast.If)):
                    if not plain(x.body) or not plain(x.orelse):
                        return False
                    continue
                v = x.value if isinstance(x, ast.Expr) else None
                if not isinstance(v, ast.Yield) or v.value is not None and any(isinstance(y, (ast.Yield, ast.YieldFrom)) for y in ast.walk(v.value)):
                    return False
            return True

        return f if plain(node.body) else None

    def stream(self, e, ctx):
        """-> run(body) for a streamed() expression, whose arguments are evaluated here."""
        f = self.eval(e.func, ctx)
        if f in (enumerate, itertools.islice, zip):
            runs = [self.stream(a, ctx) if self.streamed(a, ctx) is not None else self.eval(a, ctx) for a in e.args]
            at = [i for i, a in enumerate(e.args) if self.streamed(a, ctx) is not None][0]
            if f is enumerate:
                start = self.as_int(runs[1]) if len(runs) > 1 else 0
                return self.stepped([runs[0]], 0, lambda k, x: STuple((mk_int(add(start, k)), x)))
            if f is itertools.islice:
                if len(runs) != 2:
                    raise Unsupported("islice of a generator")
                stop = None if runs[1] is None else self.as_int(runs[1])
                if stop is not None and not self.branch(le(0, stop)):
                    self.raise_(ValueError)
                return self.stepped([(stop, None), runs[0]], 1, lambda k, x: x)
            parts = [r if i == at else self.models.random_access(r) for i, r in enumerate(runs)]
            return self.stepped(parts, at, lambda k, x: STuple([x if i == at else p[1](k) for i, p in enumerate(parts)]))
        args = [self.eval(a, ctx) for a in e.args]
        kwargs = {k.arg: self.eval(k.value, ctx) for k in e.keywords}
        if isinstance(f, SFunc):
            self.bind_args(f.node.args, args, kwargs, list(f.defaults), dict(f.kwdefaults), f.name)
        else:
            self.bind_args(function_node(f).args, args, kwargs, list(f.__defaults__ or ()), dict(f.__kwdefaults__ or {}), f.__qualname__)

        def run(body):
            try:
                if isinstance(f, SFunc):
                    self.run_body(f.node, f.ctx, f.ctx.globs, args, kwargs, list(f.defaults), dict(f.kwdefaults), f.name, body)
                else:
                    self.run_function(f, args, kwargs, on_yield=body)
            except PyRaise as x:
                if issubclass(x.exc.cls, StopIteration):
                    raise Unsupported("StopIteration in a generator") from None
                raise

        return run

    def stepped(self, parts, at, value):
        """zip(), enumerate() and islice() of a streamed generator: it is asked for an element after what comes before it and before what follows."""
        def ends(k, which):
            return any(p[0] is not None and not self.branch(lt(k, p[0])) for p in which)

        def run(body):
            if ends(0, parts[:at]):
                return
            cell = self.alloc("frame", k=0)

            def one(x):
                k = self.as_int(self.get(cell, "k"))
                if ends(k, parts[at + 1:]):
                    raise OuterExit("end")
                body(value(k, x))
                self.put(cell, "k", mk_int(add(k, 1)))
                if ends(add(k, 1), parts[:at]):
                    raise OuterExit("end")

            parts[at](one)

        return run

    def s_For(self, s, ctx):
        if self.streamed(s.iter, ctx) is not None:
            run = self.stream(s.iter, ctx)

            def inside(x):
                try:
                    self.assign(s.target, x, ctx)
                    self.block(s.body, ctx)
                except ContinueEx:
                    pass
                except BreakEx:
                    raise OuterExit("break") from None
                except ReturnEx as r:
                    raise OuterExit("return", r.value) from None
                except PyRaise as r:
                    raise OuterExit("raise", r.exc) from None
                except OuterExit as r:  # of a loop around this one
                    raise OuterExit(("outer", r.kind), r.value) from None

            try:
                run(inside)
            except OuterExit as o:
                if o.kind == "break":
                    return
                if o.kind == "return":
                    raise ReturnEx(o.value) from None
                if o.kind == "raise":
                    raise PyRaise(o.value) from None
                if o.kind != "end":
                    raise OuterExit(o.kind[1], o.value) from None
            self.block(s.orelse, ctx)
            return
        it = self.eval(s.iter, ctx)

        def body(x):
            self.assign(s.target, x, ctx)
            self.block(s.body, ctx)

        try:
            self.iterate(it, body)
        except BreakEx:
            return
        self.block(s.orelse, ctx)

    def s_While(self, s, ctx):
        def body(k):
            if not self.test(self.eval(s.test, ctx)):
                raise WhileExit()
            self.block(s.body, ctx)

        try:
            self.loop_n(None, body)
        except BreakEx:
            return
        except WhileExit:
            pass
        self.block(s.orelse, ctx)

    def s_With(self, s, ctx):
        self.with_items(s.items, s.body, ctx)

    def with_items(self, items, body, ctx):
        if not items:
            self.block(body, ctx)
            return
        cm = self.eval(items[0].context_expr, ctx)
        if isinstance(cm, self.models.Manager) and cm.kind == "generator":
            self.with_generator(cm, items, body, ctx)
            return
        val = self.models.enter(cm)
        if items[0].optional_vars is not None:
            self.assign(items[0].optional_vars, val, ctx)
        try:
            self.with_items(items[1:], body, ctx)
        except PyRaise as e:
            if self.models.exit(cm, e.exc):
                return
            raise
        except (ReturnEx, BreakEx, ContinueEx):
            self.models.exit(cm, None)
            raise
        self.models.exit(cm, None)

    def with_generator(self, cm, items, body, ctx):
        """`with` a @contextlib.contextmanager: the body runs where the generator yields."""
        state = []

        def enter(v):
            if state:
                raise Unsupported("context manager yields again")
            state.append(None)
            try:
                if items[0].optional_vars is not None:
                    self.assign(items[0].optional_vars, v, ctx)
                self.with_items(items[1:], body, ctx)
            except (ReturnEx, BreakEx, ContinueEx) as e:
                state[0] = e

        self.run_function(cm.payload[0], cm.payload[1], cm.payload[2], on_yield=enter)
        if not state:
            self.raise_(RuntimeError, "generator didn't yield")
        if state[0] is not None:
            raise state[0]

    def s_Try(self, s, ctx):
        try:
            self.try_handlers(s, ctx)
        except (PyRaise, ReturnEx, BreakEx, ContinueEx):
            self.block(s.finalbody, ctx)
            raise
        self.block(s.finalbody, ctx)

    def try_handlers(self, s, ctx):
        try:
            self.block(s.body, ctx)
        except PyRaise as e:
            for h in s.handlers:
                if h.type is None:
                    ok = True
                else:
                    t = self.eval(h.type, ctx)
                    ts = t.items if isinstance(t, STuple) else (t if isinstance(t, tuple) else (t,))
                    if not all(isinstance(x, type) for x in ts):
                        raise Unsupported("except clause")
                    ok = any(issubclass(e.exc.cls, x) for x in ts)
                if ok:
                    if h.name:
                        self.bind(ctx, h.name, e.exc)
                    self.exc_stack.append(e.exc)
                    try:
                        self.block(h.body, ctx)
                    finally:
                        self.exc_stack.pop()
                    return
            raise
        self.block(s.orelse, ctx)

    def s_Match(self, s, ctx):
        v = self.eval(s.subject, ctx)
        for c in s.cases:
            if self.match(c.pattern, v, ctx) and (c.guard is None or self.test(self.eval(c.guard, ctx))):
                self.block(c.body, ctx)
                return

    def match(self, p, v, ctx):
        if isinstance(p, ast.MatchValue):
            return self.branch(self.models.equal(v, self.eval(p.value, ctx)))
        if isinstance(p, ast.MatchSingleton):
            if isinstance(v, SBool):
                return isinstance(p.value, bool) and self.branch(v.e if p.value else lnot(v.e))
            return v is p.value
        if isinstance(p, ast.MatchAs) and p.pattern is not None:
            if not self.match(p.pattern, v, ctx):
                return False
            if p.name:
                self.bind(ctx, p.name, v)
            return True
        if isinstance(p, ast.MatchClass):
            if len(p.patterns) > 1:
                raise Unsupported("class pattern")
            cls = self.eval(p.cls, ctx)
            if not self.models.f_isinstance([v, cls], {}):
                return False
            if p.patterns:
                if cls not in (int, str, bytes, float, bool, list, tuple, dict, bytearray):
                    raise Unsupported("class pattern")
                if not self.match(p.patterns[0], v, ctx):
                    return False
            for name, q in zip(p.kwd_attrs, p.kwd_patterns):
                if not self.models.f_hasattr([v, name], {}) or not self.match(q, self.getattr_(v, name), ctx):
                    return False
            return True
        if isinstance(p, ast.MatchSequence) and isinstance(v, STuple) and not any(isinstance(x, ast.MatchStar) for x in p.patterns):
            return len(p.patterns) == len(v.items) and all(self.match(q, x, ctx) for q, x in zip(p.patterns, v.items))
        if isinstance(p, ast.MatchAs) and p.pattern is None:
            if p.name:
                self.bind(ctx, p.name, v)
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match(x, v, ctx) for x in p.patterns)
        raise Unsupported("pattern")

    # ------------------------------------------------------------ expressions
    def eval(self, e, ctx):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__} at line {e.lineno}")
        return m(e, ctx)

    def e_Constant(self, e, ctx):
        return e.value

    def e_Name(self, e, ctx):
        return self.lookup(ctx, e.id)

    def e_Attribute(self, e, ctx):
        return self.getattr_(self.eval(e.value, ctx), e.attr)

    def e_Subscript(self, e, ctx):
        return self.models.getitem(self.eval(e.value, ctx), self.eval(e.slice, ctx))

    def e_Slice(self, e, ctx):
        return SSlice(*[None if x is None else self.eval(x, ctx) for x in (e.lower, e.upper, e.step)])

    def elements(self, elts, ctx):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.unpack(self.eval(x.value, ctx)))
            else:
                out.append(self.eval(x, ctx))
        return out

    def e_Tuple(self, e, ctx):
        return STuple(self.elements(e.elts, ctx))

    def e_List(self, e, ctx):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            segs = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    segs.extend(self.models.to_segs(self.eval(x.value, ctx)))
                else:
                    segs.append(Item(self.eval(x, ctx)))
            return self.mk_segs(segs)
        return self.mk_list(self.elements(e.elts, ctx))

    def e_Set(self, e, ctx):
        vals = self.elements(e.elts, ctx)
        if all(isinstance(v, (str, int, bytes)) or v is None for v in vals):
            return frozenset(vals)
        return STuple(vals)  # only membership tests are supported on it

    def e_Dict(self, e, ctx):
        d = self.alloc("dict", entries=(), base=None)
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.models.method(d, "update", [self.eval(v, ctx)], {})
            else:
                kk = self.eval(k, ctx)
                self.models.setitem(d, kk, self.eval(v, ctx))
        return d

    def e_JoinedStr(self, e, ctx):
        pieces = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                pieces.append(x.value)
            else:
                v = self.eval(x.value, ctx)
                spec = self.eval(x.format_spec, ctx) if x.format_spec is not None else ""
                pieces.extend(self.models.format_piece(v, x.conversion, spec))
        return self.models.mk_str(pieces)

    def e_IfExp(self, e, ctx):
        return self.eval(e.body if self.test(self.eval(e.test, ctx)) else e.orelse, ctx)

    def e_BoolOp(self, e, ctx):
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, ctx)
            if i == len(e.values) - 1:
                return v
            t = self.test(v)
            if isinstance(e.op, ast.And) and not t:
                return v if not isinstance(v, SBool) else False
            if isinstance(e.op, ast.Or) and t:
                return v if not isinstance(v, SBool) else True
        return v

    def e_UnaryOp(self, e, ctx):
        v = self.eval(e.operand, ctx)
        if isinstance(e.op, ast.Not):
            return mk_bool(lnot(self.truth(v)))
        if self.is_intlike(v):
            i = self.as_int(v)
            if isinstance(e.op, ast.USub):
                return mk_int(sub(0, i))
            if isinstance(e.op, ast.UAdd):
                return mk_int(i)
            if isinstance(e.op, ast.Invert):
                return mk_int(sub(-1, i))
        if isinstance(v, float) and isinstance(e.op, ast.USub):
            return -v
        raise Unsupported("unary operator")

    def e_BinOp(self, e, ctx):
        return self.binop(e.op, self.eval(e.left, ctx), self.eval(e.right, ctx))

    def binop(self, op, a, b):
        return self.models.binop(op, a, b)

    def e_Compare(self, e, ctx):
        left = self.eval(e.left, ctx)
        res = True
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r, ctx)
            c = self.models.compare(op, left, right)
            if i == len(e.ops) - 1 and res is True:
                return mk_bool(c)
            if not self.branch(c):
                return False
            left = right
        return True

    def e_Call(self, e, ctx):
        f = self.eval(e.func, ctx)
        if isinstance(f, types.BuiltinFunctionType) and f in (any, all, next):
            if e.args and isinstance(e.args[0], ast.GeneratorExp):
                return self.short_circuit(f, e, ctx)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.unpack(self.eval(a.value, ctx)))
            else:
                args.append(self.eval(a, ctx))
        for k in e.keywords:
            v = self.eval(k.value, ctx)
            if k.arg is None:
                if isinstance(v, dict):
                    kwargs.update(v)
                elif isinstance(v, Ref) and self.kind(v) == "dict" and self.get(v, "base") is None:
                    kwargs.update(dict(self.get(v, "entries")))
                else:
                    raise Unsupported("** argument")
            else:
                kwargs[k.arg] = v
        if f is super:
            raise Unsupported("super")
        if f is locals or f is globals or f is vars and not args:
            raise Unsupported("reflection")
        return self.call(f, args, kwargs, e, ctx)

    def short_circuit(self, f, e, ctx):
        """any/all/next over a generator expression stop early."""
        gen = e.args[0]
        sub_ctx = self.comp_ctx(gen, ctx)

        class Found(Exception):
            pass

        box = self.alloc("box", v=None)

        def leaf():
            v = self.eval(gen.elt, sub_ctx)
            if f is next:
                self.put(box, "v", v)
                raise BreakEx()
            if self.test(v) == (f is any):
                raise BreakEx()

        try:
            self.comp_loops(gen.generators, sub_ctx, ctx, leaf)
        except BreakEx:
            if f is next:
                return self.get(box, "v")
            return f is any
        if f is next:
            if len(e.args) > 1:
                return self.eval(e.args[1], ctx)
            self.raise_(StopIteration)
        return f is all

    def comp_ctx(self, node, ctx):
        frame = self.alloc("frame")
        return Ctx(frame, ctx.globs, ctx, None, (), ctx.fname)

    def comp_loops(self, gens, sub_ctx, outer, leaf, first=UNBOUND):
        if not gens:
            leaf()
            return
        g = gens[0]
        it = self.eval(g.iter, sub_ctx) if first is UNBOUND else first

        def body(x):
            self.assign(g.target, x, sub_ctx)
            for c in g.ifs:
                if not self.test(self.eval(c, sub_ctx)):
                    return
            self.comp_loops(gens[1:], sub_ctx, outer, leaf)

        self.iterate(it, body)

    def e_ListComp(self, e, ctx):
        sub_ctx = self.comp_ctx(e, ctx)
        out = self.alloc("list", segs=())
        self.comp_loops(e.generators, sub_ctx, ctx, lambda: self.append(out, self.eval(e.elt, sub_ctx)))
        return out

    def eager(self, loop):
        """A lazy iterator over what loop(list) appends to the list, evaluated where it is created."""
        h0, n0 = dict(self.st.heap), self.st.next

        def run():
            out = self.alloc("list", segs=())
            end = None
            try:
                loop(out)
            except PyRaise as e:
                end = e.exc
            return self.get(out, "segs"), end

        (segs, end), snap = self.ahead(run)
        files = []
        for (a, fld), _ in self.changed(h0, self.st.heap).items():
            if a < n0 and self.st.heap[a].kind == "file" and fld == "pos":
                files.append(a)
            elif a < n0 and self.st.heap[a].kind not in ("gen", "iter"):
                raise Unsupported("generator expression with side effects")
        return self.generator(segs, end, files, snap)

    def e_GeneratorExp(self, e, ctx):
        first = self.eval(e.generators[0].iter, ctx)  # Python evaluates it where the expression stands, too

        def loop(out):
            sub_ctx = self.comp_ctx(e, ctx)
            self.comp_loops(e.generators, sub_ctx, ctx, lambda: self.append(out, self.eval(e.elt, sub_ctx)), first)

        return self.eager(loop)

    def e_DictComp(self, e, ctx):
        sub_ctx = self.comp_ctx(e, ctx)
        out = self.alloc("dict", entries=(), base=None)

        def leaf():
            k = self.eval(e.key, sub_ctx)
            self.models.setitem(out, k, self.eval(e.value, sub_ctx))

        self.comp_loops(e.generators, sub_ctx, ctx, leaf)
        return out

    def e_SetComp(self, e, ctx):
        raise Unsupported("set comprehension")

    def e_Lambda(self, e, ctx):
        defaults = [self.eval(d, ctx) for d in e.args.defaults]
        return SFunc(e, ctx, defaults, {}, "<lambda>")

    def e_NamedExpr(self, e, ctx):
        v = self.eval(e.value, ctx)
        c = ctx
        while c.localnames == () and c.parent is not None:  # comprehension scopes bind outside
            c = c.parent
        self.bind(c, e.target.id, v)
        return v

    def yield_target(self, ctx):
        c = ctx
        while c is not None and c.yields is None:
            c = c.parent
        if c is None:
            raise Unsupported("yield")
        return c.yields

    def e_Yield(self, e, ctx):
        v = self.eval(e.value, ctx) if e.value is not None else None
        self.emit(self.yield_target(ctx), v)
        return None

    def emit(self, target, v):
        if callable(target):
            target(v)
        else:
            self.append(target, v)

    def e_YieldFrom(self, e, ctx):
        ys = self.yield_target(ctx)
        self.iterate(self.eval(e.value, ctx), lambda x: self.emit(ys, x))
        return None

    def e_Starred(self, e, ctx):
        raise Unsupported("starred")


class FrameViolation(Exception):
    """The code writes something that no contract allows it to write (module level state)."""


def describe(v):
    return getattr(v, "__name__", None) or type(v).__name__

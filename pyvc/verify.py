"""Obligations: every path of a function against every path of its specification function."""
from __future__ import annotations

import ctypes
import time

import z3

from . import engine, terms as T
from .engine import FrameViolation, Interp
from .terms import (FArr, FDict, FFile, FInst, FList, FMem, FRef, FStruct, Forall, Item, Map, Poison, PoisonRead, Ref,
                    SBool, SBytes, SExc, SFloat, SInt, SOpaque, SRange, SStr, STuple, SText, Unsupported, add, eq, land,
                    le, lnot, lt, sub, zv)


class Obligation:
    def __init__(self, name, status, detail="", seconds=0.0, backend="z3"):
        self.name, self.status, self.detail, self.seconds, self.backend = name, status, detail, seconds, backend
        self.model = None

    def as_dict(self):
        return {"name": self.name, "status": self.status, "backend": self.backend, "seconds": round(self.seconds, 3), "detail": self.detail[:2000]}


class Case:
    """One call of `code` compared with `spec`.

    setup(ip) builds the arguments (same allocation order on both sides) and returns (args, kwargs).
    """

    def __init__(self, name, code, spec, setup, code_contracts=None, spec_contracts=None, opts=None):
        self.name, self.code, self.spec, self.setup = name, code, spec, setup
        self.code_contracts, self.spec_contracts = code_contracts or {}, spec_contracts or {}
        self.opts = opts or {}


class Frozen:
    """Outcome with everything observable as immutable trees."""

    def __init__(self, ip, o, base, h0):
        saved = ip.st
        ip.st = o.state
        try:
            o.state = o.state.copy()
            ip.st = o.state
            self.kind, self.pc, self.facts, self.recs = o.kind, o.state.pc, o.state.facts, o.state.recs
            self.end = None
            self.problem = None
            seen = {}
            v = o.value
            if isinstance(v, Ref) and v.addr >= base and ip.kind(v) == "gen":
                ip.finished(v)  # files are compared as they are after the last element
            if o.kind == "raise":
                self.value = v
            else:
                self.value = self.freeze(ip, v, base, seen)
            self.heap = {}
            for a in range(1, base):
                f = {}
                for k, x in o.state.heap[a].f.items():
                    if o.state.heap[a].kind == "list" and k == "segs":
                        f[k] = FList(ip.freeze_segs(x, base, frozenset(), seen))
                    elif isinstance(x, Poison):
                        f[k] = x
                    else:
                        f[k] = self.freeze(ip, x, base, seen)
                self.heap[a] = (o.state.heap[a].kind, f)
        finally:
            ip.st = saved

    def freeze(self, ip, v, base, seen):
        if isinstance(v, Ref) and v.addr >= base and ip.kind(v) == "gen":
            g = ip.st.heap[v.addr].f
            return ("gen", FList(ip.freeze_segs(g["segs"], base, frozenset(), seen)), g["end"])
        if isinstance(v, Ref) and v.addr < base:
            return FRef(v.addr)
        return ip.freeze(v, base, frozenset(), seen)


def canon_layout(cls):
    """Layout of a ctypes structure class as data (two classes with equal layout are interchangeable)."""
    import ctypes

    if cls is None:
        return None
    if issubclass(cls, ctypes.Structure):
        fields = []
        for c in reversed(cls.__mro__):
            for f in c.__dict__.get("_fields_", ()):
                d = getattr(cls, f[0])
                fields.append((f[0], d.offset, canon_layout(f[1])))
        return ("struct", ctypes.sizeof(cls), tuple(fields))
    if issubclass(cls, ctypes.Array):
        return ("array", cls._length_, canon_layout(cls._type_))
    return ("simple", cls._type_, ctypes.sizeof(cls))


def all_of(v):
    """The opaque list whose elements a list holds, in order."""
    if len(v.segs) != 1 or not isinstance(v.segs[0], Map):
        return None
    m = v.segs[0]
    if len(m.alts) != 1 or len(m.alts[0][1]) != 1 or not isinstance(m.alts[0][1][0], Item):
        return None
    x = m.alts[0][1][0].v
    if not isinstance(x, SOpaque) or x.name != "item" or not isinstance(x.args[1], SInt) or not x.args[1].e.eq(m.var):
        return None
    name, ints = Interp.opaque_flat(None, [SOpaque("len", (x.args[0],))])
    return x.args[0] if T.is_z(m.n) and m.n.eq(T.simp(T.app(f"id:{name}", ints, T.I))) else None


class Comparer:
    def __init__(self, hooks=None, skip_key=None, any_order=False, any_error=False):
        self.any_order = any_order
        self.any_error = any_error
        self.skip_key = skip_key
        self.goals = []  # (label, hyps, goal)
        self.n = 0
        self.hooks = hooks

    def sk(self, name):
        self.n += 1
        return z3.Int(f"ix!sk!{name}{self.n}")

    def goal(self, label, hyps, g):
        self.goals.append((label, list(hyps), g))

    def ints(self, label, hyps, a, b):
        g = eq(a, b)
        if g is not True:
            self.goal(label, hyps, g)

    def content(self, label, hyps, a, b, size):
        if T.same_content(a, b):
            return
        j = self.sk("byte")
        try:
            g = zv(a.at(j)) == zv(b.at(j))
        except PoisonRead:
            self.goal(label, hyps, None)
            return
        self.goal(label, hyps + [j >= 0, lt(j, size)], g)

    def value(self, label, hyps, a, b):
        if isinstance(a, (Poison,)) or isinstance(b, Poison):
            self.goal(label, hyps, None)
            return
        if isinstance(b, SOpaque) and self.hooks and self.hooks(self, label, hyps, a, b):
            return
        if isinstance(a, tuple) and a and a[0] == "gen" or isinstance(b, tuple) and b and b[0] == "gen":
            if not (isinstance(a, tuple) and isinstance(b, tuple)):
                a2 = a[1] if isinstance(a, tuple) else a
                b2 = b[1] if isinstance(b, tuple) else b
                self.value(label, hyps, a2, b2)
                return
            self.value(label + ".yielded", hyps, a[1], b[1])
            self.exc(label + ".end", hyps, a[2], b[2])
            return
        if isinstance(a, bool) or isinstance(b, bool) or isinstance(a, SBool) or isinstance(b, SBool):
            if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
                x = a.e if isinstance(a, SBool) else a
                y = b.e if isinstance(b, SBool) else b
                g = T.simp(zv(x) == zv(y))
                if g is not True:
                    self.goal(label, hyps, g)
            else:
                self.goal(label + " (type)", hyps, False)
            return
        if isinstance(a, (int, SInt)) and isinstance(b, (int, SInt)):
            self.ints(label, hyps, a.e if isinstance(a, SInt) else a, b.e if isinstance(b, SInt) else b)
            return
        if isinstance(a, (bytes, SBytes)) and isinstance(b, (bytes, SBytes)):
            if isinstance(a, bytes):
                a = SBytes(T.Const(a), len(a))
            if isinstance(b, bytes):
                b = SBytes(T.Const(b), len(b))
            self.ints(label + ".len", hyps, a.length, b.length)
            self.content(label, hyps, a.content, b.content, T.zmin(a.length, b.length))
            return
        if isinstance(a, SText) and isinstance(b, SText):
            self.ints(label + ".len", hyps, a.length, b.length)
            self.content(label, hyps, a.content, b.content, T.zmin(a.length, b.length))
            return
        if isinstance(a, (str, SText)) and isinstance(b, (str, SText)) and not (isinstance(a, str) and isinstance(b, str)):
            t, s = (a, b) if isinstance(a, SText) else (b, a)
            if s == "":
                self.goal(label, hyps, eq(t.length, 0))
                return
            self.goal(label, hyps, None)
            return
        if isinstance(a, SFloat) and isinstance(b, SFloat):
            if a.size != b.size:
                self.goal(label + " (float size)", hyps, False)
            else:
                self.ints(label, hyps, a.bits, b.bits)
            return
        if isinstance(a, SStr) or isinstance(b, SStr):
            self.strings(label, hyps, a, b)
            return
        if isinstance(a, FStruct) and isinstance(b, FStruct):
            if a.cls is not b.cls and canon_layout(a.cls) != canon_layout(b.cls):
                self.goal(f"{label} (class {a.cls.__name__}, expected {b.cls.__name__})", hyps, False)
                return
            if a.shared != b.shared:
                self.goal(label + " (memory shared with an argument)", hyps, False)
            self.content(label, hyps, a.content, b.content, a.size)
            return
        if isinstance(a, FArr) and isinstance(b, FArr):
            if canon_layout(a.elem) != canon_layout(b.elem):
                self.goal(label + " (element type)", hyps, False)
                return
            import ctypes

            self.ints(label + ".len", hyps, a.length, b.length)
            self.content(label, hyps, a.content, b.content, T.mul(b.length, ctypes.sizeof(b.elem)))
            return
        if isinstance(a, FMem) and isinstance(b, FMem):
            self.ints(label + ".size", hyps, a.size, b.size)
            self.content(label, hyps, a.content, b.content, b.size)
            return
        if isinstance(a, FList) and isinstance(b, FList):
            self.segs(label, hyps, a.segs, b.segs)
            return
        if isinstance(a, (STuple, tuple)) and isinstance(b, (STuple, tuple)):
            x = a.items if isinstance(a, STuple) else a
            y = b.items if isinstance(b, STuple) else b
            if len(x) != len(y):
                self.goal(label + " (tuple size)", hyps, False)
                return
            for i, (p, q) in enumerate(zip(x, y)):
                self.value(f"{label}[{i}]", hyps, p, q)
            return
        if isinstance(a, FDict) and isinstance(b, FDict):
            ka, kb = [k for k, _ in a.entries], [k for k, _ in b.entries]
            if (a.base is None) != (b.base is None):
                self.goal(label + " (dict base)", hyps, None)
                return
            if a.base is not None:
                self.value(label + ".base", hyps, a.base, b.base)
            if all(isinstance(k, str) for k in ka + kb):
                if set(ka) != set(kb):
                    self.goal(f"{label} (keys: missing {sorted(set(kb) - set(ka))}, extra {sorted(set(ka) - set(kb))})", hyps, False)
                    return
                if ka != kb and not self.any_order:
                    self.goal(f"{label} (order of keys)", hyps, False)
                db = dict(b.entries)
                for k, x in a.entries:
                    if self.skip_key is not None and self.skip_key(label, k):
                        continue
                    self.value(f"{label}.{k}", hyps, x, db[k])
                return
            self.goal(label, hyps, None)
            return
        if isinstance(a, FInst) and isinstance(b, FInst):
            if a.cls is not b.cls:
                self.goal(label + " (class)", hyps, False)
                return
            da, db = dict(a.attrs), dict(b.attrs)
            if set(da) != set(db):
                self.goal(label + " (attributes)", hyps, False)
                return
            for k in db:
                self.value(f"{label}.{k}", hyps, da[k], db[k])
            return
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.addr != b.addr:
                self.goal(label + " (object)", hyps, False)
            return
        if isinstance(a, SOpaque) and isinstance(b, SOpaque):
            self.opaque(label, hyps, a, b)
            return
        if isinstance(b, SOpaque) and isinstance(a, FList):
            whole = all_of(a)  # a new list of all the elements of another one
            if whole is not None:
                self.value(label, hyps, whole, b)
                return
        if isinstance(a, SRange) and isinstance(b, SRange):
            self.value(label, hyps, (T.mk_int(a.start), T.mk_int(a.n), a.step), (T.mk_int(b.start), T.mk_int(b.n), b.step))
            return
        if type(a) is type(b) or (a is None) != (b is None):
            try:
                same = bool(a == b) and type(a) is type(b)
            except Exception:  # noqa
                same = None
            if same is not True:
                self.goal(f"{label} ({a!r} instead of {b!r})"[:300], hyps, False)
            return
        kinds = (int, SInt, bytes, SBytes, str, SText, SStr, SFloat, FStruct, FList, FDict, STuple, FArr)
        if isinstance(a, kinds) and isinstance(b, kinds):
            self.goal(f"{label} (type {type(a).__name__} instead of {type(b).__name__})", hyps, False)
            return
        self.goal(f"{label} ({type(a).__name__}/{type(b).__name__})", hyps, None)

    def opaque(self, label, hyps, a, b):
        if a.name != b.name or len(a.args) != len(b.args):
            self.goal(f"{label} ({a.name} instead of {b.name})", hyps, False)
            return
        for i, (x, y) in enumerate(zip(a.args, b.args)):
            x = SInt(x) if isinstance(x, z3.ArithRef) else x
            y = SInt(y) if isinstance(y, z3.ArithRef) else y
            self.value(f"{label}<{i}>", hyps, x, y)

    def strings(self, label, hyps, a, b):
        pa = a.pieces if isinstance(a, SStr) else (a,)
        pb = b.pieces if isinstance(b, SStr) else (b,)
        if len(pa) != len(pb):
            self.goal(label + " (text)", hyps, None)
            return
        for x, y in zip(pa, pb):
            if isinstance(x, str) and isinstance(y, str):
                if x != y:
                    self.goal(f"{label} (text {x!r} instead of {y!r})", hyps, False)
            elif isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0]:
                u = SInt(x[1]) if isinstance(x[1], z3.ArithRef) else x[1]
                w = SInt(y[1]) if isinstance(y[1], z3.ArithRef) else y[1]
                self.value(label, hyps, u, w)
            else:
                self.goal(label + " (text)", hyps, None)

    def exc(self, label, hyps, a, b):
        if a is None and b is None:
            return
        if a is None or b is None:
            self.goal(f"{label} ({a} instead of {b})", hyps, False)
            return
        if self.any_error:  # what kind of error is the code's choice
            if not issubclass(a.cls, Exception):
                self.goal(f"{label} ({a.cls.__name__})", hyps, None)
            return
        if not issubclass(a.cls, b.cls):
            self.goal(f"{label} (raises {a.cls.__name__} instead of {b.cls.__name__})", hyps, False)

    @staticmethod
    def normal(segs):
        out = []
        for s in segs:
            if isinstance(s, Map):
                n = s.n
                if isinstance(n, int) and n <= 40:
                    if len(s.alts) == 1 or n == 0:
                        for i in range(n):
                            out.extend(Comparer.normal(T.subst_segs(s.alts[0][1], [(s.var, zv(i))])))
                        continue
                if all(not ch for _, ch in s.alts):
                    continue
            out.append(s)
        return out

    def segs(self, label, hyps, a, b):
        a, b = self.normal(a), self.normal(b)
        # a Map of provably zero elements on one side only
        if len(a) != len(b):
            if all(isinstance(s, Item) for s in a + b):
                self.goal(f"{label} ({len(a)} elements instead of {len(b)})", hyps, False)
                return
            if not a or not b:
                for s in a or b:
                    self.goal(f"{label} (empty)", hyps, eq(s.n, 0) if isinstance(s, Map) else False)
                return
            if self.last_apart(label, hyps, a, b):
                return
            self.goal(label + " (segments)", hyps, None)
            return
        for i, (x, y) in enumerate(zip(a, b)):
            if isinstance(x, Item) and isinstance(y, Item):
                self.value(f"{label}[{i}]", hyps, x.v, y.v)
            elif isinstance(x, Map) and isinstance(y, Map):
                self.maps(f"{label}[{i}..]", hyps, x, y)
            else:
                self.goal(label + " (segment kind)", hyps, None)

    def last_apart(self, label, hyps, a, b):
        """One side has what the last iteration of a loop adds as elements of their own: so for the other side too."""
        less, more = (a, b) if len(a) < len(b) else (b, a)
        d = len(more) - len(less)
        for i, m in enumerate(less):
            if isinstance(m, Map) and isinstance(more[i], Map) and all(isinstance(x, Item) for x in more[i + 1:i + 1 + d]) and all(
                    len(ch) == d and all(isinstance(x, Item) for x in ch) for _, ch in m.alts):
                n = T.sub(m.n, 1)
                p = [(m.var, zv(n))]
                for c, ch in m.alts:
                    apart = less[:i] + [Map(n, m.var, m.alts, m.src)] + list(T.subst_segs(ch, p)) + less[i + 1:]
                    h = hyps + ([zv(T.zsub(c, p))] if len(m.alts) > 1 else [])
                    self.segs(label, h, *((apart, more) if less is a else (more, apart)))
                return True
        return False

    def maps(self, label, hyps, x, y):
        self.ints(label + ".count", hyps, x.n, y.n)
        t = self.sk("el")
        h = hyps + [t >= 0, lt(t, x.n), lt(t, y.n)]
        for cx, chx in x.alts:
            for cy, chy in y.alts:
                hh = list(h)
                if len(x.alts) > 1:
                    hh.append(zv(T.zsub(cx, [(x.var, t)])))
                if len(y.alts) > 1:
                    hh.append(zv(T.zsub(cy, [(y.var, t)])))
                self.segs(label, hh, T.subst_segs(chx, [(x.var, t)]), T.subst_segs(chy, [(y.var, t)]))


class Result:
    def __init__(self, name):
        self.name, self.obligations, self.error = name, [], None
        self.inlined, self.callees, self.assumptions = set(), set(), set()
        self.models = []
        self.pairs = set()

    @property
    def status(self):
        if self.error:
            return "undecided"
        st = {o.status for o in self.obligations}
        if "refuted" in st:
            return "refuted"
        return "undecided" if "undecided" in st else "proved"


def induction(prover, hyps, facts, crecs, srecs):
    """Houdini over equalities between loop-carried integers of both sides; -> proved Foralls."""
    def flat(r):
        return [r]

    k = z3.Int("ix!ind")
    hi = {}
    cands = []
    for c in crecs:
        for s in srecs:
            bc, bs = z3.is_bool(zv(c.fn(0))), z3.is_bool(zv(s.fn(0)))
            if bc != bs:
                continue
            cands.append(("eq", c, s))
            if not bc:
                cands.append(("diff", c, s))
                cands.append(("sum", c, s))
    if not cands:
        return []

    def stmt(cd, t):
        kind, c, s = cd
        if kind == "eq":
            return zv(c.fn(t)) == zv(s.fn(t))
        if kind == "diff":
            return zv(c.fn(t)) - zv(s.fn(t)) == zv(c.fn(0)) - zv(s.fn(0))
        if kind == "sum":
            return zv(c.fn(t)) + zv(s.fn(t)) == zv(c.fn(0)) + zv(s.fn(0))
        moved = zv(s.fn(t)) - zv(s.fn(0))
        if kind == "rest":  # what remains of c's initial amount after s moved on
            left = zv(c.fn(0)) - moved
            return zv(c.fn(t)) == z3.If(left > 0, left, z3.IntVal(0))
        limit = zv(kind.fn(0))  # c follows s up to a limit
        return zv(c.fn(t)) - zv(c.fn(0)) == z3.If(moved < limit, moved, limit)

    alive = []
    for cd in cands:
        if cd[0] != "eq":
            alive.append(cd)
            continue
        r, _ = prover.check(hyps + [z3.Not(stmt(cd, 0))], facts, timeout=2000, only=[0])
        if r == "unsat":
            alive.append(cd)
    # a difference that is an equality anyway is redundant
    eqs = {(id(c), id(s)) for kd, c, s in alive if kd == "eq"}
    alive = [cd for cd in alive if cd[0] == "eq" or (id(cd[1]), id(cd[2])) not in eqs]
    if not any(cd[0] == "eq" for cd in alive) and len(alive) > 40:
        alive = []
    def weed(alive):
        while True:
            drop = []
            for cd in alive:
                _, c, s = cd
                hy = hyps + [k >= 0, lt(k, c.hi), lt(k, s.hi)] + [stmt(x, k) for x in alive]
                r, _ = prover.check(hy + [z3.Not(stmt(cd, k + 1))], facts, timeout=3000, only=[k])
                if r != "unsat":
                    drop.append(cd)
            if not drop:
                return alive
            alive = [cd for cd in alive if cd not in drop]

    alive = weed(alive)
    # slices of what is left, instead of positions: c and its rest add up, and c follows s until nothing is left
    related = {id(c) for _, c, _ in alive}
    odd = [c for c in crecs if id(c) not in related and not z3.is_bool(zv(c.fn(0)))]
    ints = [s for s in srecs if not z3.is_bool(zv(s.fn(0)))]
    if odd and len(odd) ** 2 * len(ints) <= 64:
        more = [("rest", c, s) for c in odd for s in ints]
        more += [(limit, c, s) for c in odd for s in ints for limit in odd if limit is not c]
        start = []
        for cd in more:
            r, _ = prover.check(hyps + [z3.Not(stmt(cd, 0))], facts, timeout=2000, only=[0])
            if r == "unsat":
                start.append(cd)
        alive = weed(alive + start)
    out = []
    for cd in alive:
        _, c, s = cd
        hi_ = T.zmin(add(c.hi, 1), add(s.hi, 1))
        out.append(Forall(k, 0, hi_, [stmt(cd, k)], ends=True))
    return out


def run_side(side, prover, fn, setup, contracts, inline, opts):
    ip = Interp(side, prover, contracts, inline_prefixes=inline)
    ip.field_min = dict(opts.get("field_min", {})) if side == "C" else {}
    box = {}

    def thunk():
        args, kwargs = setup(ip)
        box["base"] = ip.st.next
        box["h0"] = dict(ip.st.heap)
        post = opts.get("call")
        if post is not None:
            return post(ip, fn, args, kwargs)
        return ip.call_body(fn, list(args), dict(kwargs))

    from .engine import Decisions

    outs = ip.explore(thunk)
    return ip, [Frozen(ip, o, box["base"], box["h0"]) for o in outs], box


def verify(case, prover, inline_code, inline_spec):
    res = Result(case.name)
    t0 = time.time()
    try:
        cip, couts, cbox = run_side("C", prover, case.code, case.setup, case.code_contracts, inline_code, case.opts)
        sip, souts, sbox = run_side("S", prover, case.spec, case.setup, case.spec_contracts, inline_spec, case.opts)
        res.inlined = set(cip.inlined)
        res.callees = set(cip.callees)
        res.assumptions = cip.assumptions | sip.assumptions
        if not couts:
            res.obligations.append(Obligation(case.name + ": some path", "undecided", "no feasible path"))
        if case.opts.get("frame_only"):
            res.obligations.append(Obligation(case.name + ": writes no module level state", "proved", "every store of every path", 0, "syntactic"))
        for ci, c in enumerate(couts):
            for si, s in enumerate(souts):
                failed = [o for o in res.obligations if o.status != "proved"]
                if len(failed) < 6 and sum(o.seconds for o in failed) < 60:
                    pair(case, res, prover, ci, c, si, s, cbox)
        vacuity(case, res, prover, couts, souts)
    except FrameViolation as e:
        res.error = f"frame: {e}"  # shared state is written: whether anyone can tell is not decided here
    except Unsupported as e:
        res.error = f"unsupported: {e}"
    except PoisonRead as e:
        res.error = f"unsupported: value carried around a loop: {e}"
    except engine.Infeasible:
        res.error = "infeasible"
    except RecursionError:
        res.error = "recursion"
    except Exception as e:  # an engine defect leaves the case undecided, never refuted
        import traceback

        res.error = "engine: " + "".join(traceback.format_exception_only(type(e), e)).strip() + " @ " + traceback.format_exc().strip().splitlines()[-3].strip()
        res.trace = traceback.format_exc()
    res.seconds = time.time() - t0
    return res


def vacuity(case, res, prover, couts, souts):
    """The preconditions are satisfiable: some path of the code returns together with some path of the specification."""
    t0 = time.time()
    for c in couts:
        for s in souts:
            if c.kind != s.kind or c.kind == "raise":
                continue
            r, _ = prover.check(list(c.pc) + list(s.pc), list(c.facts) + list(s.facts), spell=False)
            if r == "sat":
                res.obligations.append(Obligation(case.name + ": preconditions satisfiable", "proved", "a model exists", time.time() - t0))
                return
    res.obligations.append(Obligation(case.name + ": preconditions satisfiable", "undecided", "no model found"))


def pair(case, res, prover, ci, c, si, s, box):
    name = f"{case.name} path {ci}/{si}"
    t0 = time.time()
    hyps = list(c.pc) + [x for x in s.pc if not any(T.is_z(y) and T.is_z(x) and x.eq(y) for y in c.pc)]
    facts = list(c.facts) + list(s.facts)
    cmp_ = Comparer(case.opts.get("hooks"), case.opts.get("skip_key"), case.opts.get("any_order"), case.opts.get("any_error"))
    # collect goals first: the empty pair needs no solver
    if case.opts.get("frame_only"):
        fresh(cmp_, "result", c.value)
    elif c.kind != s.kind:
        cmp_.goal(f"outcome ({describe(c)} instead of {describe(s)})", [], False)
    elif c.kind == "raise":
        cmp_.exc("exception", [], c.value, s.value)
    else:
        cmp_.value("result", [], c.value, s.value)
    raising = c.kind == "raise" or (isinstance(c.value, tuple) and c.value and c.value[0] == "gen" and c.value[2] is not None)
    if c.kind == s.kind or case.opts.get("frame_only"):
        frame(case, cmp_, c, s, raising)
    goals = [(l, h, g) for l, h, g in cmp_.goals if not (g is True)]
    if not goals:
        res.obligations.append(Obligation(f"{name}: equal results and frame", "proved", "", time.time() - t0, "syntactic"))
        return
    extra = []
    if c.recs and s.recs:
        extra = induction(prover, hyps, facts, c.recs, s.recs)
    facts2 = facts + extra
    todo = []
    for label, h, g in goals:
        if g is None:
            r2 = prover.check(hyps + h, facts2)[0]
            res.obligations.append(Obligation(f"{name}: {label}", "proved" if r2 == "unsat" else "undecided", "not expressible", 0))
        else:
            todo.append((label, h, g))
    if any(g is False and not h for _, h, g in todo):
        todo = [x for x in todo if x[2] is False and not x[1]][:1]
    if todo:
        # all at once, then one by one to name the failing obligation
        disj = z3.Or(*[land_z(h + [lnot(zv(g)) if not isinstance(g, bool) else z3.BoolVal(not g)]) for _, h, g in todo])
        t1 = time.time()
        r, m = prover.check(hyps + [disj], facts2)
        if r == "unsat":
            what = "paths exclusive" if todo[0][2] is False and not todo[0][1] else f"{len(todo)} equalities ({todo[0][0]}...)"
            res.obligations.append(Obligation(f"{name}: {what}", "proved", "by induction over the loop" if extra else "", time.time() - t0))
        else:
            before = len(res.obligations)
            for label, h, g in todo:
                t1 = time.time()
                r, m = prover.check(hyps + h + [lnot(zv(g)) if not isinstance(g, bool) else z3.BoolVal(not g)], facts2)
                # values carried around a loop are known by their recurrences only: a model of those is no counterexample yet
                status = {"unsat": "proved", "sat": "undecided" if c.recs or s.recs or any(uninterpreted(x) for x in hyps + h + [g]) else "refuted", "unknown": "undecided"}[r]
                o = Obligation(f"{name}: {label}", status, "" if r == "unsat" else f"goal: {g}", time.time() - t1)
                if m is not None:
                    o.detail += "\nmodel: " + str(m)[:1500]
                    res.models.append((o.name, m))
                res.obligations.append(o)
                if sum(1 for x in res.obligations[before:] if x.status != "proved") >= 3:
                    break


def uninterpreted(e):
    """Whether it depends on a computed text of which only equality is known: a model chooses those freely, so it is no counterexample yet."""
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if not isinstance(x, z3.ExprRef) or x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith(("id:", "q:")):
                return True
            todo += x.children()
        elif z3.is_quantifier(x):
            todo.append(x.body())
    return False


def fresh(cmp_, label, v):
    """Nothing handed out is an argument or shares memory with one."""
    if isinstance(v, (FRef, Ref)):
        cmp_.goal(f"{label} is an argument", [], False)
    elif isinstance(v, FStruct):
        if v.shared is not None:
            cmp_.goal(f"{label} shares memory with an argument", [], False)
    elif isinstance(v, FList):
        for s in v.segs:
            fresh_seg(cmp_, label, s)
    elif isinstance(v, (STuple, tuple)):
        for x in v.items if isinstance(v, STuple) else v:
            fresh(cmp_, label, x)
    elif isinstance(v, FDict):
        fresh(cmp_, label, v.base)
        for _, x in v.entries:
            fresh(cmp_, label, x)
    elif isinstance(v, FInst):
        for _, x in v.attrs:
            fresh(cmp_, label, x)
    elif isinstance(v, (list, dict, set, bytearray, ctypes.Structure, ctypes.Array, ctypes._SimpleCData)):
        cmp_.goal(f"{label} is a module level {type(v).__name__}, the same one every time", [], False)


def fresh_seg(cmp_, label, s):
    if isinstance(s, Item):
        fresh(cmp_, label, s.v)
    else:
        for _, ch in s.alts:
            for x in ch:
                fresh_seg(cmp_, label, x)


def land_z(xs):
    r = land(*[x for x in xs])
    return zv(r)


def describe(o):
    if o.kind == "raise":
        return "raise " + o.value.cls.__name__
    return "a result"


def frame(case, cmp_, c, s, raising):
    skip = case.opts.get("frame_skip", ())
    for a, (kind, f) in c.heap.items():
        sk, sf = s.heap[a]
        for k in set(f) | set(sf):
            if (raising or case.opts.get("frame_only")) and (kind == "file" and k == "pos" or kind == "list" and f.get("trace")):
                continue
            if (kind, k) in skip:
                continue
            if kind == "struct" and k.startswith("a:"):
                continue
            if kind == "struct" and k.startswith("w:"):
                cmp_.goal(f"frame: attribute {k[2:]} set on argument {a}", [], None)
                continue
            if k not in f or k not in sf:
                cmp_.goal(f"frame: attribute {k} of argument {a}", [], False)
                continue
            x, y = f[k], sf[k]
            lab = f"frame: {kind}.{k} of argument {a}"
            if isinstance(x, T.Content) and isinstance(y, T.Content):
                size = f.get("size", f.get("n"))
                cmp_.content(lab, [], x, y, size)
                continue
            if T.same_value(x, y):
                continue
            if isinstance(x, z3.ExprRef):
                x = SInt(x) if z3.is_int(x) else SBool(x)
            if isinstance(y, z3.ExprRef):
                y = SInt(y) if z3.is_int(y) else SBool(y)
            cmp_.value(lab, [], x, y)

"""Discharging verification conditions: fact instantiation, axioms of the uninterpreted functions, z3 (and cvc5)."""
from __future__ import annotations

import time

import z3

from . import terms as T

INDEX_PREFIX = "ix!"


class Stats:
    def __init__(self):
        self.queries = 0
        self.seconds = 0.0
        self.backends = {}


_COLLECTED = {}  # expression id -> (expression, applications with axioms, index terms)


def collect(e):
    """Uninterpreted applications with axioms and index terms of one expression."""
    i = e.get_id()
    r = _COLLECTED.get(i)
    if r is not None:
        return r[1], r[2]
    apps, consts, seen = {}, {}, set()
    stack = [e]
    while stack:
        x = stack.pop()
        k = x.get_id()
        if k in seen:
            continue
        seen.add(k)
        if k in _COLLECTED:
            _, a, c = _COLLECTED[k]
            apps.update(a)
            consts.update(c)
            continue
        if z3.is_app(x):
            d = x.decl()
            ch = x.children()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                n = d.name()
                if n.startswith(INDEX_PREFIX):
                    consts[k] = x
                if T.KIND.get(n) is not None:
                    apps[k] = x
            stack.extend(ch)
        elif z3.is_quantifier(x):
            stack.append(x.body())
    _COLLECTED[i] = (e, apps, consts)
    return apps, consts


STAGES = ((1, False, False), (3, False, False), (3, True, False), (3, True, True))  # (rounds of instantiation, integers spelled out by bytes, last index of every range)
EXTRA_AXIOMS = {}  # kind tag -> fn(app, kind) -> (list of z3, list of Forall)


def axioms_for(e, kind, spell=False):
    tag = kind[0]
    if tag == "byte":
        return [e >= 0, e <= 255], []
    if tag == "nonneg":
        return [e >= 0], []
    if tag == "bound":  # 0 <= e <= cap
        return [e >= 0, e <= kind[1]], []
    if tag == "ok":  # an empty region never decompresses
        return [z3.Implies(e, e.children()[-1] > 0)], []
    if tag == "strn":
        _, buf, nargs, cap = kind
        ch = e.children()
        c = T.View(buf, ch[:-1], ch[-1])
        j = z3.Int("ix!strn")
        facts = [e >= 0, e <= cap]
        if isinstance(cap, int) and cap <= 1024:
            facts.append(z3.Implies(e < cap, T.zv(c.at(e)) == 0))
        facts.append(z3.Implies(e > 0, T.zv(c.at(0)) != 0))
        return facts, [T.Forall(j, 0, e, [T.zv(c.at(j)) != 0])]
    if tag in ("dec", "decp"):
        return T.dec_axioms(e, kind, spell), []
    if tag in EXTRA_AXIOMS:
        return EXTRA_AXIOMS[tag](e, kind)
    return [], []


def violated(f, model, limit):
    """-> (instances of f that are false in the model, whether every instance was looked at)"""
    def number(e):
        if isinstance(e, int):
            return e
        v = model.eval(T.zv(e), model_completion=True)
        return v.as_long() if z3.is_int_value(v) else None

    lo, hi = number(f.lo), None if f.hi is None else number(f.hi)
    if lo is None:
        return [], False
    complete = hi is not None and hi - lo <= 200
    hi = min(lo + 200, hi) if hi is not None else lo + 20
    out = []
    for k in range(lo, hi):
        zs, fs = f.inst(k)
        for z in zs:
            if z3.is_false(model.eval(z, model_completion=True)):
                out.append(z)
                if len(out) >= limit:
                    return out, complete
        for g in fs:
            b, c = violated(g, model, limit - len(out))
            out += b
            complete = complete and c
            if len(out) >= limit:
                return out, complete
    return out, complete


class Prover:
    def __init__(self, timeout_ms=10000):
        self.timeout = timeout_ms
        self.stats = Stats()
        self.refining = 3 * timeout_ms / 1000  # seconds that may still go into refine()
        self.cvc5 = False
        self.cvc5_disagreements = []

    def expand(self, zs, facts, extra_terms=(), rounds=3, limit=6000, spell=False, only=None, ends=False):
        """Ground consequences of facts and axioms for the index terms occurring."""
        out = [T.zv(z) for z in zs if z is not True]
        apps, consts = {}, {}
        scanned = 0
        terms = {}

        def add_term(t):
            t = T.simp(t) if T.is_z(t) else t
            k = t if isinstance(t, int) else ("z", t.get_id())
            if k not in terms:
                terms[k] = t
                return True
            return False

        for t in ([0] + list(extra_terms)) if only is None else only:
            add_term(t)
        pending = list(facts)
        done_ax = set()
        done_inst = set()
        allfacts = []
        used = set()
        for _ in range(rounds):
            changed = False
            while scanned < len(out):
                a, c = collect(out[scanned])
                scanned += 1
                apps.update(a)
                consts.update(c)
            for i, e in list(apps.items()):
                if i in done_ax:
                    continue
                done_ax.add(i)
                kind = T.KIND[e.decl().name()]
                if kind[0] in ("dec", "decp", "byte"):
                    used.add((kind[0], kind[2:], e.decl().name()))
                zs2, fs2 = axioms_for(e, kind, spell)
                for z in zs2:
                    if z3.is_expr(z):
                        out.append(z)
                        changed = True
                pending.extend(fs2)
            allfacts.extend(pending)
            pending = []
            if only is None:
                for c in list(consts.values()):
                    if add_term(c):
                        changed = True
                for f in allfacts:
                    if (f.ends or ends) and f.hi is not None:
                        add_term(T.sub(f.hi, 1))
            for fi, f in enumerate(list(allfacts)):
                for tk, t in list(terms.items()):
                    if (fi, tk) in done_inst:
                        continue
                    done_inst.add((fi, tk))
                    z2, f2 = f.inst(t)
                    for z in z2:
                        if not z3.is_true(z):
                            out.append(z)
                            changed = True
                    pending.extend(f2)
                    if len(out) > limit:
                        break
            if not changed and not pending:
                break
        self.seen_facts = allfacts + pending
        self.mixed = len({(k, d) for k, d, _ in used if k == "dec" or k == "byte"}) > 1 or any(k == "decp" for k, _, _ in used)
        return out

    def check(self, zs, facts=(), extra_terms=(), timeout=None, spell=True, only=None):
        """-> 'unsat' | 'sat' | 'unknown', model"""
        t0 = time.time()
        for z in zs:
            if z is False or (T.is_z(z) and z3.is_false(z)):
                return "unsat", None
        try:
            for rounds, full, ends in STAGES:
                if full and not ends and not self.mixed or ends and (only is not None or not facts):
                    continue
                ground = self.expand(zs, facts, extra_terms, spell=full, only=only, rounds=rounds, ends=ends)
                s = z3.SimpleSolver()
                s.set("timeout", timeout or self.timeout)
                s.set("random_seed", 1)
                s.add(*ground)
                r = s.check()
                self.stats.queries += 1
                if r == z3.unsat:
                    if self.cvc5:
                        self.cross(s)
                    return "unsat", None
                if rounds > 1 and not spell:
                    break
            if r == z3.sat and spell and only is None:
                return self.refine(zs, facts, extra_terms, s.model(), timeout, t0)
            if r == z3.sat:
                return "sat", s.model()
            return "unknown", None
        finally:
            self.stats.seconds += time.time() - t0

    def refine(self, zs, facts, extra_terms, model, timeout, t0):
        """A model of finitely many instances: add the instances it violates, until none is left ('sat') or none can hold ('unsat')."""
        t1 = time.time()
        try:
            return self.refined(zs, facts, extra_terms, model, timeout, min(t0 + 20, t1 + self.refining))
        finally:
            self.refining -= time.time() - t1

    def refined(self, zs, facts, extra_terms, model, timeout, until):
        more, known = [], set()
        for _ in range(40):
            bad, complete = [], True
            for f in self.seen_facts:
                b, c = violated(f, model, 20 - len(bad))
                bad += b
                complete = complete and c
                if len(bad) >= 20:
                    break
            bad = [b for b in bad if b.get_id() not in known]
            if not bad:
                return ("sat" if complete else "unknown"), model
            if time.time() > until:
                return "unknown", model
            known.update(b.get_id() for b in bad)
            more += bad
            ground = self.expand(list(zs) + more, facts, extra_terms, spell=self.mixed, rounds=3)
            s = z3.SimpleSolver()
            s.set("timeout", timeout or self.timeout)
            s.set("random_seed", 1)
            s.add(*ground)
            r = s.check()
            self.stats.queries += 1
            if r == z3.unsat:
                if self.cvc5:
                    self.cross(s)
                return "unsat", None
            if r != z3.sat:
                return "unknown", None
            model = s.model()
        return "unknown", model

    def prove(self, hyps, facts, goal, extra_terms=()):
        """-> ('proved'|'refuted'|'unknown', backend, model)"""
        if goal is True or (T.is_z(goal) and z3.is_true(goal)):
            return "proved", "syntactic", None
        g = T.simp(goal) if T.is_z(goal) else goal
        if g is True:
            return "proved", "simplifier", None
        r, m = self.check(list(hyps) + [T.lnot(g)], facts, extra_terms)
        return {"unsat": "proved", "sat": "refuted", "unknown": "unknown"}[r], "z3", m

    def cross(self, solver):
        """Thorough tier: the same ground condition decided again by cvc5."""
        import subprocess

        text = "(set-logic ALL)\n" + solver.to_smt2()
        try:
            p = subprocess.run(["cvc5", "--tlimit=20000", "-q"], input=text, capture_output=True, text=True, timeout=40)
            ans = p.stdout.strip().splitlines()[0] if p.stdout.strip() else "unknown"
        except (subprocess.TimeoutExpired, FileNotFoundError):
            ans = "unknown"
        b = self.stats.backends
        b["cvc5:" + ans] = b.get("cvc5:" + ans, 0) + 1
        if ans == "sat":
            self.cvc5_disagreements.append(text)

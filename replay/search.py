"""Directed and random search for concrete inputs on which the code and its specification differ."""
import ast
import gzip
import os
import random
import time
import zlib

import atopspec as S
import build as B
import concrete as C
import cli_trials
import isolation_trials
import structs_trials as X
import workers
from concrete import Trial

CHECKERS = dict(X.CHECKERS)
CHECKERS.update(cli_trials.CHECKERS)
CHECKERS.update(isolation_trials.CHECKERS)


def check_any(t):
    """-> None or what is wrong with the code on this input."""
    if t.fn in CHECKERS:
        with C.limit(60):
            return CHECKERS[t.fn](t)
    return C.check_trial(t)

KINDS = [(v, False) for v in S.VERSIONS] + [(S.NEWEST, True)]


def literal(n):
    """The value of an expression of integer literals, or None."""
    if isinstance(n, ast.Constant):
        return n.value if isinstance(n.value, int) and not isinstance(n.value, bool) else None
    if isinstance(n, ast.BinOp):
        a, b = literal(n.left), literal(n.right)
        if a is None or b is None or abs(a) > 1 << 40 or abs(b) > 1 << 40:
            return None
        try:
            if isinstance(n.op, ast.Add):
                return a + b
            if isinstance(n.op, ast.Sub):
                return a - b
            if isinstance(n.op, ast.Mult):
                return a * b
            if isinstance(n.op, ast.LShift) and b < 40:
                return a << b
            if isinstance(n.op, ast.Pow) and 0 <= b < 40 and abs(a) < 100:
                return a ** b
            if isinstance(n.op, ast.FloorDiv):
                return a // b
        except (ArithmeticError, ValueError):
            pass
    return None


def mined_constants(files=None):
    """Integer constants in the sources (branch conditions often compare with them), with neighbours."""
    root = os.path.join(C.REPO, "atoparser")
    files = files or [os.path.join(root, n) for n in ("utils.py", "reader.py", "structs/shared.py", "parsers/atop_1_26.py")]
    out = set()
    for f in files:
        try:
            tree = ast.parse(open(f, encoding="utf-8").read())
        except (OSError, SyntaxError):
            continue
        for n in ast.walk(tree):
            x = literal(n)
            if x is not None and abs(x) < 1 << 33:
                out.update((x - 1, x, x + 1))
    return sorted(x for x in out if x >= 0)


def mined_texts():
    """Short texts in the code (conditions may compare names with them), with variations."""
    root = os.path.join(C.REPO, "atoparser")
    out = set()
    for n in ("utils.py", "parsers/atop_1_26.py"):
        try:
            tree = ast.parse(open(os.path.join(root, n), encoding="utf-8").read())
        except (OSError, SyntaxError):
            continue
        keys = {id(k) for d in ast.walk(tree) if isinstance(d, ast.Dict) for k in d.keys}
        for c in ast.walk(tree):
            if isinstance(c, ast.Constant) and isinstance(c.value, (str, bytes)) and len(c.value) <= 12 and id(c) not in keys:
                b = c.value if isinstance(c.value, bytes) else c.value.encode()
                out |= {b, b + b"0", b"x" + b}
    return sorted(out)


class Gen:
    def __init__(self, seed, hints=()):
        self.rng = random.Random(seed)
        self.consts = mined_constants()
        self.texts = mined_texts()
        self.hints = list(hints)
        self.i = 0
        self.fixed = None

    def kind(self):
        if self.fixed is not None:
            return self.fixed
        self.i += 1
        return KINDS[self.i % len(KINDS)] if self.rng.random() < 0.8 else self.rng.choice(KINDS)

    def header(self, v, unk, fields=None):
        return B.header_bytes(self.rng, v, B.random_unknown(self.rng) if unk else None, fields)

    def bytes_near(self, most):
        """A number of bytes near a constant of the code."""
        cs = [c for c in self.consts if 64 <= c <= most]
        return self.rng.choice(cs) if cs else 0

    def swell(self, s, chance=0.15):
        """Blocks that compress badly: as large as a constant of the code, whatever they hold."""
        r = self.rng
        names = [n for n, _ in s.blocks()]
        if r.random() < chance:
            for n in r.choice([names, [r.choice(names)], [r.choice(names)]]):
                s.least[n] = self.bytes_near(1 << 20) + r.choice([0, 0, 5, 100])
        hint = self.hint()
        if hint and r.random() < 0.5:
            for n in names:
                if 64 < hint.get("record", {}).get(n, 0) <= 1 << 20:
                    s.least[n] = hint["record"][n]

    def count(self, big=2000, unit=1 << 30):
        r = self.rng
        if r.random() < 0.03:
            return min(20000, self.bytes_near(8 << 20) // unit + r.choice([0, 1, 2]))
        if r.random() < 0.06:
            cs = [c for c in self.consts if c <= big]
            if cs:
                return r.choice(cs)
        return r.choice([0, 1, 1, 2, 3, 4, 7])

    def hint(self):
        return self.rng.choice(self.hints) if self.hints and self.rng.random() < 0.5 else None

    # ---- headers
    def t_header(self):
        r = self.rng
        v, unk = self.kind()
        h = bytearray(self.header(v, unk))
        m = r.randrange(8)
        if m == 0:
            h = h[: r.choice([0, 1, 3, 4, 5, 6, 8, 100, 426, 435, 440, 478, 479, r.randrange(480)])]
        elif m == 1:
            h[r.randrange(4)] ^= 1 << r.randrange(8)
        elif m == 2:
            h[4:6] = r.randrange(65536).to_bytes(2, "little")
        elif m == 3:
            self.break_length(h, v)
        elif m == 4:
            for _ in range(r.choice([1, 2, 3])):
                self.break_length(h, v)
            if r.random() < 0.5:  # two wrong lengths that make up for each other
                a, b = r.sample(S.LENGTH_FIELDS[v], 2)
                x = r.choice([1, 2, 8, 16, -1, -8])
                for (name, top), d in ((a, x), (b, -x)):
                    B.put(h, v, "Header", name, S.SIZES[v][top] + d)
                if r.random() < 0.3:
                    for name, top in (a, b):
                        B.put(h, v, "Header", name, S.SIZES[v][b[1] if name == a[0] else a[1]])
        elif m == 5:
            h = bytearray(r.randbytes(r.choice([0, 2, 4, 10, 480, 600])))
        hint = self.hint()
        if hint and len(h) == 480:
            for k, x in hint.get("header", {}).items():
                if B.has_field(v, "Header", k):
                    B.put(h, v, "Header", k, x)
            for off, x in hint.get("file_bytes", {}).items():
                if 0 <= off < 480:
                    h[off] = x
        kw = r.choice([{}, {"check_compatibility": True}, {"check_compatibility": False}])
        pre = r.randbytes(r.choice([0, 0, 3]))
        suf = r.randbytes(r.choice([0, 0, 5, 700])) if len(h) == 480 else b""
        return Trial("get_header", pre + bytes(h) + suf, len(pre), kwargs=kw)

    def break_length(self, h, v):
        r = self.rng
        name, top = r.choice(S.LENGTH_FIELDS[v])
        x = S.SIZES[v][top]
        cur = B.get(h, v, "Header", name)
        others = [S.SIZES[w][t] for w in S.VERSIONS for t in S.SIZES[w]]
        B.put(h, v, "Header", name, r.choice([x + 1, x - 1, 0, x + 8, x * 2, r.choice(others), cur ^ (1 << r.randrange(8 * S.field_at(v, "Header", name)[1]["size"]))]))

    def t_version(self):
        r = self.rng
        v, unk = self.kind()
        h = bytearray(self.header(v, unk))
        if r.random() < 0.5:
            h[4:6] = r.choice([r.randrange(65536), 0x8000 | r.choice([0, 1, 2, 3, 63, 64, 127]) << 8 | r.choice([0, 9, 10, 26, 99, 100, 127, 128, 138, 255])]).to_bytes(2, "little")
        names = [r.choice(X.VERSION_PROPERTIES) for _ in range(r.choice([1, 1, 2, 3, 5]))]
        return Trial("version", bytes(h), hversion=v, extra={"names": names, "how": r.choice(["get_header", "copy"])})

    def t_unknown(self):
        r = self.rng
        k = r.random()
        if k < 0.6:
            return self.t_version()
        if k < 0.8:
            return self.t_header()
        self.fixed = (S.NEWEST, True)
        try:
            return self.t_getter(r.choice(["get_record", "get_sstat", "get_tstat", "get_cstat"])) if k < 0.9 else self.t_generate()
        finally:
            self.fixed = None

    # ---- getters
    def t_getter(self, fn):
        r = self.rng
        v, unk = self.kind()
        if fn == "get_cstat" and not S.HAS_CGROUPS[v]:
            v, unk = r.choice([("2.11", False), ("2.12", False), ("2.12", True)])
        size = S.SIZES[v]
        fields = {}
        stride = cstride = None
        if fn == "get_tstat" and r.random() < 0.3:
            stride = size["TStat"] + r.choice([1, 8, 64])
            fields["pstatlen" if v == "1.26" else "tstatlen"] = stride
        if fn == "get_cstat" and r.random() < 0.3:
            cstride = size["CStat"] + 8
            fields["cstatlen"] = cstride
        h = self.header(v, unk, fields)
        s = B.Sample(r, v, tasks=self.count(unit=size["TStat"]) if fn == "get_tstat" else 1,
                     cgroups=self.count(400, size["CStat"]) if fn == "get_cstat" else 1, stride=stride, cstride=cstride,
                     sextra=self.bytes_near(8 << 20) if r.random() < 0.03 else r.choice([0, 0, 0, 1, 100]))
        m = r.randrange(10)
        if m == 0:
            s.sstat = s.sstat[: r.choice([size["SStat"] - 1, 0, 1, size["SStat"] // 2])]
        if m in (0, 1):
            s.tasks = s.tasks[: max(0, len(s.tasks) - r.choice([1, size["TStat"], 8]))]
            s.pids = s.pids[: max(0, len(s.pids) - r.choice([1, 4]))]
        if m == 2:
            s.cstats = s.cstats[: max(0, len(s.cstats) - r.choice([1, 50, 300, 432]))]
        if m == 3:
            s.tasks += B.pattern(r, r.choice([1, 100, size["TStat"]]))
            s.pids += b"abcd"
        if m == 4:
            s.count += r.choice([1, 2])
        if m == 5:
            s.count = max(0, s.count - 1)
            s.ncgroups = max(0, s.ncgroups - 1)
        if m == 6:
            self.damage(s)
        hint = self.hint()
        if hint:
            for k, x in hint.get("record", {}).items():
                if k in ("scomplen", "pcomplen", "ccomplen", "icomplen", "ncgroups", "ndeviat") or x > 5000:
                    if k in ("ndeviat", "nlist", "ncgroups") and x <= 5000:
                        pass
                    else:
                        continue
                if B.has_field(v, "Record", k):
                    s.fields[k] = x
        self.swell(s)
        parts = s.parts()
        rec = parts[0][1]
        need = {"get_sstat": ("scomplen",), "get_tstat": ("pcomplen",), "get_cstat": ("ccomplen", "icomplen"), "get_record": ("record",)}[fn]
        body = b"".join(b for n, b in parts if n in need)
        pre = b"\0" * self.bytes_near(8 << 20) if r.random() < 0.03 else r.randbytes(r.choice([0, 0, 5, 480]))
        suf = r.randbytes(r.choice([0, 0, 1, 100, 96, 97]))
        data = pre + body + suf
        if m in (7,):
            data = pre + body[: r.choice([0, 1, len(body) - 1, len(body) // 2, r.randrange(len(body) + 1)])]
        if fn == "get_record":
            return Trial(fn, data, len(pre), h, v)
        return Trial(fn, data, len(pre), h, v, rec)

    def damage(self, s):
        r = self.rng
        name = r.choice([n for n, _ in s.blocks()])
        k = r.randrange(6)

        def f(comp):
            if k == 5:  # a block of next to nothing
                return comp[:r.choice([1, 1, 2, 3, 8])]
            if k == 0:
                return b""
            if k == 1:
                return comp[:-1]
            if k == 2:
                i = r.randrange(len(comp))
                return comp[:i] + bytes([comp[i] ^ 0x55]) + comp[i + 1:]
            if k == 3:
                return comp + b"\0" * r.choice([1, 9])
            if k == 4 and r.random() < 0.5:  # other containers than zlib's
                raw = zlib.decompress(comp)
                return gzip.compress(raw, 1) if r.random() < 0.5 else B.compress(raw, 1, -15)
            return r.randbytes(len(comp))

        s.damage[name] = f

    # ---- whole logs
    def counters(self, buf, v, tag, at=0, large=0.03):
        """Counters of arrays are not negative, and mostly small."""
        r = self.rng
        for f in S.fields(v, tag):
            counter = S.counter_of(v, tag, f)
            if counter:
                off, cf = S.locate(v, tag, counter)
                if r.random() < large:
                    buf[at + off + cf["size"] - 1] &= 0x7F
                else:
                    buf[at + off:at + off + cf["size"]] = r.choice([0, 1, 1, 2, 3, 5]).to_bytes(cf["size"], "little")
            if f["kind"] == "struct" and "count" not in f:
                self.counters(buf, v, f["struct"], at + f["off"], large)

    def log(self, cut=False, damage=False, n=None):
        r = self.rng
        v, unk = self.kind()
        h = self.header(v, unk)
        n = r.choice([0, 1, 2, 2, 3, 4]) if n is None else n
        if r.random() < 0.03:
            n = r.choice([8, 12, 20] + [c + 1 for c in self.consts if 4 < c < 300])
        samples = [B.Sample(r, v) for _ in range(n)]
        for s in samples:
            s.sstat = bytearray(s.sstat)
            self.counters(s.sstat, v, S.LAYOUTS[v]["top"]["SStat"], large=r.choice([0.01, 0.01, 0.01, 0.3]))
            s.sstat = bytes(s.sstat)
        if samples:
            self.swell(r.choice(samples))
        if n > 1 and r.random() < 0.2:  # something a sample has in common with the one before it
            i = r.randrange(1, n)
            a, b = samples[i - 1], samples[i]
            k = r.randrange(4)
            if k == 0:
                samples[i] = a
            elif k == 1:
                b.sstat = a.sstat
            elif k == 2:
                b.tasks, b.count = a.tasks, a.count
            else:
                b.record0 = a.record0
        if damage and samples:
            for _ in range(r.choice([1, 1, 2])):
                s = r.choice(samples)
                k = r.randrange(8)
                if k == 0:
                    s.sstat = s.sstat[:-1]
                elif k == 1:
                    s.count += 1
                elif k == 2:
                    s.tasks = s.tasks[:-1]
                elif k == 3:
                    s.pids = s.pids[:-1]
                else:
                    self.damage(s)
        if samples and r.random() < 0.2:
            s = r.choice(samples)
            for k in r.sample([f["name"] for f in S.LAYOUTS[v]["structs"][S.LAYOUTS[v]["top"]["Record"]]["fields"] if f["kind"] == "int" and "count" not in f], 2):
                if k not in ("scomplen", "pcomplen", "ccomplen", "icomplen", "ndeviat", "ncgroups") and not (k == "nlist" and v == "1.26"):
                    s.fields[k] = r.choice([0, 1, 0xFFFFFFFF, 255, 65535])
        hint = self.hint()
        if hint and samples:
            s = r.choice(samples)
            for k, x in hint.get("record", {}).items():
                if k not in ("scomplen", "pcomplen", "ccomplen", "icomplen", "ndeviat", "ncgroups", "nlist") and B.has_field(v, "Record", k):
                    s.fields[k] = x
        pieces = [h]
        for s in samples:
            pieces += [b for _, b in s.parts()]
        data = b"".join(pieces)
        if not cut and r.random() < 0.25:  # a record that announces nothing, then more
            z = bytearray(B.pattern(r, S.SIZES[v]["Record"]))
            B.put(z, v, "Record", "scomplen", 0)
            i = r.randrange(len(samples) + 1)
            data = h + b"".join(s.bytes() for s in samples[:i]) + bytes(z) + b"".join(s.bytes() for s in samples[i:])
        if cut and len(pieces) > 1:
            ends, at = [], 0
            for p in pieces:
                at += len(p)
                ends.append(at)
            base = r.choice(ends)
            sizes = S.SIZES[v]["Record"]
            c = r.choice([base + r.choice([-1, 0, 1, 2, 4, 8, 15, 16, 17, 18, 19, 20, 24, sizes - 1, sizes]), r.randrange(480, len(data) + 1)])
            data = data[: max(480, min(len(data), c))]
        return v, h, data, len(samples)

    def t_generate(self, cut=None, damage=None):
        r = self.rng
        cut = r.random() < 0.4 if cut is None else cut
        damage = r.random() < 0.3 if damage is None else damage
        v, h, data, n = self.log(cut, damage)
        kw = {}
        if r.random() < 0.6:
            kw["raise_on_truncation"] = r.random() < 0.5
        if r.random() < 0.5:
            kw["max_samples"] = r.choice([0, 1, n - 1, n, n + 1, 2, 100])
            if kw["max_samples"] < 0:
                kw["max_samples"] = 0
        hint = self.hint()
        if hint and "max_samples" in hint and hint["max_samples"] < 50:
            kw["max_samples"] = hint["max_samples"]
        if r.random() < 0.35:
            return Trial("generate_statistics", data, 0, kwargs=kw)
        pre = r.choice([0, 480])
        return Trial("generate_statistics", data if pre else data[480:], pre, h, v, kwargs=kw)

    def t_long(self, n, kwargs=None):
        """More samples than anyone writes by hand: only counted."""
        return Trial("count", extra={"samples": n}, kwargs=kwargs, hversion="1.26")


    # ---- structures
    def blob(self, size):
        """Bytes of a structure: patterned, random, extreme or mostly zero."""
        r = self.rng
        k = r.randrange(6)
        if k == 0:
            return bytearray(r.randbytes(size))
        if k == 1:
            return bytearray(b"\xff" * size)
        if k == 2:
            b = bytearray(size)
            for _ in range(r.randrange(1, 20)):
                b[r.randrange(size)] = r.randrange(256)
            return b
        return bytearray(B.pattern(r, size))

    def text(self, cap):
        r = self.rng
        k = r.randrange(7)
        t = r.choice(self.texts) if self.texts and r.random() < 0.1 else [b"", b"a", b"sda1", "h\u00e9llo \u20ac".encode(), b"ab\xff\xfecd", r.randbytes(cap), b"x" * cap, b"\xe2\x82"][r.randrange(8)]
        if k == 0:
            t = b"(" + r.randbytes(max(0, cap - 3)).replace(b"\0", b"\xc3") + b"\xf0"
        t = t[:cap]
        return t + (b"\0" + r.randbytes(cap) if r.random() < 0.5 else b"\0" * cap)[: cap - len(t)]

    def fill(self, buf, v, tag, at=0, depth=0):
        """Sensible counters and texts inside a structure, recursively."""
        r = self.rng
        for f in S.fields(v, tag):
            counter = S.counter_of(v, tag, f)
            if counter:
                off, cf = S.locate(v, tag, counter)
                cap = f["count"]
                x = r.choice([0, 1, 2, 3, cap - 1, cap, cap + 1, 2 * cap, (1 << (8 * cf["size"] - 1)) - 1, r.randrange(cap + 1)] + [c for c in self.consts if c < 3 * cap][:50])
                buf[at + off:at + off + cf["size"]] = x.to_bytes(cf["size"], "little", signed=False)
        for f in S.fields(v, tag):
            if f["kind"] == "char" and r.random() < 0.5:
                n = f.get("count", 1)
                buf[at + f["off"]:at + f["off"] + n] = self.text(n)
            if f["kind"] == "struct":
                n = f.get("count", 1)
                for i in range(min(n, 3)):
                    self.fill(buf, v, f["struct"], at + f["off"] + i * f["size"], depth + 1)

    def pick_pair(self):
        self.i += 1
        return X.PAIR_LIST[self.i % len(X.PAIR_LIST)] if self.rng.random() < 0.8 else self.rng.choice(X.PAIR_LIST)

    def t_layout(self):
        cls, v, tag = self.pick_pair()
        size = S.LAYOUTS[v]["structs"][tag]["size"]
        return Trial("layout", bytes(self.blob(size)), hversion=v, extra={"cls": cls.__name__, "module": cls.__module__, "tag": tag})

    def t_dict(self, part):
        r = self.rng
        if r.random() < 0.1:
            v = r.choice([v for v in S.VERSIONS if S.HAS_CGROUPS[v]])
            buf = self.blob(S.SIZES[v]["CStat"])
            self.fill(buf, v, S.LAYOUTS[v]["top"]["CStat"])
            n = r.choice([0, 1, 2, 5, 100])
            return Trial("to_dict", bytes(buf) + bytes(self.blob(4 * n) if n else b""), hversion=v, extra={"part": part, "chainer": True, "ids": n})
        cls, v, tag = self.pick_pair()
        buf = self.blob(S.LAYOUTS[v]["structs"][tag]["size"])
        self.fill(buf, v, tag)
        return Trial("to_dict", bytes(buf), hversion=v, extra={"cls": cls.__name__, "module": cls.__module__, "tag": tag, "part": part})

    def view_sample(self, ntasks):
        r = self.rng
        v = S.VIEW_VERSION
        parts = [bytearray(self.header(v, False)), self.blob(S.SIZES[v]["Record"]), self.blob(S.SIZES[v]["SStat"])]
        B.put(parts[0], v, "Header", "supportflags", r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 0xFFFF, r.randrange(65536)]))
        self.fill(parts[2], v, "sstat")
        for path, cap in (("dsk.dsk", None), ("dsk.lvm", None), ("dsk.mdd", None), ("intf.intf", None)):
            off, f = S.field_at(v, "SStat", path)
            name, nf = S.locate(v, f["struct"], "name")
            n = r.choice([0, 1, 2, 3, f["count"] - 1, f["count"], None])
            if n is None:
                continue
            for i in range(f["count"]):
                at = off + i * f["size"] + name
                t = self.text(nf["count"])
                if i < n and t[:1] == b"\0":
                    t = b"d" + t[1:]
                if i == n:
                    t = b"\0" + t[1:]
                parts[2][at:at + nf["count"]] = t
        B.put(parts[2], v, "SStat", "cpu.nrcpu", r.choice([0, 1, 2, 63, 64, 65, 100, 1 << 40, r.randrange(70)]))
        for _ in range(ntasks):
            t = self.blob(S.SIZES[v]["TStat"])
            self.fill(t, v, "pstat")
            parts.append(t)
        return b"".join(bytes(p) for p in parts)

    def t_view(self, names):
        self.i += 1
        name = names[self.i % len(names)]
        n = self.rng.choice([0, 1, 2, 3, 5]) if name in S.TASK_VIEWS else self.rng.choice([0, 0, 2])
        return Trial("view", self.view_sample(n), extra={"view": name})


    # ---- the command
    NAMES = ["a.log", "b", "c.gz", "d.log.gz", "archive.gz/e.log", "x.gz.d/y.gz", "gz", ".gz", "atop_20240101", "with space.log", "\u00fc.log", "f.log.gz.bak", "g.GZ"]

    def t_main(self, mode):
        """mode: plain (C15), views (C16) or files (C17)"""
        r = self.rng
        views = None
        if mode == "views" or mode == "files" and r.random() < 0.4:
            n = r.choice([1, 1, 1, 2, 3])
            views = [r.choice(S.VIEW_NAMES) for _ in range(n)]
            if mode == "views":
                self.i += 1
                views[0] = S.VIEW_NAMES[self.i % len(S.VIEW_NAMES)]
        count = 1 if mode != "files" else r.choice([1, 2, 2, 3])
        files = []
        for name in r.sample(self.NAMES, count):
            if views is not None and (mode == "views" and r.random() < 0.75 or mode == "files" and r.random() < 0.5):
                self.fixed = ("1.26", False)
            elif mode == "plain" and r.random() < 0.3:
                self.fixed = r.choice([("2.11", False), ("2.12", False), (S.NEWEST, True)])
            try:
                data = self.log(cut=r.random() < (0.2 if mode == "files" else 0.4), damage=mode == "plain" and r.random() < 0.2)[2]
            finally:
                self.fixed = None
            files.append({"name": name, "gz": r.choice([False, False, False, "plain", "named", "members"]), "data": C.pack(data)})
        order = [f["name"] for f in files]
        if mode == "files" and r.random() < 0.3:
            order.append(r.choice(order))
        flags = {"pretty": r.random() < 0.5, "tstats": r.random() < 0.5, "cstats": r.random() < 0.5}
        extra = {"files": files, "order": order, "views": views, **flags}
        if mode != "files" and r.random() < 0.3:
            extra["order"] = order[:1]
            extra["api"] = {"parseables": views, "pretty_print": flags["pretty"], "show_tstats": flags["tstats"], "show_cstats": flags["cstats"]}
            if r.random() < 0.3:
                extra["api"] = {} if views is None else {"parseables": views}
                extra.update({"pretty": True, "tstats": False, "cstats": False})
            return Trial("main", extra=extra)
        opts = []
        if flags["pretty"]:
            opts.append([r.choice(["-p", "--pretty-print", "--pretty"])])
        if flags["tstats"]:
            opts.append(["--tstats"])
        if flags["cstats"]:
            opts.append(["--cstats"])
        if views:
            opts.append([r.choice(["-P", "--parseables"])] + views)
        r.shuffle(opts)
        k = r.randrange(len(opts) + 1)
        if k and opts[k - 1][0] in ("-P", "--parseables"):
            k = 0
        argv = [a for o in opts[:k] for a in o] + order + [a for o in opts[k:] for a in o]
        extra["argv"] = argv
        return Trial("main", extra=extra)

    def t_isolation(self):
        r = self.rng
        n = r.choice([2, 2, 3, 4])
        logs, kws = [], []
        same = self.kind() if r.random() < 0.5 else None
        for _ in range(n):
            self.fixed = same if same is not None and r.random() < 0.8 else None
            if self.fixed is None and r.random() < 0.3:
                self.fixed = ("1.26", False)
            try:
                if logs and r.random() < 0.15:
                    logs.append(logs[0])
                else:
                    logs.append(C.pack(self.log(cut=r.random() < 0.2, damage=r.random() < 0.2, n=r.choice([1, 2, 3]))[2]))
            finally:
                self.fixed = None
            kws.append(r.choice([{}, {"raise_on_truncation": False}, {"max_samples": r.choice([1, 2])}]))
        return Trial("isolation", extra={"logs": logs, "kwargs": kws, "seed": r.randrange(1 << 30)})


GENERATORS = {
    "C18": lambda g: g.t_isolation(),
    "C15": lambda g: g.t_main("plain"),
    "C16": lambda g: g.t_main("views"),
    "C17": lambda g: g.t_main("files"),
    "C10": lambda g: g.t_layout(),
    "C11": lambda g: g.t_dict("numbers"),
    "C12": lambda g: g.t_dict("limits"),
    "C13": lambda g: g.t_view(list(S.SYSTEM_VIEWS)),
    "C14": lambda g: g.t_view(list(S.TASK_VIEWS)),
    "C01": lambda g: g.t_header(),
    "C02": lambda g: g.t_unknown(),
    "C03": lambda g: g.t_header(),
    "C04": lambda g: g.t_getter("get_record"),
    "C05": lambda g: g.t_getter("get_sstat"),
    "C06": lambda g: g.t_getter("get_tstat"),
    "C07": lambda g: g.t_getter("get_cstat"),
    "C08": lambda g: g.t_generate(),
    "C09": lambda g: g.t_generate(cut=True) if g.rng.random() < 0.7 else g.t_generate(damage=True),
}


# once, by one worker, where the proof failed (and in the thorough tier)
FIRST = {
    "C08": lambda g: [g.t_long(S.MAX_SAMPLES + 1)],
}


class Found:
    def __init__(self, trial, what):
        self.trial, self.what = trial, what

    def to_json(self):
        return self.trial.to_json()


def describe(t):
    if t.fn == "main":
        return f"command {t.extra.get('argv', t.extra.get('api'))} on {[(f['name'], 'gzip' if f['gz'] else 'plain') for f in t.extra['files']]}"
    if t.fn == "isolation":
        return f"{len(t.extra['logs'])} logs interleaved, schedule {t.extra['seed']}"
    return f"{t.fn}: file of {len(t.file or b'')} bytes at {t.pos}, version {t.hversion}, {t.kwargs}"


def search(prop, seed, budget, hints=(), first=False):
    """-> (Found or None, number of trials, sample descriptions)"""
    g = Gen(seed, hints)
    t0 = time.time()
    n = 0
    sample = []
    todo = list(FIRST[prop](g)) if first and prop in FIRST else []
    while time.time() - t0 < budget:
        t = todo.pop(0) if todo else GENERATORS[prop](g)
        n += 1
        if len(sample) < 3:
            sample.append(describe(t))
        try:
            d = check_any(t)
        except (S.Require, C.Slow):
            continue
        if d:
            return Found(t, d), n, sample
    return None, n, sample


def _worker(args):
    f, n, sample = search(*args)
    return (None if f is None else (f.trial.to_json(), f.what)), n, sample


class Packed:
    def __init__(self, j, what):
        self.j, self.what = j, what

    def to_json(self):
        return self.j


class Search:
    """Searches in parallel; one worker begins with the long trials."""

    def __init__(self, prop, seed, budget, hints, n, tier, first=False):
        n = max(1, min(n, os.cpu_count() or 1))
        self.pool = workers.Workers(_worker, [(prop, seed * 1000 + i, budget, hints, first and i == 0) for i in range(n)], n)
        self.end = time.time() + budget + 90  # a trial may have begun just before the budget ran out
        self.found, self.n, self.sample = None, 0, []

    def ready(self, wait=0.0):
        for _, ok, r in self.pool.poll(wait):
            if not ok:
                continue
            f, n, sample = r
            self.n += n
            self.sample = self.sample or sample
            if f and not self.found:
                self.found = Packed(*f)
        return bool(self.found) or not self.pool.busy() or time.time() > self.end

    def get(self):
        while not self.ready(0.03):
            pass
        self.stop()
        return self.found, self.n, self.sample

    def stop(self):
        self.pool.stop()

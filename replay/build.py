"""Atop logs and structures built from the C layouts, for the concrete runs."""
import random
import struct
import zlib

import atopspec as S

_PATTERN = random.Random(7).randbytes(4093)


def pattern(rng, size):
    """Bytes that differ from offset to offset but compress well."""
    k = rng.randrange(len(_PATTERN))
    block = _PATTERN[k:] + _PATTERN[:k]
    return (block * (size // len(block) + 1))[:size]


def varied(rng, size):
    """Mostly patterned bytes; sometimes all the same or mostly zero."""
    k = rng.randrange(16)
    if k == 0:
        return bytes(size)
    if k == 1:
        return b"\xff" * size
    if k == 2 and size:
        out = bytearray(size)
        for _ in range(8):
            out[rng.randrange(size)] = rng.randrange(256)
        return bytes(out)
    return pattern(rng, size)


def compress(raw, level, wbits=15):
    """A zlib stream; other levels and window sizes give other headers."""
    c = zlib.compressobj(level, zlib.DEFLATED, wbits)
    return c.compress(raw) + c.flush()


def padded(comp, size):
    """The same zlib stream, with empty stored blocks in front until it has about the size."""
    return comp[:2] + b"\0\0\0\xff\xff" * max(0, -(-(size - len(comp)) // 5)) + comp[2:]


def put(buf, version, top, path, value):
    off, f = S.field_at(version, top, path)
    buf[off:off + f["size"]] = (value % (1 << (8 * f["size"]))).to_bytes(f["size"], "little")


def get(buf, version, top, path):
    off, f = S.field_at(version, top, path)
    return int.from_bytes(buf[off:off + f["size"]], "little", signed=f.get("signed", False))


def aversion(version, bit=0):
    a, b = S.NUMBERS[version]
    return (bit << 15) | (a << 8) | b


def random_unknown(rng):
    while True:
        x = rng.choice([rng.randrange(65536), (2 << 8) | rng.randrange(256), (rng.randrange(128) << 8) | rng.randrange(13)])
        if ((x >> 8) & 127, x & 255) not in S.NUMBERS.values():
            return x


def header_bytes(rng, version, av=None, fields=None):
    buf = bytearray(varied(rng, S.HEADER_SIZE))
    put(buf, version, "Header", "magic", S.MAGIC)
    put(buf, version, "Header", "aversion", aversion(version, rng.randrange(2)) if av is None else av)
    for name, top in S.LENGTH_FIELDS[version]:
        put(buf, version, "Header", name, S.SIZES[version][top])
    for k, x in (fields or {}).items():
        put(buf, version, "Header", k, x)
    return bytes(buf)


class Sample:
    """One sample: record fields and the decompressed blocks."""

    def __init__(self, rng, version, tasks=None, cgroups=None, stride=None, cstride=None, sextra=0, fields=None, level=1):
        self.version = version
        size = S.SIZES[version]
        n = rng.randrange(4) if tasks is None else tasks
        stride = size["TStat"] if stride is None else stride
        self.sstat = varied(rng, size["SStat"] + sextra)
        tasks = [varied(rng, stride) for _ in range(n)]
        if n > 1 and rng.random() < 0.1:
            tasks[rng.randrange(1, n)] = tasks[0]
        self.tasks = b"".join(tasks)
        self.count = n
        self.cstats, self.pids, self.ncgroups = b"", b"", 0
        if S.HAS_CGROUPS[version]:
            k = rng.randrange(4) if cgroups is None else cgroups
            self.ncgroups = k
            for i in range(k):
                if not i or rng.random() > 0.1:
                    c = bytearray(varied(rng, size["CStat"]))
                cl = size["CStat"] if cstride is None else cstride
                extra = rng.choice([0, 0, 8, 16, 40, 1, 3, 5, 12]) + cl - size["CStat"]
                procs = rng.choice([0, 1, 2, 5]) if rng.random() < 0.99 else 1200
                put(c, version, "CStat", "gen.structlen", size["CStat"] + extra)
                put(c, version, "CStat", "gen.nprocs", procs)
                self.cstats += bytes(c) + pattern(rng, extra)
                self.pids += varied(rng, 4 * procs)
        self.fields = dict(fields or {})
        self.level = level if rng.random() < 0.8 else rng.choice([-1, 0, 1, 6, 9])
        self.wbits = 15 if rng.random() < 0.9 else rng.randrange(9, 16)
        self.record0 = varied(rng, size["Record"])
        self.damage = {}
        self.least = {}  # sizes of compressed blocks

    def blocks(self):
        out = [("scomplen", self.sstat), ("pcomplen", self.tasks)]
        if S.HAS_CGROUPS[self.version]:
            out += [("ccomplen", self.cstats), ("icomplen", self.pids)]
        return out

    def parts(self):
        rec = bytearray(self.record0)
        v = self.version
        data = []
        for name, raw in self.blocks():
            comp = compress(raw, self.level, self.wbits)
            if name in self.least:
                comp = padded(comp, self.least[name])
            if name in self.damage:
                comp = self.damage[name](comp)
            put(rec, v, "Record", name, len(comp))
            data.append((name, comp))
        put(rec, v, "Record", "nlist" if v == "1.26" else "ndeviat", self.count)
        if v != "1.26":
            for other in ("nlist", "totproc", "totrun", "totslpi"):
                if has_field(v, "Record", other):
                    put(rec, v, "Record", other, self.count + rng_small(rec))
        if S.HAS_CGROUPS[v]:
            put(rec, v, "Record", "ncgroups", self.ncgroups)
        for k, x in self.fields.items():
            put(rec, v, "Record", k, x)
        return [("record", bytes(rec))] + data

    def bytes(self):
        return b"".join(b for _, b in self.parts())


def rng_small(rec):
    """A small number that depends on the record (so that counts are not mixed up by accident)."""
    return 1 + rec[30] % 3


def log_bytes(header, samples, end=b""):
    return header + b"".join(s.bytes() for s in samples) + end


def has_field(version, top, name):
    try:
        S.field_at(version, top, name)
        return True
    except StopIteration:
        return False

"""Concrete runs of the real functions beside their specification functions."""
import base64
import ctypes
import io
import json
import os
import signal
import struct
import sys
import zlib

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ATOPARSER_REPO", "/repo")
for _p in (os.path.join(HERE, "replay"), os.path.join(HERE, "spec"), REPO):
    if _p not in sys.path:
        sys.path.insert(0, _p)

import atopspec as S  # noqa: E402

from atoparser import utils as U  # noqa: E402


class Slow(Exception):
    pass


class limit:
    """Wall clock limit for one concrete run."""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        def stop(*_):
            raise Slow()

        self.old = signal.signal(signal.SIGALRM, stop)
        signal.setitimer(signal.ITIMER_REAL, self.seconds)

    def __exit__(self, *_):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


_SIG = {}


def layout_sig(cls):
    if cls not in _SIG:
        def go(c):
            if issubclass(c, ctypes.Structure):
                fs = []
                for k in reversed(c.__mro__):
                    for f in k.__dict__.get("_fields_", ()):
                        fs.append((f[0], getattr(c, f[0]).offset, go(f[1])))
                return ("struct", ctypes.sizeof(c), tuple(fs))
            if issubclass(c, ctypes.Array):
                return ("array", c._length_, go(c._type_))
            return ("simple", c._type_, ctypes.sizeof(c))

        _SIG[cls] = hash(go(cls))
    return _SIG[cls]


def canon(x):
    """Everything observable of a value, as plain comparable data."""
    if isinstance(x, ctypes.Structure):
        return ("struct", layout_sig(type(x)), zlib.crc32(bytes(x)), bytes(x) if ctypes.sizeof(x) < 5000 else bytes(x)[:64])
    if isinstance(x, ctypes.Array):
        return ("array", layout_sig(type(x)), bytes(x))
    if isinstance(x, float):
        return ("float", struct.pack("<d", x))
    if isinstance(x, bool) or x is None or isinstance(x, (int, str, bytes)):
        return (type(x).__name__, x)
    if isinstance(x, list):
        return ("list", tuple(canon(y) for y in x))
    if isinstance(x, tuple):
        return ("tuple", tuple(canon(y) for y in x))
    if isinstance(x, dict):
        return ("dict", tuple((k, canon(y)) for k, y in x.items()))
    if isinstance(x, BaseException):
        return ("raise", type(x))
    if hasattr(x, "cstat") and hasattr(x, "proclist"):
        return ("chainer", canon(x.cstat), canon(x.proclist))
    return ("object", type(x).__name__, repr(x))


def same(a, b):
    """Equality of canonical data; a raised subclass satisfies the specified exception."""
    if isinstance(a, tuple) and isinstance(b, tuple) and a[:1] == b[:1] == ("raise",):
        return issubclass(a[1], b[1])
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def show(c, depth=0):
    s = repr(c)
    return s if len(s) < 400 else s[:390] + "..."


def run(fn, args, kwargs):
    try:
        return ("value", fn(*args, **kwargs))
    except S.Require:
        raise
    except Exception as e:  # noqa
        return ("raise", type(e), str(e)[:200])


def make_header(data, version):
    return S.HEADERS[version].from_buffer_copy(data)


def drain(gen, limit_n=100000):
    """Samples as they are handed out, the same after iteration ended, and the end."""
    now, kept = [], []
    end = ("stop",)
    try:
        for item in gen:
            now.append(canon(item))
            kept.append(item)
            if len(now) >= limit_n:
                break
    except S.Require:
        raise
    except Exception as e:  # noqa
        end = ("raise", type(e))
    return tuple(now), tuple(canon(x) for x in kept), end


# ------------------------------------------------------------------ trials
def pack(b):
    return base64.b64encode(zlib.compress(b)).decode()


def unpack(s):
    return zlib.decompress(base64.b64decode(s))


class Trial:
    """A call of one function under contract: everything needed to repeat it."""

    def __init__(self, fn, file=None, pos=0, header=None, hversion=None, record=None, kwargs=None, extra=None, note=""):
        self.fn, self.file, self.pos, self.header, self.hversion, self.record = fn, file, pos, header, hversion, record
        self.kwargs, self.extra, self.note = dict(kwargs or {}), extra or {}, note

    def to_json(self):
        return {"fn": self.fn, "file": None if self.file is None else pack(self.file), "pos": self.pos,
                "header": None if self.header is None else pack(self.header), "hversion": self.hversion,
                "record": None if self.record is None else pack(self.record), "kwargs": self.kwargs, "extra": self.extra, "note": self.note}

    @staticmethod
    def from_json(d):
        return Trial(d["fn"], None if d["file"] is None else unpack(d["file"]), d["pos"], None if d["header"] is None else unpack(d["header"]),
                     d["hversion"], None if d["record"] is None else unpack(d["record"]), d["kwargs"], d["extra"], d["note"])


SPEC = {n: getattr(S, n) for n in ("get_header", "get_record", "get_sstat", "get_tstat", "get_cstat", "generate_statistics")}


def one_side(t, fn):
    f = io.BytesIO(t.file)
    f.seek(t.pos)
    args = [f]
    h = r = None
    if t.header is not None:
        h = make_header(t.header, t.hversion)
        args.append(h)
    if t.record is not None:
        r = S.RECORDS[t.hversion].from_buffer_copy(t.record)
        args.append(r)
    res = run(fn, args, t.kwargs)
    raising = res[0] == "raise"
    if t.fn == "generate_statistics" and not raising:
        now, kept, end = drain(res[1])
        res = ("yields", now, end)
        raising = end[0] == "raise"
        if now != kept:
            res = ("yields", now, end, "samples changed after they were handed out")
    elif not raising:
        res = ("value", canon(res[1]))
    else:
        res = res[:2]
    frame = (f.tell() if not raising else None, None if h is None else bytes(h), None if r is None else bytes(r), f.getvalue() == t.file)
    return res, frame


def ended_by_damage(t):
    """Iteration ended at a damaged block: where in it the file is then is nobody's business."""
    if t.fn != "generate_statistics" or t.kwargs.get("raise_on_truncation", True):
        return False
    t2 = Trial(t.fn, t.file, t.pos, t.header, t.hversion, t.record, dict(t.kwargs, raise_on_truncation=True), t.extra)
    return one_side(t2, SPEC[t.fn])[1][0] is None


def check_trial(t):
    """-> None if code and specification agree, else a description of the difference."""
    with limit(20):
        spec_res = one_side(t, SPEC[t.fn])
    try:
        with limit(20):
            code_res = one_side(t, getattr(U, t.fn))
    except Slow:
        return f"{t.fn} did not end within 20 s; specified: {show(spec_res[0])}"
    if not same(code_res[0], spec_res[0]):
        return f"{t.fn}: got {diff(code_res[0], spec_res[0])}"
    if code_res[1] != spec_res[1] and not (code_res[1][1:] == spec_res[1][1:] and ended_by_damage(t)):
        return f"{t.fn}: effect on file position, header or record differs: got {show(code_res[1])}, specified {show(spec_res[1])}"
    return None


def diff(a, b, path=""):
    """First difference between two canonical values."""
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == b[0] and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if not same(x, y):
                return diff(x, y, f"{path}.{i}")
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) != len(b):
        return f"at {path or 'top'}: {len(a)} entries instead of {len(b)}: {show(a)} instead of {show(b)}"
    return f"at {path or 'top'}: {show(a)} instead of {show(b)}"

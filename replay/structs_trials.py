"""Concrete runs on structures: member access (C10), dictionaries (C11, C12), views (C13, C14)."""
import ctypes
import io
import zlib
import json

import atopspec as S
import concrete as C
import structures as ST

from atoparser import utils as U
from atoparser.parsers import atop_1_26 as parsers

PAIR_LIST = ST.structure_pairs()


def member_diff(cls, v, tag, data):
    """First difference between the members ctypes reads and those of the C layout."""
    want_size = S.LAYOUTS[v]["structs"][tag]["size"]
    if ctypes.sizeof(cls) != want_size:
        return f"sizeof({cls.__name__}) is {ctypes.sizeof(cls)}, struct {tag} of atop {v} has {want_size} bytes"
    obj = cls.from_buffer_copy(data)
    names = [f[0] for f in ST.class_fields(cls)]
    want_names = [f["name"] for f in S.fields(v, tag)]
    if names != want_names:
        return f"members of {cls.__name__}: {first_diff(names, want_names)} (struct {tag} of atop {v})"
    for f in S.fields(v, tag):
        got = plain(getattr(obj, f["name"]))
        if f["kind"] == "char":
            want = plain(S.bytes_at(obj, f["off"], f))
        elif f["kind"] == "struct":
            n = f.get("count", 1)
            want = data[f["off"]:f["off"] + n * f["size"]]
        elif "count" in f:
            want = [plain(S.number_at(obj, f["off"] + i * f["size"], f)) for i in range(f["count"])]
        else:
            want = plain(S.number_at(obj, f["off"], f))
        if got != want:
            return f"{cls.__name__}.{f['name']} is {C.show(got)}, the bytes of struct {tag} of atop {v} hold {C.show(want)}"
    return None


def first_diff(a, b):
    for i in range(max(len(a), len(b))):
        x, y = (a[i] if i < len(a) else None), (b[i] if i < len(b) else None)
        if x != y:
            return f"{x!r} instead of {y!r} at place {i}"


def plain(x):
    if isinstance(x, ctypes.Structure):
        return bytes(x)
    if isinstance(x, ctypes.Array):
        if issubclass(x._type_, ctypes.Structure):
            return bytes(x)
        return [plain(y) for y in x]
    if isinstance(x, float):
        return C.canon(x)
    return (type(x).__name__, x)


def dict_diff(v, tag, got, want, path=""):
    """Differences between two dictionaries of a structure as (part, text): part numbers or limits."""
    out = []
    if not isinstance(got, dict):
        return [("numbers", f"{path or 'result'}: {type(got).__name__} instead of a dictionary")]
    if list(got) != list(want):
        out.append(("numbers", f"keys of {path or 'result'}: {first_diff(list(got), list(want))}"))
    for f in S.fields(v, tag):
        name = f["name"]
        if name not in got or name not in want:
            continue
        g, w = got[name], want[name]
        p = f"{path}.{name}" if path else name
        counter = S.counter_of(v, tag, f)
        if f["kind"] == "char":
            if type(g) is not str or g != w:
                out.append(("limits", f"{p} is {C.show(g)} instead of {C.show(w)}"))
            continue
        if "count" in f:
            if type(g) is not list:
                out.append(("numbers", f"{p} is a {type(g).__name__}"))
                continue
            if len(g) != len(w):
                out.append(("limits" if counter else "numbers", f"{p} has {len(g)} entries instead of {len(w)}"))
            pairs = list(zip(g, w))
        else:
            pairs = [(g, w)]
        for i, (x, y) in enumerate(pairs):
            q = f"{p}[{i}]" if "count" in f else p
            if f["kind"] == "struct":
                out += dict_diff(v, f["struct"], x, y, q)
            elif C.canon(x) != C.canon(y):
                out.append(("numbers", f"{q} is {C.show(x)} instead of {C.show(y)}"))
            if len(out) > 5:
                return out
    return out


def find_pair(t):
    return next((p for p in PAIR_LIST if p[0].__name__ == t.extra["cls"] and p[0].__module__ == t.extra["module"] and p[1] == t.hversion and p[2] == t.extra["tag"]), None)


def check_layout(t):
    p = find_pair(t)
    if p is None:
        return f"{t.extra['cls']} does not stand for struct {t.extra['tag']} of atop {t.hversion} any more"
    return member_diff(*p, t.file)


def check_dict(t):
    part = t.extra["part"]
    if t.extra.get("chainer"):
        return check_chainer(t)
    p = find_pair(t)
    if p is None:
        return None
    cls, v, tag = p
    obj = cls.from_buffer_copy(t.file)
    try:
        want = S.to_dict(v, tag, obj)
    except S.Require:
        raise
    try:
        got = U.struct_to_dict(obj)
    except Exception as e:  # noqa
        return f"struct_to_dict of a {cls.__name__} raises {type(e).__name__}: {e}"
    return dict_verdict(part, dict_diff(v, tag, got, want), got, bytes(obj) != t.file, cls.__name__)


def dict_verdict(part, diffs, got, changed, name):
    for kind, text in diffs:
        if kind == part:
            return f"struct_to_dict of a {name}: {text}"
    if part == "numbers":
        if changed:
            return f"struct_to_dict of a {name} changes the structure"
        try:
            json.dumps(got)
        except Exception as e:  # noqa
            return f"the dictionary of a {name} cannot be dumped as JSON: {e}"
    return None


def check_chainer(t):
    v = t.hversion
    h = S.HEADERS[v]
    n = t.extra["ids"]
    cstat = h.CStat.from_buffer_copy(t.file[: len(t.file) - 4 * n])
    ids = (ctypes.c_int * n).from_buffer_copy(t.file[len(t.file) - 4 * n:])
    ch = h.CGChainer(cstat, ids)
    want = S.chainer_to_dict(v, ch)
    try:
        got = U.struct_to_dict(ch)
    except Exception as e:  # noqa
        return f"struct_to_dict of a cgroup raises {type(e).__name__}: {e}"
    if not isinstance(got, dict) or list(got) != list(want):
        return f"struct_to_dict of a cgroup: {C.show(got)}" if t.extra["part"] == "numbers" else None
    diffs = dict_diff(v, S.LAYOUTS[v]["top"]["CStat"], got["cstat"], want["cstat"], "cstat")
    if C.canon(got["proclist"]) != C.canon(want["proclist"]):
        diffs.append(("numbers", f"proclist is {C.show(got['proclist'])} instead of {C.show(want['proclist'])}"))
    return dict_verdict(t.extra["part"], diffs, got, bytes(cstat) + bytes(ids) != t.file, "cgroup")


def check_view(t):
    """file: header, record, system statistics and tasks, one after the other."""
    v = S.VIEW_VERSION
    at = 0
    parts = []
    for cls in (S.HEADERS[v], S.RECORDS[v], S.SSTATS[v]):
        parts.append(cls.from_buffer_copy(t.file[at:at + ctypes.sizeof(cls)]))
        at += ctypes.sizeof(cls)
    cls = S.TSTATS[v]
    tasks = [cls.from_buffer_copy(t.file[i:i + ctypes.sizeof(cls)]) for i in range(at, len(t.file), ctypes.sizeof(cls))]
    name = t.extra["view"]
    want = list(S.view(name, *parts, tasks))
    try:
        got = list(getattr(parsers, f"parse_{name}")(*parts, tasks))
    except Exception as e:  # noqa
        return f"view {name} raises {type(e).__name__}: {e}"
    if len(got) != len(want):
        return f"view {name}: {len(got)} rows instead of {len(want)}"
    for i, (g, w) in enumerate(zip(got, want)):
        if not isinstance(g, dict) or set(g) != set(w):
            return f"view {name} row {i}: keys {sorted(g)} instead of {sorted(w)}"
        for k in w:
            if C.canon(g[k]) != C.canon(w[k]):
                return f"view {name} row {i}: {k} is {C.show(g[k])} instead of {C.show(w[k])}"
    if b"".join(bytes(x) for x in parts + tasks) != t.file:
        return f"view {name} changes the sample"
    return None


VERSION_PROPERTIES = ("semantic_version", "major_version", "minor_version")


def check_version(t):
    """file: 480 header bytes; the named properties are read in order."""
    if t.extra["how"] == "get_header":
        try:
            h = U.get_header(io.BytesIO(t.file), check_compatibility=False)
        except ValueError:
            return None  # not this property's business
        w = S.HEADERS[S.layout_key(S.bytes_int(t.file, 4, 2))].from_buffer_copy(t.file)
        if type(h) is not type(w):
            return f"version {S.semantic_version(w)} is read with {type(h).__module__}"
    else:
        h = S.HEADERS[t.hversion].from_buffer_copy(t.file)
        w = S.HEADERS[t.hversion].from_buffer_copy(t.file)
    for i, name in enumerate(t.extra["names"]):
        want = getattr(S, name)(w)
        try:
            got = getattr(h, name)
        except Exception as e:  # noqa
            return f"{name} raises {type(e).__name__} after {t.extra['names'][:i]}"
        if C.canon(got) != C.canon(want):
            return f"{name} is {got!r} instead of {want!r} after {t.extra['names'][:i]}"
    if bytes(h) != t.file:
        return "reading the version changes the header"
    return None


def check_count(t):
    """A log of many equal small samples: only their number is compared."""
    v = t.hversion
    n = t.extra["samples"]
    sstat = zlib.compress(bytes(S.SIZES[v]["SStat"]), 9)
    tasks = zlib.compress(b"")
    r = bytearray(S.SIZES[v]["Record"])
    for name, x in (("scomplen", len(sstat)), ("pcomplen", len(tasks))):
        off, f = S.field_at(v, "Record", name)
        r[off:off + f["size"]] = x.to_bytes(f["size"], "little")
    h = S.HEADERS[v]()
    h.aversion = 0x8000 | S.number(v)
    h.pstatlen = S.SIZES[v]["TStat"]
    f = io.BytesIO((bytes(r) + sstat + tasks) * n)
    got = sum(1 for _ in U.generate_statistics(f, h, **t.kwargs))
    want = min(n, t.kwargs.get("max_samples", S.MAX_SAMPLES))
    return None if got == want else f"{got} samples instead of {want} from a log of {n} with {t.kwargs or 'the default maximum'}"


CHECKERS = {"version": check_version, "count": check_count, "layout": check_layout, "to_dict": check_dict, "view": check_view}

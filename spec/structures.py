"""Which ctypes class stands for which C structure."""
import ctypes

import atopspec as S


def used_classes(version):
    """The classes a log of this version is read with."""
    h = S.HEADERS[version]
    out = {"Header": h, "Record": h.Record, "SStat": h.SStat, "TStat": h.TStat}
    if S.HAS_CGROUPS[version]:
        out["CStat"] = h.CStat
    return out


def class_fields(cls):
    out = []
    for c in reversed(cls.__mro__):
        out.extend(c.__dict__.get("_fields_", ()))
    return out


def structure_pairs():
    """Every (class, C structure) that has to correspond: the classes in use and, by field name, what they contain."""
    seen, out = {}, []
    for v in S.VERSIONS:
        todo = [(cls, S.LAYOUTS[v]["top"][top]) for top, cls in used_classes(v).items()]
        while todo:
            cls, tag = todo.pop(0)
            key = (cls, layout_text(v, tag))
            if key in seen:
                PAIRS[(cls, v, tag)] = seen[key]
                continue
            seen[key] = len(out)
            PAIRS[(cls, v, tag)] = len(out)
            out.append((cls, v, tag))
            types = {f[0]: f[1] for f in class_fields(cls)}
            for f in S.fields(v, tag):
                if f["kind"] == "struct" and f["name"] in types:
                    t = types[f["name"]]
                    if issubclass(t, ctypes.Array):
                        t = t._type_
                    if issubclass(t, ctypes.Structure):
                        todo.append((t, f["struct"]))
    return out


PAIRS = {}
_TEXT = {}


def layout_text(version, tag):
    k = (version, tag)
    if k not in _TEXT:
        _TEXT[k] = repr([(f, layout_text(version, f["struct"]) if f["kind"] == "struct" else "") for f in S.fields(version, tag)])
    return _TEXT[k]


def pair_name(cls, v, tag):
    return f"{cls.__module__.split('.')[-1]}.{cls.__name__} = struct {tag} [{v}]"

"""Concrete runs of the command on files in a scratch directory (C15 - C17)."""
import gzip
import io
import json
import os
import re
import shutil
import sys
import tempfile

import atopspec as S
import concrete as C

from atoparser import reader


def capture(fn):
    """-> (text on standard output, None or the exception)"""
    raw = io.BytesIO()
    out = io.TextIOWrapper(raw, encoding="utf-8", write_through=True)
    old = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = out, io.StringIO()
    end = None
    try:
        fn()
    except SystemExit as e:
        end = e
    except C.Slow:
        raise
    except Exception as e:  # noqa
        end = e
    finally:
        sys.stdout, sys.stderr = old
    out.flush()
    return raw.getvalue().decode("utf-8", "replace"), end


def documents(text):
    """-> [(document, its text)] or None if the text is not a sequence of JSON documents."""
    dec = json.JSONDecoder()
    out, i = [], 0
    while True:
        while i < len(text) and text[i] in " \t\r\n":
            i += 1
        if i >= len(text):
            return out
        try:
            doc, j = dec.raw_decode(text, i)
        except ValueError:
            return None
        out.append((doc, text[i:j]))
        i = j


def flat(doc):
    return json.dumps(doc, sort_keys=True)


def doc_diff(got, want):
    if not isinstance(got, list):
        return f"the document is a {type(got).__name__}"
    if len(got) != len(want):
        return f"{len(got)} entries instead of {len(want)}"
    for i, (g, w) in enumerate(zip(got, want)):
        if isinstance(w, dict) and "error" in w:
            if not isinstance(g, dict) or set(g) != set(w) or g["file"] != w["file"]:
                return f"entry {C.show(g)} instead of an error entry for {w['file']}"
            version = re.search(r"\d+\.\d+", w["error"]).group(0)
            if not isinstance(g["error"], str) or not re.search(rf"(?<![\d.]){re.escape(version)}(?!\d)", g["error"]) or "support" not in g["error"].lower():
                return f"error text {g['error']!r} does not name version {version}"
            continue
        if isinstance(g, dict) and set(g) != set(w):
            return f"entry {i} has the keys {sorted(g)} instead of {sorted(w)}"
        if flat(g) != flat(w):
            for k in w:
                if not isinstance(g, dict) or flat(g[k]) != flat(w[k]):
                    return f"entry {i}: {k} is {C.show(g[k] if isinstance(g, dict) else g)} instead of {C.show(w[k])}"
    return None


def gzipped(data, form):
    """The ways in which gzip files come: with a name and a time, in several members, plainly."""
    if form == "named":
        out = io.BytesIO()
        with gzip.GzipFile("a name.log", "wb", 6, out, 1700000000) as f:
            f.write(data)
        return out.getvalue()
    if form == "members":
        n = len(data) // 2
        return gzip.compress(data[:n], 1) + gzip.compress(data[n:], 9, mtime=1)
    return gzip.compress(data, 1)


def check_main(t):
    x = t.extra
    d = tempfile.mkdtemp(prefix="atop-trial-")
    try:
        paths = {}
        for f in x["files"]:
            p = os.path.join(d, f["name"])
            os.makedirs(os.path.dirname(p), exist_ok=True)
            data = C.unpack(f["data"])
            with open(p, "wb") as h:
                h.write(gzipped(data, f["gz"]) if f["gz"] else data)
            paths[f["name"]] = p
        order = [paths[n] for n in x["order"]]
        want, fails = [], False
        for p in order:
            S.PRINTED.clear()
            try:
                S.parse_file(p, x["views"], x["pretty"], x["tstats"], x["cstats"])
            except S.Require:
                raise
            except Exception:  # noqa
                fails = True
                break
            want += S.PRINTED
        if "api" in x:
            text, end = capture(lambda: reader.parse_file(order[0], **x["api"]))
        else:
            argv = sys.argv
            sys.argv = ["atoparser"] + [paths.get(a, a) for a in x["argv"]]
            try:
                text, end = capture(reader.main)
            finally:
                sys.argv = argv
        what = f"atoparser {' '.join(x['argv'])}" if "api" not in x else f"parse_file({x['order'][0]}, {x['api']})"
        if fails:
            if end is None or isinstance(end, SystemExit) and end.code in (None, 0):
                return f"{what}: no error for a log that cannot be read"
            if text.strip() and len(documents(text) or [None] * 999) > len(want):
                return f"{what}: output for a log that cannot be read: {text[:200]!r}"
            return None
        if end is not None:
            return f"{what}: {type(end).__name__}: {end}"
        docs = documents(text)
        if docs is None:
            return f"{what}: the output is not JSON: {text[:200]!r}"
        if len(docs) != len(want):
            return f"{what}: {len(docs)} documents instead of {len(want)}"
        for (doc, raw), (w, pretty), p in zip(docs, want, order):
            diff = doc_diff(doc, json.loads(json.dumps(w)))
            if diff:
                return f"{what}: {os.path.relpath(p, d)}: {diff}"
            if doc and (("\n" in raw) != pretty):
                return f"{what}: the output is {'' if pretty else 'not '}expected on several lines"
        for f in x["files"]:
            with open(paths[f["name"]], "rb") as h:
                data = h.read()
            if (gzip.decompress(data) if f["gz"] else data) != C.unpack(f["data"]):
                return f"{what}: the file changed"
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


CHECKERS = {"main": check_main}

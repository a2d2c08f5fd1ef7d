"""Differential test of pyvc itself: CPython decides what each corpus function returns, pyvc has to prove exactly that.

For each function and each draw of concrete arguments: CPython computes the outcome.  The arguments are symbolic for
pyvc, with preconditions that pin them to the drawn values; the specification is the literal outcome.  pyvc must
- never refute the literal outcome, and
- never prove a perturbed one.
Leaving a function undecided (outside the supported subset) is allowed and counted.
Not part of the registered checks:  python3-vt -B tools/selftest/run.py [draws] [filter]
"""
import copy
import ctypes
import importlib.util
import inspect
import io
import os
import random
import resource
import signal
import sys
import tempfile
import traceback
import types
from concurrent.futures import ProcessPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.dirname(os.path.dirname(HERE)), HERE]
sys.setrecursionlimit(5000)

import z3  # noqa: E402

import corpus as K  # noqa: E402
from pyvc import cases, solver, terms as T, verify  # noqa: E402


def draw(name, rng):
    k = name[0]
    if k == "i":
        return rng.choice([rng.randint(-6, 6), rng.randint(-6, 6), rng.randint(-300, 300), rng.randint(-2**40, 2**40), 0, 65535, 0x8000])
    if k == "n":
        return rng.choice([0, 1, 2, 3, 4, 5])
    if k == "b":
        return bytes(rng.choice([0, 1, 2, 3, 4, 5, rng.randint(0, 255)]) for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 7])))
    if k == "f":
        return io.BytesIO(bytes(rng.choice([0, 1, 2, 3, 255]) for _ in range(rng.choice([0, 1, 2, 3, 4, 6, 9]))))
    if k == "s":
        raw = bytearray(rng.choice([0, 0, 1, 2, 97, 98, 255, rng.randint(0, 255)]) for _ in range(ctypes.sizeof(K.Outer)))
        return K.Outer.from_buffer_copy(bytes(raw))
    raise ValueError(name)


class Odd(Exception):
    pass


def flat(v, path):
    """(expression over the result, literal) pairs that pin down the value."""
    if v is None or isinstance(v, (bool, int, bytes, str)):
        return [(f"{path} is None", "True")] if v is None else [(path, repr(v))]
    if isinstance(v, types.GeneratorType) or type(v).__name__ in ("map", "filter"):
        raise Odd("iterator inside the result")
    if type(v) in (list, tuple) or hasattr(type(v), "_fields") and isinstance(v, tuple):
        out = [(f"len({path})", str(len(v))), (f"isinstance({path}, list)", repr(isinstance(v, list)))]
        for i, x in enumerate(v):
            out += flat(x, f"{path}[{i}]")
        return out
    if type(v) is dict:
        out = [(f"len({path})", str(len(v)))]
        for i, (k, x) in enumerate(v.items()):
            out += [(f"list({path})[{i}]", repr(k))] + flat(x, f"{path}[{k!r}]")
        return out
    raise Odd(type(v).__name__)


def perturb(pairs, rng):
    pairs = list(pairs)
    i = rng.randrange(len(pairs))
    e, lit = pairs[i]
    v = eval(lit)
    w = (not v) if isinstance(v, bool) else v + rng.choice([1, -1, 256]) if isinstance(v, int) else v + b"x" if isinstance(v, bytes) else v + "x"
    if isinstance(v, bytes) and v and rng.random() < 0.5:
        w = bytes([v[0] ^ 1]) + v[1:]
    pairs[i] = (e, repr(w))
    return pairs


class Slow(BaseException):
    pass


def stop(*_):
    raise Slow


def trial(job):
    signal.signal(signal.SIGALRM, stop)
    signal.alarm(60)
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    try:
        return compare(job)
    except Slow:
        return job[0], "undecided", f"draw {job[1]}", "60 s"
    except Exception as e:  # noqa
        return job[0], "WRONG harness", f"draw {job[1]}", traceback.format_exc()[-600:]
    finally:
        signal.alarm(0)


def compare(job):
    name, seed = job
    rng = random.Random(f"{name}/{seed}")
    fn = getattr(K, name)
    params = list(inspect.signature(fn).parameters)
    concrete = [draw(p, rng) for p in params]
    saved = [(x.getvalue() if p[0] == "f" else bytes(x) if p[0] == "s" else x) for p, x in zip(params, concrete)]
    is_gen = inspect.isgeneratorfunction(fn)
    call = f"K.{name}({', '.join(params)})"
    if is_gen:
        call = f"list({call})"
    try:
        r = eval(call, {"K": K, "list": list}, dict(zip(params, concrete)))
        error = None
    except Exception as e:
        r, error = None, type(e)
    shown = f"{name}{tuple(saved)} -> {error.__name__ if error else r!r}"
    files = [(p, x.tell()) for p, x in zip(params, concrete) if p[0] == "f"]
    same = [p for p, x, y in zip(params, concrete, saved) if p[0] == "s" and bytes(x) != y]
    if same:
        return name, "skipped", shown, "changes its argument"
    sig = ", ".join(params)
    try:
        pairs = flat(r, "r") if error is None else []
    except Odd as e:
        return name, "skipped", shown, str(e)
    variants = [("true", pairs, error, files)]
    if error is None:
        variants.append(("perturbed", perturb(pairs, rng), None, files))
        variants.append(("raises instead", pairs, ValueError, files))
        if files:
            variants.append(("file position", pairs, None, [(p, x + 1) for p, x in files]))
    else:
        variants.append(("returns instead", [("0", "0")], None, files))
        variants.append(("other error", pairs, ArithmeticError if not issubclass(error, ArithmeticError) else KeyError, files))
    verdicts = []
    with tempfile.TemporaryDirectory() as d:
        for k, (label, ps, err, pos) in enumerate(variants):
            path = os.path.join(d, f"probe{k}.py")
            with open(path, "w") as f:
                f.write("import corpus as K\n\n\n")
                body = f"    r = {call}\n    return ({''.join(e + ', ' for e, _ in pairs) or '0,'})\n"
                f.write(f"def probe({sig}):\n{body}\n\n")
                seek = "".join(f"    {p}.seek({x})\n" for p, x in pos)
                end = f"    raise {err.__module__ + '.' if err.__module__ != 'builtins' else ''}{err.__name__}\n" if err else f"    return ({''.join(v + ', ' for _, v in ps) or '0,'})\n"
                f.write("import struct\nimport zlib\n\n\ndef literal(" + sig + "):\n" + seek + end)
            spec = importlib.util.spec_from_file_location(f"probe_{name}_{seed}_{k}", path)
            mod = importlib.util.module_from_spec(spec)
            sys.modules[spec.name] = mod
            spec.loader.exec_module(mod)

            def setup(ip):
                out = []
                for p, x in zip(params, saved):
                    u = p.upper()
                    if p[0] in "in":
                        ip.assume(z3.Int(u) == x)
                        out.append(T.mk_int(z3.Int(u)))
                        continue
                    view = T.View(u)
                    for i, byte in enumerate(x):
                        ip.assume(view.at(i) == byte)
                    n = z3.Int(u + "n")
                    if p[0] == "b":
                        ip.assume(n == len(x))
                        out.append(T.SBytes(view, n))
                    elif p[0] == "f":
                        ip.assume(n == len(x))
                        pos0 = z3.Int(u + "p")
                        ip.assume(pos0 == 0)
                        out.append(cases.a_file(ip, u, n, pos0))
                    else:
                        out.append(ip.mk_struct(K.Outer, view))
                return out, {}

            inline = cases.INLINE + (d + os.sep, HERE + os.sep)
            case = verify.Case(f"{name}", mod.probe, mod.literal, setup)
            res = verify.verify(case, solver.Prover(), inline, inline)
            if label == "true":
                if error is not None:  # no returning path: the vacuity obligation does not apply
                    res.obligations = [o for o in res.obligations if not o.name.endswith("preconditions satisfiable")]
                if res.status == "refuted":
                    return name, "WRONG refuted", shown, str([(o.name, o.detail[:300]) for o in res.obligations if o.status == "refuted"])
                if res.status != "proved":
                    return name, "undecided", shown, str(res.error or [(o.name, o.status) for o in res.obligations if o.status != "proved"][:2])
            else:
                res.obligations = [o for o in res.obligations if not o.name.endswith("preconditions satisfiable")]
                if not res.error and res.obligations and res.status == "proved":
                    return name, "WRONG proved", shown, f"{label}: {ps} {err} {pos}"
                verdicts.append(res.status)
    return name, "proved", shown, ",".join(verdicts)


def names():
    return [n for n, f in vars(K).items() if isinstance(f, types.FunctionType) and f.__module__ == "corpus" and not n.startswith("_")]


def main():
    draws = int(sys.argv[1]) if len(sys.argv) > 1 else 6
    flt = sys.argv[2] if len(sys.argv) > 2 else ""
    jobs = [(n, s) for n in names() if flt in n for s in range(draws)]
    tally = {}
    with ProcessPoolExecutor(int(os.environ.get("JOBS", "8"))) as ex:
        for name, what, shown, detail in ex.map(trial, jobs, chunksize=2):
            tally.setdefault(name, {}).setdefault(what, []).append((shown, detail))
            if what.startswith("WRONG"):
                print(what, shown, detail, flush=True)
    for name, t in tally.items():
        for what in ("undecided", "skipped"):
            if what in t:
                print(f"{what} {name} {len(t[what])}/{draws}: {t[what][0][0][:150]}: {t[what][0][1][:200]}")
    count = {}
    for t in tally.values():
        for what, xs in t.items():
            count[what] = count.get(what, 0) + len(xs)
    print(len(tally), "functions", count)
    sys.exit(1 if any(w.startswith("WRONG") for w in count) else 0)


if __name__ == "__main__":
    main()

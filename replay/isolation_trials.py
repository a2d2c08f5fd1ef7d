"""Concrete runs of several logs at once (C18): the oracle is the code itself, reading each log alone in a fresh process."""
import ctypes
import io
import os
import pickle
import random
import signal

import atopspec as S
import concrete as C

from atoparser import utils as U
from atoparser.parsers import atop_1_26 as parsers


def in_child(fn, *args):
    """fn(*args) in a forked process that has read nothing yet -> its result, or ("died",)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(25)
            data = pickle.dumps(fn(*args))
            with os.fdopen(w, "wb") as f:
                f.write(data)
            code = 0
        except BaseException:  # noqa
            pass
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if status:
        return ("died", status)
    return pickle.loads(data)


def canon_types(x):
    """canon() holds classes in exceptions only: as names, so that it can be sent between processes."""
    if isinstance(x, tuple):
        return tuple(canon_types(y) for y in x)
    return x.__name__ if isinstance(x, type) else x


class Log:
    """One log being read."""

    def __init__(self, data, kw):
        self.data = data
        self.file = io.BytesIO(data)
        self.seen, self.kept, self.end = [], [], None
        self.gen = self.header = None
        self.head = self.keys = None
        try:
            self.header = U.get_header(self.file, check_compatibility=False)
            self.head = (C.canon(self.header), self.header.semantic_version, self.header.major_version, self.header.minor_version)
            self.head_bytes = bytes(self.header)
            self.gen = iter(U.generate_statistics(self.file, self.header, **kw))
        except Exception as e:  # noqa
            self.end = ("raise", type(e).__name__)

    def step(self):
        """Next sample or None at the end."""
        if self.gen is None or self.end is not None:
            return None
        try:
            item = next(self.gen)
        except StopIteration:
            self.end = ("stop",)
            return None
        except Exception as e:  # noqa
            self.end = ("raise", type(e).__name__)
            return None
        self.seen.append(C.canon(item))
        self.kept.append(item)
        return item

    def result(self):
        return canon_types((self.head, tuple(self.seen), self.end))


def alone(data, kw):
    log = Log(data, kw)
    while log.step() is not None:
        pass
    return log.result()


def structures(item):
    record, sstat, tasks, cgroups = item
    out = [record, sstat] + list(tasks)
    for c in cgroups:
        out += [c.cstat, c.proclist]
    return out


def overwrite(x, byte):
    ctypes.memset(ctypes.addressof(x), byte, ctypes.sizeof(x))


def use(log, item, rng):
    """Converts and views a sample: neither may change it; what is returned may be changed by its owner."""
    before = C.canon(item)
    record, sstat, tasks, cgroups = item
    for x in rng.sample(structures(item) + [log.header], 2):
        if isinstance(x, ctypes.Array):
            continue
        a = U.struct_to_dict(x)
        ca = C.canon(a)
        for k in list(a):
            if isinstance(a[k], (list, dict)):
                a[k].clear()
        a.clear()
        if C.canon(U.struct_to_dict(x)) != ca:
            return f"converting a {type(x).__name__} twice gives different results"
    for c in cgroups[:1]:
        a = U.struct_to_dict(c)
        ca = C.canon(a)
        a["proclist"].append(1)
        if C.canon(U.struct_to_dict(c)) != ca:
            return "converting a cgroup twice gives different results"
    if type(log.header) is S.HEADERS["1.26"]:
        for name in rng.sample(list(S.SYSTEM_VIEWS) + list(S.TASK_VIEWS), 4):
            p = getattr(parsers, f"parse_{name}")
            rows = list(p(log.header, record, sstat, tasks))
            cr = C.canon(rows)
            for row in rows:
                row.clear()
            if C.canon(list(p(log.header, record, sstat, tasks))) != cr:
                return f"view {name} of one sample gives different results"
    if C.canon(item) != before:
        return "converting or viewing a sample changes it"
    return None


def together(datas, kws, seed):
    rng = random.Random(seed)
    logs = []
    todo = list(range(len(datas)))
    results = {}
    order = []
    touched = set()
    problem = None
    live = []
    while todo or live:
        if todo and (not live or rng.random() < 0.4):
            i = todo.pop(0)
            log = Log(datas[i], kws[i])
            logs.append(log)
            order.append(i)
            live.append(log)
        log = rng.choice(live)
        steps = rng.choice([1, 1, 2, 100])
        for _ in range(steps):
            item = log.step()
            if item is None:
                live.remove(log)
                if log.header is not None and rng.random() < 0.3:
                    overwrite(log.header, 0xAA)
                    log.head_bytes = bytes(log.header)
                break
            r = rng.random()
            if r < 0.3 and problem is None:
                problem = use(log, item, rng)
            elif r < 0.45:
                for x in item:
                    if isinstance(x, (list, bytearray)):
                        x.append(x[-1] if x else 0)
                for c in item[3]:
                    if isinstance(getattr(c, "proclist", None), list):
                        c.proclist.append(0)
                touched.add((id(log), len(log.kept) - 1))
            elif r < 0.6:
                x = rng.choice(structures(item))
                overwrite(x, rng.choice([0, 0xAA, 0xFF]))
                touched.add((id(log), len(log.kept) - 1))
    for i, log in zip(order, logs):
        results[i] = log.result()
        for k, (item, c) in enumerate(zip(log.kept, log.seen)):
            if (id(log), k) not in touched and C.canon(item) != c and problem is None:
                problem = f"sample {k} of log {i} changed after it was handed out"
        if log.header is not None and bytes(log.header) != log.head_bytes and problem is None:
            problem = f"the header of log {i} changed while the log was read"
        if log.file.getvalue() != log.data and problem is None:
            problem = f"log {i} itself changed"
    return results, problem


def check_isolation(t):
    datas = [C.unpack(x) for x in t.extra["logs"]]
    kws = t.extra["kwargs"]
    single = [in_child(alone, d, k) for d, k in zip(datas, kws)]
    if any(s[:1] == ("died",) for s in single):
        return None  # what a single log reads as is not this property's business
    both = in_child(together, datas, kws, t.extra["seed"])
    if both[:1] == ("died",):
        return f"reading {len(datas)} logs together fails where each alone is read"
    results, problem = both
    if problem:
        return problem
    for i, s in enumerate(single):
        if results[i] != s:
            return f"log {i} of {len(datas)} read together with the others: {C.diff(results[i], s)} when it is read alone"
    return None


CHECKERS = {"isolation": check_isolation}

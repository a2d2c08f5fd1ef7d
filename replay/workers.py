"""Processes that do jobs, each with a connection of its own.

multiprocessing.Pool is not used: its threads make forks unsafe and its terminate() can wait for a lock an idle worker holds.
Here no lock is shared, the parent has no threads, and stopping is SIGKILL.
"""
import ctypes
import multiprocessing
import multiprocessing.connection
import os
import signal
import time


class Died(Exception):
    pass


class _Worker:
    def __init__(self, fn, others):
        ctx = multiprocessing.get_context("fork")
        self.conn, child = ctx.Pipe()
        self.pid = os.fork()
        self.job = None
        self.left = 8
        if self.pid == 0:
            status = 1
            try:
                signal.signal(signal.SIGINT, signal.SIG_IGN)
                ctypes.CDLL(None).prctl(1, signal.SIGKILL)  # PR_SET_PDEATHSIG: ends with its parent
                for c in others + [self.conn]:
                    c.close()
                while True:
                    job = child.recv()
                    try:
                        answer = (True, fn(job))
                    except Exception as e:  # noqa
                        answer = (False, f"{type(e).__name__}: {e}")
                    child.send(answer)
            except (EOFError, OSError):
                status = 0
            finally:
                os._exit(status)
        child.close()

    def kill(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        try:
            os.waitpid(self.pid, 0)
        except ChildProcessError:
            pass
        self.conn.close()


class Workers:
    """Runs fn on jobs in n processes; poll() gives what has finished since, as (job, ok, value)."""

    def __init__(self, fn, jobs, n):
        self.fn, self.n = fn, n
        self.todo = list(jobs)
        self.live = []
        self.feed()

    def feed(self):
        while self.todo and sum(1 for w in self.live if w.job is not None) < self.n:
            idle = [w for w in self.live if w.job is None]
            if idle:
                w = idle[0]
            else:
                w = _Worker(self.fn, [x.conn for x in self.live])
                self.live.append(w)
            w.job = self.todo.pop(0)
            w.left -= 1
            try:
                w.conn.send(w.job)
            except OSError:
                pass  # it is gone: poll() sees that

    def poll(self, wait=0.03):
        out = []
        busy = {w.conn: w for w in self.live if w.job is not None}
        if not busy:
            time.sleep(wait)
            return out
        for c in multiprocessing.connection.wait(list(busy), wait):
            w = busy[c]
            try:
                ok, value = c.recv()
            except (EOFError, OSError):
                ok, value = False, "the process that did it ended"
                w.left = 0
            out.append((w.job, ok, value))
            w.job = None
            if w.left <= 0:
                self.live.remove(w)
                w.kill()
        self.feed()
        return out

    def busy(self):
        return bool(self.todo) or any(w.job is not None for w in self.live)

    def stop(self):
        self.todo = []
        for w in self.live:
            w.kill()
        self.live = []

"""A controlled scheduler for the threads of the storage code, and the schedule search.

Only one controlled thread runs at a time.  Every operation on a lock, queue, event,
thread, sleep, future or file is a scheduling point; where several threads could go on,
the next one is taken from a decision list, so one execution is a pure function of its
decisions.  `explore` enumerates every decision list with a bounded number of preemptions.

Virtual time only advances when no thread can run.  A sleeping thread may also be woken
early (as if the others had been slow), which costs one preemption.
"""

from __future__ import annotations

import builtins
import concurrent.futures
import gc
import io
import os
import queue as _queue
import sys
import threading
import time
from collections import deque

REAL = {"Lock": threading.Lock, "RLock": threading.RLock, "Thread": threading.Thread,
        "Event": threading.Event, "Condition": threading.Condition,
        "Semaphore": threading.Semaphore, "BoundedSemaphore": threading.BoundedSemaphore,
        "Queue": _queue.Queue, "LifoQueue": _queue.LifoQueue, "SimpleQueue": _queue.SimpleQueue,
        "Executor": concurrent.futures.ThreadPoolExecutor,
        "sleep": time.sleep, "time": time.time}
HORIZON = 120.0       # virtual seconds after which the caller counts as blocked
MAX_STEPS = 40000


class Kill(BaseException):
    pass


class Blocked(Exception):
    pass


class T:
    """A controlled thread."""

    def __init__(self, sched, fn, label):
        self.sched, self.fn, self.label = sched, fn, label
        self.id = len(sched.threads)
        sched.threads.append(self)
        self.gate = REAL["Semaphore"](0)
        self.ready = None          # predicate; None = can run
        self.wake = None           # virtual wake-up time
        self.sleeping = False
        self.sym = label           # symmetry class while waiting
        self.done = False
        self.exc = None
        self.real = REAL["Thread"](target=self._main, daemon=True)
        self.real._t = self
        self.real.start()

    def _main(self):
        self.gate.acquire()
        try:
            if not self.sched.dead:
                self.fn()
        except Kill:
            pass
        except BaseException as e:  # noqa: BLE001
            self.exc = e
        self.done = True
        if not self.sched.dead:
            self.sched.finished(self)


def current():
    t = getattr(threading.current_thread(), "_t", None)
    return t if t is not None and not t.sched.dead else None


class Sched:
    def __init__(self, decisions, bound, on_step=None):
        self.threads = []
        self.decisions = list(decisions)
        self.bound = bound
        self.used = 0
        self.trace = []            # (number of options, chosen, tuple of costs)
        self.dead = False
        self.now = 0.0
        self.steps = 0
        self.over = REAL["Semaphore"](0)
        self.result = None
        self.cur = None
        self.log = []

    # ---- choosing
    def _options(self):
        cur = self.cur
        able = []
        seen = set()
        for t in self.threads:
            if t.done:
                continue
            if t.ready is None or t.ready():
                key = (t.sym, t.ready is not None)
                if t.sym is not None and t is not cur:
                    if key in seen:
                        continue
                    seen.add(key)
                able.append(t)
        if cur in able:
            able.remove(cur)
            opts = [(cur, 0)] + [(t, 1) for t in able]
            extra = 1
        else:
            opts = [(t, 0) for t in able]
            extra = 1
        for t in self.threads:
            if not t.done and t.sleeping and not any(t is o for o, _ in opts) and able + \
                    ([cur] if opts and opts[0][0] is cur else []):
                opts.append((t, extra))
        opts = [(t, c) for t, c in opts if self.used + c <= self.bound]
        if opts:
            return opts
        waiting = [t for t in self.threads if not t.done and t.wake is not None]
        if not waiting:
            return []
        t = min(waiting, key=lambda t: (t.wake, t.id))
        self.now = max(self.now, t.wake)
        return [(t, 0)]

    def pick(self):
        opts = self._options()
        if not opts or self.now > HORIZON or self.steps > MAX_STEPS:
            return None
        if len(opts) == 1:
            i = 0
        else:
            k = len(self.trace)
            i = self.decisions[k] if k < len(self.decisions) else 0
            if i >= len(opts):
                self.result = RuntimeError("nondeterministic execution")
                return None
            self.trace.append((len(opts), i, tuple(c for _, c in opts), self.used))
            self.used += opts[i][1]
        return opts[i][0]

    def _stop(self, why):
        if self.result is None:
            self.result = why
        self.dead = True
        self.over.release()

    # ---- called by the running controlled thread
    def point(self, ready=None, timeout=None, sleeping=False, sym=None):
        """Give others a chance; returns False when the wait timed out."""
        if self.dead:
            raise Kill
        me = self.cur
        self.steps += 1
        me.ready, me.sleeping, me.sym = ready, sleeping, sym
        if sleeping:
            me.ready = lambda: False
        me.wake = None if timeout is None else self.now + timeout
        nxt = self.pick()
        if nxt is None:
            self._stop(Blocked(self._where()))
            raise Kill
        if nxt is not me:
            self.cur = nxt
            nxt.gate.release()
            me.gate.acquire()
            if self.dead:
                raise Kill
        ok = ready is None or ready()
        me.ready, me.wake, me.sleeping, me.sym = None, None, False, None
        return ok

    def _where(self):
        out = []
        frames = sys._current_frames()
        for t in self.threads:
            if t.done:
                continue
            f = frames.get(t.real.ident)
            while f and "dattri" not in f.f_code.co_filename:
                f = f.f_back
            out.append(f"{t.label}@{f.f_code.co_name}:{f.f_lineno}" if f else t.label)
        return "blocked: " + ", ".join(out)

    def finished(self, t):
        if t.id == 0:
            self._stop(t)
            return
        nxt = self.pick()
        if nxt is None:
            self._stop(Blocked(self._where()))
            return
        self.cur = nxt
        nxt.gate.release()

    def run(self, fn):
        main = T(self, fn, "caller")
        self.cur = main
        main.gate.release()
        self.over.acquire()
        for t in self.threads:
            t.gate.release()
        for t in self.threads:
            t.real.join(5)
        return self.result


# ---- fake primitives -------------------------------------------------------
def _mine():
    """The active scheduler when called from code under test."""
    t = current()
    if t is None:
        return None
    f = sys._getframe(2)
    for _ in range(3):
        if f is None:
            return None
        name = f.f_globals.get("__name__", "")
        if name.startswith("dattri"):
            return t.sched
        f = f.f_back
    return None


class CLock:
    def __init__(self, s, reentrant=False):
        self.s, self.owner, self.n, self.re = s, None, 0, reentrant

    def acquire(self, blocking=True, timeout=-1):
        t = current()
        if t is None:
            return True
        if self.re and self.owner is t:
            self.n += 1
            return True
        if not blocking:
            self.s.point()
            if self.owner is not None:
                return False
        elif not self.s.point(lambda: self.owner is None, None if timeout < 0 else timeout):
            return False
        self.owner, self.n = t, 1
        return True

    def release(self):
        self.n -= 1
        if self.n <= 0:
            self.owner = None
        if current() is not None:
            self.s.point()

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class CCondition:
    def __init__(self, s, lock=None):
        self.s, self.lock = s, lock or CLock(s, True)
        self.acquire, self.release = self.lock.acquire, self.lock.release
        self.waiters = []

    def __enter__(self):
        return self.lock.acquire()

    def __exit__(self, *a):
        self.lock.release()

    def wait(self, timeout=None):
        if current() is None:
            return True
        tok = [False]
        self.waiters.append(tok)
        n, self.lock.n, self.lock.owner = self.lock.n, 0, None
        ok = self.s.point(lambda: tok[0] and self.lock.owner is None, timeout)
        while self.lock.owner is not None:
            self.s.point(lambda: self.lock.owner is None)
        self.lock.owner, self.lock.n = current(), n
        return ok or tok[0]

    def wait_for(self, pred, timeout=None):
        end = None if timeout is None else self.s.now + timeout
        while not pred():
            if end is not None and self.s.now >= end:
                return pred()
            self.wait(None if end is None else end - self.s.now)
        return True

    def notify(self, n=1):
        for tok in [w for w in self.waiters if not w[0]][:n]:
            tok[0] = True

    def notify_all(self):
        self.notify(10 ** 6)


class CSemaphore:
    def __init__(self, s, value=1):
        self.s, self.v = s, value

    def acquire(self, blocking=True, timeout=None):
        if current() is None:
            return True
        if not self.s.point((lambda: self.v > 0) if blocking else None, timeout) or self.v <= 0:
            return False
        self.v -= 1
        return True

    def release(self, n=1):
        self.v += n
        if current() is not None:
            self.s.point()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class CEvent:
    def __init__(self, s):
        self.s, self.flag = s, False

    def is_set(self):
        if current() is not None:
            self.s.point()
        return self.flag

    def set(self):
        self.flag = True
        if current() is not None:
            self.s.point()

    def clear(self):
        self.flag = False

    def wait(self, timeout=None):
        if current() is None:
            return self.flag
        # a timed wait is also a sleep that may end early only by the flag
        self.s.point(lambda: self.flag, timeout)
        return self.flag


class CQueue:
    def __init__(self, s, maxsize=0, lifo=False):
        self.s, self.maxsize, self.q, self.lifo = s, maxsize, deque(), lifo
        self.unfinished = 0

    def qsize(self):
        return len(self.q)

    def empty(self):
        if current() is not None:
            self.s.point()
        return not self.q

    def full(self):
        if current() is not None:
            self.s.point()
        return 0 < self.maxsize <= len(self.q)

    def put(self, item, block=True, timeout=None):
        if current() is not None:
            room = lambda: not 0 < self.maxsize <= len(self.q)  # noqa: E731
            ok = self.s.point(room if block else None, timeout)
            if not (ok and room()):
                raise _queue.Full
        self.q.append(item)
        self.unfinished += 1

    def put_nowait(self, item):
        self.put(item, False)

    def get(self, block=True, timeout=None):
        if current() is None:
            if not self.q:
                raise _queue.Empty
        else:
            ok = self.s.point((lambda: bool(self.q)) if block else None, timeout,
                              sym=("get", id(self), current().label))
            if not (ok and self.q):
                raise _queue.Empty
        return self.q.pop() if self.lifo else self.q.popleft()

    def get_nowait(self):
        return self.get(False)

    def task_done(self):
        self.unfinished -= 1
        if current() is not None:
            self.s.point()

    def join(self):
        if current() is not None:
            self.s.point(lambda: self.unfinished == 0)


class CThread(REAL["Thread"]):
    """threading.Thread; controlled when created by a controlled thread of the code."""

    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        t = current()
        self._sched = t.sched if t is not None and (
            type(self) is not CThread or _mine() is not None) else None
        self._ct = None

    def start(self):
        if self._sched is None or self._sched.dead:
            if self._sched is None:
                super().start()
            return
        tgt = getattr(self, "_target", None)
        self._ct = T(self._sched, self.run, getattr(tgt, "__name__", type(self).__name__))
        self._sched.point()

    def join(self, timeout=None):
        if self._sched is None:
            super().join(timeout)
        elif current() is not None and self._ct is not None:
            self._sched.point(lambda: self._ct.done, timeout)

    def is_alive(self):
        if self._sched is None:
            return super().is_alive()
        return self._ct is not None and not self._ct.done


class CFuture:
    def __init__(self, s):
        self.s, self.t, self.value = s, None, None

    def _wait(self, timeout=None):
        if current() is not None:
            if not self.s.point(lambda: self.t.done, timeout):
                raise TimeoutError

    def done(self):
        if current() is not None:
            self.s.point()
        return self.t.done

    def result(self, timeout=None):
        self._wait(timeout)
        if self.t.exc is not None:
            raise self.t.exc
        return self.value

    def exception(self, timeout=None):
        self._wait(timeout)
        return self.t.exc

    def add_done_callback(self, fn):
        raise NotImplementedError


class CExecutor:
    def __init__(self, s, max_workers=None):
        self.s, self.futs = s, []

    def submit(self, fn, *a, **kw):
        f = CFuture(self.s)
        if current() is None:
            raise RuntimeError("executor used outside the execution")

        def go():
            f.value = fn(*a, **kw)

        f.t = T(self.s, go, "executor")
        self.futs.append(f)
        self.s.point()
        return f

    def map(self, fn, *its, **kw):
        return [f.result() for f in [self.submit(fn, *a) for a in zip(*its)]]

    def shutdown(self, wait=True, **kw):
        if wait and current() is not None:
            for f in self.futs:
                f._wait()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()


def _cls(fake, real):
    def make(*a, **kw):
        s = _mine()
        return real(*a, **kw) if s is None else fake(s, *a, **kw)
    return make


class Patch:
    """Install the fakes for one execution (module attributes and names bound from them)."""

    def __init__(self, fault=None):
        self.fault = fault      # called as fault(kind, path) before a file operation
        self.saved = []

    def _set(self, obj, name, value):
        self.saved.append((obj, name, getattr(obj, name)))
        setattr(obj, name, value)

    def __enter__(self):
        import numpy as np
        import torch

        fakes = {
            "Lock": _cls(CLock, REAL["Lock"]),
            "RLock": _cls(lambda s: CLock(s, True), REAL["RLock"]),
            "Condition": _cls(CCondition, REAL["Condition"]),
            "Semaphore": _cls(CSemaphore, REAL["Semaphore"]),
            "BoundedSemaphore": _cls(CSemaphore, REAL["BoundedSemaphore"]),
            "Event": _cls(CEvent, REAL["Event"]),
        }
        qf = {"Queue": _cls(CQueue, REAL["Queue"]),
              "LifoQueue": _cls(lambda s, m=0: CQueue(s, m, True), REAL["LifoQueue"]),
              "SimpleQueue": _cls(CQueue, REAL["SimpleQueue"])}
        ex = _cls(CExecutor, REAL["Executor"])

        def sleep(sec):
            t = current()
            if t is None:
                return REAL["sleep"](sec)
            t.sched.point(timeout=max(sec, 1e-4), sleeping=True)

        def now():
            t = current()
            return REAL["time"]() if t is None else 1e9 + t.sched.now + t.sched.steps * 1e-6

        table = {}
        for k, v in fakes.items():
            self._set(threading, k, v)
            table[id(REAL[k])] = v
        for k, v in qf.items():
            self._set(_queue, k, v)
            table[id(REAL[k])] = v
        self._set(threading, "Thread", CThread)
        table[id(REAL["Thread"])] = CThread
        self._set(concurrent.futures, "ThreadPoolExecutor", ex)
        table[id(REAL["Executor"])] = ex
        self._set(time, "sleep", sleep)
        table[id(REAL["sleep"])] = sleep
        self._set(time, "time", now)
        table[id(REAL["time"])] = now

        def wrap(obj, name, kind, pick):
            real = getattr(obj, name)

            def fn(*a, **kw):
                t = current()
                if t is not None and (t.label == "executor" or _mine_any()):
                    path = str(pick(a, kw))
                    t.sched.point()
                    if self.fault is not None:
                        self.fault(kind(a, kw) if callable(kind) else kind, path)
                    out = real(*a, **kw)
                    if hasattr(self.fault, "after"):
                        self.fault.after(kind(a, kw) if callable(kind) else kind, path)
                    t.sched.point()
                    return out
                return real(*a, **kw)

            self._set(obj, name, fn)
            table[id(real)] = fn

        def first(a, kw):
            return a[0] if a else next(iter(kw.values()), "")

        def okind(a, kw):
            m = kw.get("mode", a[1] if len(a) > 1 else "r")
            return "write" if any(c in m for c in "wax+") else "read"

        wrap(io, "open", okind, first)
        wrap(builtins, "open", okind, first)
        wrap(np, "memmap", lambda a, kw: "write" if "w" in str(kw.get("mode", "r")) else "read",
             first)
        wrap(np, "fromfile", "read", first)
        wrap(torch, "save", "write", lambda a, kw: a[1] if len(a) > 1 else kw.get("f", ""))
        wrap(os, "replace", "write", first)
        wrap(os, "rename", "write", first)
        wrap(os, "unlink", "unlink", first)
        wrap(os, "remove", "unlink", first)
        real_listdir = os.listdir

        def listdir(*a):
            t = current()
            if t is not None:
                t.sched.point()
                return sorted(real_listdir(*a))
            return real_listdir(*a)

        self._set(os, "listdir", listdir)
        for name, mod in list(sys.modules.items()):
            if name.startswith("dattri") and mod is not None:
                for k, v in list(vars(mod).items()):
                    if id(v) in table and v is not table[id(v)]:
                        self._set(mod, k, table[id(v)])
        return self

    def __exit__(self, *a):
        for obj, name, value in reversed(self.saved):
            setattr(obj, name, value)
        self.saved = []


def _mine_any():
    f = sys._getframe(2)
    for _ in range(8):
        if f is None:
            return False
        if f.f_globals.get("__name__", "").startswith("dattri"):
            return True
        f = f.f_back
    return False


def execute(body, decisions, bound, fault=None):
    """One execution of body() under the given decisions; returns (scheduler, result)."""
    gc.disable()
    try:
        s = Sched(decisions, bound)
        with Patch(fault):
            res = s.run(body)
    finally:
        gc.enable()
    return s, res


def explore(make_body, bound, part=0, parts=1, limit=None):
    """Every schedule with at most `bound` preemptions.

    make_body() -> (body, fault, judge); judge(result) is called after each execution.
    Children of an execution differ from it first at a later choice, so every decision
    list is generated exactly once.  With parts > 1 only the top-level subtrees with
    number = part (mod parts) are explored (the root itself belongs to part 0).
    """
    stack = [([], True)]
    n = steps = 0
    while stack:
        dec, root = stack.pop()
        body, fault, judge = make_body()
        s, res = execute(body, dec, bound, fault)
        if any(d != c for d, (_, c, _, _) in zip(dec, s.trace)) or len(s.trace) < len(dec):
            res = RuntimeError("nondeterministic execution")
        if not root or part == 0:
            n += 1
            steps += s.steps
            if judge(res, s, dec) is False:
                return n, steps
        kids = []
        for i in range(len(dec), len(s.trace)):
            opts, chosen, costs, used = s.trace[i]
            for alt in range(1, opts):
                if used + costs[alt] <= bound:
                    kids.append([c for _, c, _, _ in s.trace[:i]] + [alt])
        if root:
            kids = [k for j, k in enumerate(kids) if j % parts == part]
        stack.extend((k, False) for k in reversed(kids))
        if limit is not None and n >= limit:
            break
    return n, steps

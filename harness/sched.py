"""A deterministic scheduler for threads that run code of jaeger_client.

Exactly one thread runs at a time.  A controlled thread may be switched out at
every traced line (or bytecode instruction) of a file of jaeger_client and
whenever it acquires or releases a lock created by jaeger_client.  A schedule
is a set of preemption points (step number -> thread); without a preemption a
thread runs until it blocks or ends.
"""
import os
import sys
import threading

from . import core, env

_active = [None]          # the running Scheduler
_tls = threading.local()


class Abort(BaseException):
    pass


class CoopLock(object):
    def __init__(self, real, kind):
        self._real = real
        self._kind = kind
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        s = _active[0]
        me = getattr(_tls, 'me', None)
        if s is None or me is None or me.sched is not s:
            return self._real.acquire(blocking, timeout)
        s.yield_point(me)
        while True:
            if self._kind == 'RLock' and self._owner is me:
                self._count += 1
                return True
            if self._owner is None and self._real.acquire(False):
                self._owner = me
                self._count = 1
                return True
            if not blocking or (timeout is not None and timeout >= 0):
                return False
            s.block(me, self)

    def release(self):
        s = _active[0]
        me = getattr(_tls, 'me', None)
        if s is None or me is None or me.sched is not s or self._owner is not me:
            self._owner = None
            return self._real.release()
        self._count -= 1
        if self._count > 0:
            return
        self._owner = None
        self._real.release()
        s.unblock(self)
        s.yield_point(me)

    def locked(self):
        return self._real.locked() if hasattr(self._real, 'locked') else self._owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def __deepcopy__(self, memo):
        return self

    # RLock protocol used by threading.Condition
    def _is_owned(self):
        me = getattr(_tls, 'me', None)
        if me is not None:
            return self._owner is me
        return self._real._is_owned() if hasattr(self._real, '_is_owned') else self._real.locked()


class _Thread(object):
    def __init__(self, sched, ident, fn):
        self.sched = sched
        self.ident = ident
        self.fn = fn
        self.sem = threading.Semaphore(0)
        self.waiting = None
        self.done = False
        self.exc = None
        self.thread = None


class Deadlock(Exception):
    pass


class Scheduler(object):
    """preempt: dict step -> index of the thread to switch to (modulo enabled)."""

    def __init__(self, fns, preempt=None, opcodes=False, chooser=None, first=0, max_steps=200000, files=None):
        self.preempt = preempt or {}
        self.opcodes = opcodes
        self.chooser = chooser       # optional fn(step, me, enabled) -> thread index or None
        self.step = 0
        self.max_steps = max_steps
        self.main_sem = threading.Semaphore(0)
        self.deadlock = False
        self.aborting = False
        self.switches = []
        self.first = first
        self.pkg = env.PKG
        self.files = files
        self.threads = [_Thread(self, i, fn) for i, fn in enumerate(fns)]

    # -- tracing -------------------------------------------------------------
    def _trace(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if not fn.startswith(self.pkg) or ('thrift_gen' in fn and self.files is None):
            return None
        if self.files is not None and os.path.basename(fn) not in self.files:
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        me = _tls.me

        def local(frame, event, arg):
            if event == 'opcode' or event == 'line':
                self.yield_point(me)
            return local
        if event == 'call':
            self.yield_point(me)
        return local

    # -- scheduling ----------------------------------------------------------
    def enabled(self):
        return [t for t in self.threads if not t.done and t.waiting is None]

    def yield_point(self, me):
        if self.aborting:
            raise Abort()
        self.step += 1
        if self.step > self.max_steps:
            self.deadlock = True
            self._abort_all()
            raise Abort()
        nxt = None
        if self.chooser is not None:
            nxt = self.chooser(self.step, me.ident, self)
        elif self.step in self.preempt:
            nxt = self.preempt[self.step]
        if nxt is None or nxt == me.ident:
            return
        t = self.threads[nxt]
        if t.done or t.waiting is not None:
            return
        self._switch(me, t)

    def _switch(self, me, t):
        self.switches.append((self.step, t.ident))
        t.sem.release()
        me.sem.acquire()
        if self.aborting:
            raise Abort()

    def block(self, me, lock):
        me.waiting = lock
        en = self.enabled()
        if not en:
            self.deadlock = True
            self._abort_all()
            raise Abort()
        self._switch(me, self._next(me, en))

    def _next(self, me, en):
        # round robin from me
        n = len(self.threads)
        for k in range(1, n + 1):
            t = self.threads[(me.ident + k) % n]
            if t in en:
                return t

    def unblock(self, lock):
        for t in self.threads:
            if t.waiting is lock:
                t.waiting = None

    def _abort_all(self):
        self.aborting = True
        for t in self.threads:
            t.waiting = None
            if not t.done:
                t.sem.release()

    def _body(self, me):
        _tls.me = me
        me.sem.acquire()
        try:
            if not self.aborting:
                sys.settrace(self._trace)
                try:
                    me.fn()
                finally:
                    sys.settrace(None)
        except Abort:
            pass
        except BaseException as e:   # noqa
            me.exc = e
        finally:
            sys.settrace(None)
            me.done = True
            _tls.me = None
            en = self.enabled()
            if self.aborting:
                if all(t.done for t in self.threads):
                    self.main_sem.release()
            elif en:
                nxt = self._next(me, en)
                self.switches.append((self.step, nxt.ident))
                nxt.sem.release()
            elif all(t.done for t in self.threads):
                self.main_sem.release()
            else:
                self.deadlock = True
                self._abort_all()

    def run(self, timeout=20):
        assert _active[0] is None
        _active[0] = self
        try:
            for t in self.threads:
                t.thread = threading.Thread(target=self._body, args=(t,), daemon=True)
                t.thread.start()
            self.threads[self.first].sem.release()
            if not self.main_sem.acquire(timeout=timeout):
                self.deadlock = True
                self._abort_all()
                raise Deadlock('threads did not finish')
            for t in self.threads:
                t.thread.join(timeout)
        finally:
            _active[0] = None
        if self.deadlock:
            raise Deadlock('deadlock after %d steps' % self.step)
        return self


def schedules(scenario, threads, budget, rng, opcodes=False, bound=2, files=None):
    """Run scenario repeatedly under different schedules.

    scenario() -> (fns, collect): fresh thread functions and a function that
    returns the recorded history.  Yields (history, preempt, deadlock).
    Strategy: no preemption from every first thread; then every single
    preemption; then pairs (exhaustively if the budget allows, else sampled);
    then random preemption sets.
    """
    n = threads
    count = 0
    lengths = []

    def once(preempt, first):
        fns, collect = scenario()
        s = Scheduler(fns, preempt=preempt, opcodes=opcodes, first=first, files=files)
        dead = None
        try:
            s.run()
        except Deadlock as e:
            dead = str(e)
        excs = [t.exc for t in s.threads if t.exc is not None]
        return s, collect(), dead, excs

    for first in range(n):
        s, h, dead, excs = once({}, first)
        lengths.append(s.step)
        count += 1
        yield h, dict(first=first, preempt={}), dead, excs
    singles = [(f, k, t) for f in range(n) for k in range(1, lengths[f] + 1) for t in range(n)]
    if len(singles) > budget * 0.6:
        singles = rng.sample(singles, int(budget * 0.6))
    for f, k, t in singles:
        if count >= budget:
            return
        s, h, dead, excs = once({k: t}, f)
        count += 1
        yield h, dict(first=f, preempt={k: t}), dead, excs
    while count < budget:
        f = rng.randrange(n)
        m = rng.choice([2, 2, 2, 3, 3, 4, 6]) if bound >= 2 else 2
        pre = {rng.randint(1, max(lengths) + 4): rng.randrange(n) for _ in range(m)}
        s, h, dead, excs = once(pre, f)
        count += 1
        yield h, dict(first=f, preempt=pre), dead, excs

"""A tornado IOLoop on an asyncio loop with virtual time, which is run by the
driver step by step until it is quiescent."""
import asyncio
import selectors

from tornado.platform.asyncio import AsyncIOLoop

from . import core, env


class _Selector(selectors.SelectSelector):
    loop = None

    def select(self, timeout=None):
        lp = self.loop
        ready = super(_Selector, self).select(0)
        if ready:
            return ready
        if timeout is None:
            lp._idle_forever = True
            lp.stop()
            return []
        if timeout > 0:
            # nothing to do before now + timeout
            target = lp._vnow + timeout
            if lp._limit is not None and target > lp._limit + 1e-9:
                lp._vnow = max(lp._vnow, lp._limit)
                lp.stop()
            else:
                lp._vnow = target
                lp._jumps += 1
                if lp._jumps > 5000 + 100 * (target - lp._start):
                    # (no configuration that is tried has timers as fast as this)
                    raise core.CodeError('the timers on the event loop run out of control')
        return []


class VLoop(asyncio.SelectorEventLoop):
    def __init__(self, start=1000000.0):
        self._vnow = self._start = start
        self._jumps = 0
        self._limit = None
        self._idle_forever = False
        sel = _Selector()
        sel.loop = self
        super(VLoop, self).__init__(sel)
        self._clock_resolution = 1e-6
        self.errors = []
        self.set_exception_handler(lambda loop, ctx: self.errors.append(ctx))

    def time(self):
        return self._vnow


class VIOLoop(AsyncIOLoop):
    def initialize(self, **kw):
        super(VIOLoop, self).initialize(**kw)

    def time(self):
        return self.asyncio_loop.time()


class World(object):
    """Virtual time, an event loop, and the means to step it."""

    def __init__(self, start=1000000.0):
        self.aio = VLoop(start)
        self.io_loop = VIOLoop(asyncio_loop=self.aio, make_current=False)
        self._clock = env.virtual_clock(self.aio.time)

    def __enter__(self):
        self._clock.__enter__()
        return self

    def __exit__(self, *a):
        self._clock.__exit__()
        self.close()

    @property
    def now(self):
        return self.aio._vnow

    def settle(self):
        """Run everything that can run without the time advancing."""
        self.advance(0)

    def advance(self, dt):
        """Let dt seconds of virtual time pass, running every timer that is due."""
        self.aio._limit = self.aio._vnow + dt
        target = self.aio._limit
        for _ in range(10000):
            # stop() is requested by the selector once nothing is left to do
            self.aio.run_forever()
            if not self.aio._ready and not self._due(target):
                break
        else:
            raise core.CodeError('the event loop does not become idle')
        if self.aio._vnow < target:
            self.aio._vnow = target
        self.aio._limit = None

    def _due(self, target):
        h = [t for t in self.aio._scheduled if not t._cancelled]
        return bool(h) and min(t._when for t in h) <= target + 1e-9

    def run(self, fn):
        """Call fn on the loop and settle; returns its result."""
        box = []

        def call():
            try:
                box.append((True, fn()))
            except BaseException as e:   # noqa
                box.append((False, e))
        self.aio.call_soon(call)
        self.settle()
        ok, v = box[0]
        if not ok:
            raise v
        return v

    def close(self):
        try:
            for t in asyncio.all_tasks(self.aio):
                t.cancel()
            self.aio._limit = self.aio._vnow
            self.aio.call_soon(self.aio.stop)
            self.aio.run_forever()
        except Exception:
            pass
        try:
            self.io_loop.close()
        except Exception:
            try:
                self.aio.close()
            except Exception:
                pass

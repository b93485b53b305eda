"""Tracers of all parts together, from their first span to after their closing, for spec/LifeTrace.tla."""
import asyncio
import json
import threading
import time

from . import agent_http, compact, core, env
from .reporter_driver import fake_sockets
from .samp_driver import BASE
from .vloop import World

I, F = 8, 2
STRATEGY = json.dumps(dict(strategyType='PROBABILISTIC', probabilisticSampling=dict(samplingRate=1.0))).encode()


def answer_to(r, answers):
    sampling = r.request.url.split('?')[0].endswith('/sampling')
    if answers == 'good':
        body = STRATEGY if sampling else json.dumps(dict(balances=[dict(operation='deb', balance=2)])).encode()
        r.answer(body)
    elif answers == 'bad':
        r.answer(b'{"x"')
    elif answers == 'fail':
        r.answer(None)


def build(kind, remote, throttled, io_loop):
    if kind == 'config':
        from jaeger_client import Config
        conf = dict(service_name='s', sampling_refresh_interval=I, reporter_flush_interval=F, reporter_batch_size=3)
        if not remote:
            conf['sampler'] = dict(type='const', param=True)
        if throttled:
            conf['throttler'] = dict(refresh_interval=I)
        return Config(conf).new_tracer(io_loop=io_loop)
    from jaeger_client import ConstSampler, Tracer
    from jaeger_client.local_agent_net import LocalAgentSender
    from jaeger_client.reporter import CompositeReporter, InMemoryReporter, Reporter
    from jaeger_client.sampler import RemoteControlledSampler
    from jaeger_client.throttler import RemoteThrottler
    ch = LocalAgentSender('127.0.0.1', 5778, 6831, io_loop=io_loop, throttling_port=5779)
    rep = Reporter(ch, flush_interval=F, batch_size=3)
    if kind == 'composite':
        rep = CompositeReporter(InMemoryReporter(), rep)
    return Tracer('s', rep, RemoteControlledSampler(ch, 's', sampling_refresh_interval=I, init_sampler=ConstSampler(True)) if remote
                  else ConstSampler(True), throttler=RemoteThrottler(ch, 's', refresh_interval=I) if throttled else None)


class Life(object):
    def __init__(self, kind, remote, throttled, answers):
        self.kind, self.remote, self.throttled, self.answers = kind, remote, throttled, answers
        self.grams, self.futs, self.home, self.ev, self.gone = [], [], [], [], []
        self.late = False

    def sink(self, sock, data, peer):
        # (a span sent when the future of a close is complete already)
        self.late |= any(f.done() for i, f in enumerate(list(self.futs)) if i not in self.gone)
        self.grams.append(len(compact.batch_of(data)[2][1]))
        return len(data)

    def give_up(self, i):
        """The caller of the i-th close no longer waits."""
        if self.futs[i].cancel():
            self.gone.append(i)

    def use(self, tr, u, up=True):
        """-> (sampled, debug)"""
        from opentracing import Format
        if u == 'debug':
            s = tr.start_span('deb', child_of=tr.extract(Format.TEXT_MAP, {'jaeger-debug-id': 'd'}))
        else:
            from jaeger_client import SpanContext
            up = SpanContext(trace_id=5, span_id=6, parent_id=None, flags=1) if up else None
            s = tr.start_span('op', child_of=up)
        sampled = s.is_sampled()
        s.finish()
        return sampled, u == 'debug' and self.throttled

    def trace(self, cfg):
        return dict(cfg=dict(remote=self.remote, throttled=self.throttled, I=I, F=F, **cfg), ev=self.ev,
                    info=repr((self.kind, self.remote, self.throttled, self.answers, cfg)))

    def event(self, reqs, seen, grams, **kw):
        new = reqs[seen:]
        e = dict(k='', s=0, sampled=False, debug=False, err='', errs=[])
        e.update(kw)
        e['polls'] = sum(r.request.url.split('?')[0].endswith('/sampling') for r in new)
        e['creds'] = len(new) - e['polls']
        e['sent'] = sum(self.grams[grams:])
        e['done'] = [bool(f.done() and not f.cancelled() and f.exception() is None) for f in self.futs]
        e['home'] = list(self.home)
        e['gone'] = [i in self.gone for i in range(len(self.futs))]
        e['late'] = self.late
        self.ev.append(e)

    def run(self, uses, rng):
        """On virtual time."""
        with World(BASE) as w, agent_http.fake_http(lambda: 0) as reqs, fake_sockets(self.sink):
            try:
                tr = w.run(lambda: build(self.kind, self.remote, self.throttled, w.io_loop))
                for u in uses:
                    up = rng.random() < 0.5
                    n, g = len(reqs), len(self.grams)
                    kw = dict(k='span' if u == 'debug' else u)
                    try:
                        if u in ('span', 'debug'):
                            kw['sampled'], kw['debug'] = w.run(lambda: self.use(tr, u, up)) if rng.random() < 0.5 else self.use(tr, u, up)
                        elif u == 'rush':
                            kw['k'] = 'close'
                            todo = [lambda: self.event(reqs, n, g, k='span', sampled=self.use(tr, 'span', up)[0])] * rng.choice([0, 0, 1, 4, 7, 11])
                            todo += [lambda: self.futs.append(tr.close())] * rng.choice([1, 2, 3])
                            if rng.random() < 0.5 or self.kind == 'composite':
                                w.run(lambda: [t() for t in todo])
                            else:
                                [t() for t in todo]
                        elif u == 'giveup':
                            kw['k'] = 'close'

                            def close():
                                self.futs.append(tr.close())
                                later(rng.choice([0, 0, 1, 2, 3, 5]), len(self.futs) - 1)

                            def later(n, i):
                                if n:
                                    w.aio.call_soon(later, n - 1, i)
                                else:
                                    self.give_up(i)
                            w.run(close)
                        elif u == 'close':
                            if rng.random() < 0.5 or self.kind == 'composite':
                                self.futs.append(w.run(tr.close))
                            else:
                                self.futs.append(tr.close())
                        else:
                            s = dict(wait1=1, wait3=3, wait8=8, wait40=40)[u]
                            kw.update(k='wait', s=s)
                            for _ in range(s * 2):
                                w.advance(0.5)
                                for r in list(reqs):
                                    w.run(lambda r=r: answer_to(r, self.answers))
                        w.settle()
                    except Exception as x:
                        kw['err'] = repr(x)[:200]
                    kw['errs'] = [str(x)[:200] for x in w.aio.errors + env.loop_errors()]
                    del w.aio.errors[:]
                    self.event(reqs, n, g, **kw)
            finally:
                env.loop_errors()
        return self.trace(dict(real=False))

    def run_real(self, spans, caller, closes):
        """In real threads: the tracer has a thread of its own; it is closed by callers with and without event loops."""
        def until(cond):
            t = core.real_monotonic() + 10
            while not cond() and core.real_monotonic() < t:
                core.real_sleep(0.002)

        def done():
            return all(f.done() for f in self.futs)
        from jaeger_client import local_agent_net
        made = []

        class Sender(local_agent_net.LocalAgentSender):
            def __init__(self, *a, **kw):
                super(Sender, self).__init__(*a, **kw)
                made.append(self)
        with agent_http.fake_http(lambda: 0) as reqs, fake_sockets(self.sink), env.swapped((local_agent_net, 'LocalAgentSender', Sender)):
            tr = build(self.kind, self.remote, self.throttled, None)
            loop = made[0].io_loop
            ready = threading.Event()
            loop.add_callback(ready.set)
            if not ready.wait(10):
                raise core.CodeError('the event loop of the sender does not run')
            try:
                for i in range(spans):
                    g = len(self.grams)
                    sampled, debug = self.use(tr, 'span')
                    self.event(reqs, len(reqs), g, k='span', sampled=sampled, debug=debug)
                g, kw = len(self.grams), dict(k='close')
                try:
                    if caller in ('asyncio', 'hasty'):
                        asyncio.run(self._in_asyncio(tr, closes, caller == 'hasty'))
                    elif caller in ('starting', 'leaving'):
                        self._in_loop(tr, closes, caller == 'starting')
                    elif caller == 'threads':
                        ths = [threading.Thread(target=lambda: self.futs.append(tr.close())) for _ in range(closes)]
                        [t.start() for t in ths]
                        [t.join(10) for t in ths]
                        until(lambda: len(self.futs) == closes and done())
                        if len(self.futs) < closes:
                            kw['err'] = 'close raised or hangs'
                    elif caller == 'own':
                        # on the loop of the tracer itself
                        ev = threading.Event()
                        loop.add_callback(lambda: ([self.futs.append(tr.close()) for _ in range(closes)], ev.set()))
                        ev.wait(10)
                        until(done)
                    else:
                        for _ in range(closes):
                            self.futs.append(tr.close())
                        until(done)
                except Exception as x:
                    kw['err'] = repr(x)[:200]
                kw['errs'] = env.loop_errors()
                self.event(reqs, len(reqs), g, **kw)
                g = len(self.grams)
                kw = dict(k='span')
                try:
                    kw['sampled'], kw['debug'] = self.use(tr, 'span')
                    ev = threading.Event()
                    loop.add_callback(lambda: loop.add_callback(ev.set))
                    ev.wait(10)
                except Exception as x:
                    kw['err'] = repr(x)[:200]
                kw['errs'] = env.loop_errors()
                self.event(reqs, len(reqs), g, **kw)
            finally:
                loop.add_callback(loop.stop)
        return self.trace(dict(real=True))

    def _in_loop(self, tr, closes, starting):
        """The caller's event loop is started, or closed, exactly when the tracer asks whether it runs."""
        me, asked, done = threading.get_ident(), threading.Event(), threading.Event()

        class Loop(asyncio.SelectorEventLoop):
            def is_running(self):
                r = super(Loop, self).is_running()
                if threading.get_ident() != me and not done.is_set():
                    asked.set()
                    done.wait(0.05 if starting else 1)
                return r
        loop = Loop()

        async def leave():
            for _ in range(closes):
                self.futs.append(tr.close())
                self.give_up(len(self.futs) - 1)
            for _ in range(100):
                if asked.is_set():
                    break
                await asyncio.sleep(0.005)

        async def wait(fs):
            await asyncio.wait(fs, timeout=10)
        try:
            if starting:
                asyncio.set_event_loop(loop)
                self.futs.extend([tr.close() for _ in range(closes)])
                asked.wait(0.5)
                t = core.real_monotonic()
                loop.run_until_complete(wait(self.futs[-closes:]))
                if core.real_monotonic() > t + 8:
                    raise core.CodeError('the caller of close waits forever')
            else:
                loop.run_until_complete(leave())
        finally:
            asyncio.set_event_loop(None)
            loop.close()
            done.set()

    async def _in_asyncio(self, tr, closes, hasty):
        me = threading.get_ident()

        def mark(f):
            self.home.append(threading.get_ident() == me)
        fs = []
        if hasty:
            # callers that do not wait until it is closed
            self.futs.append(tr.close())
            self.give_up(0)
            f = tr.close()
            self.futs.append(f)
            try:
                await asyncio.wait_for(f, 0)
            except asyncio.TimeoutError:
                self.gone.append(1)
        for _ in range(closes):
            f = tr.close()
            f.add_done_callback(mark)
            fs.append(f)
        self.futs.extend(fs)
        try:
            await asyncio.wait_for(asyncio.gather(*fs), 10)
        except asyncio.TimeoutError:
            raise core.CodeError('the caller of close waits forever')


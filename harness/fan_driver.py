"""Composite and local reporters, for spec/FanTrace.tla and MemLin.tla."""
import asyncio
import logging
import threading

from . import env, sched
from .vloop import World


class Records(logging.Handler):
    def __init__(self):
        super(Records, self).__init__(0)
        self.records = []

    def emit(self, r):
        self.records.append(r)


class FanDriver(object):
    """shape: nested list of leaf kinds.  mode: 'loop' (the event loop runs), 'thread' (a thread without a loop),
    'main' (main thread, no running loop)."""
    def __init__(self, shape, mode):
        self.shape = shape
        self.mode = mode
        self.n = 0

    def build(self, shape):
        from jaeger_client import reporter as R
        from jaeger_client.reporter import CompositeReporter
        kids = []
        for x in shape:
            if isinstance(x, list):
                kids.append(self.build(x))
                continue
            i = len(self.leaves)
            self.leaves.append(x)
            if x == 'mem':
                r = R.InMemoryReporter()
                self.obs.append(lambda r=r: [self.ids.get(id(s), -1) for s in self.spans_of(r)])
            elif x == 'log':
                lg = logging.Logger('x%d' % i, logging.INFO)
                h = Records()
                lg.addHandler(h)
                if i % 2:
                    r = R.LoggingReporter(lg)
                else:                  # the default logger of the library
                    r = R.LoggingReporter()
                    lg = logging.getLogger('jaeger_tracing')
                    lg.addHandler(h)
                    self.cleanup.append((lg, lg.level, h))
                    lg.setLevel(logging.INFO)
                self.obs.append(lambda h=h: [self.logged(x) for x in h.records])
            elif x == 'null':
                r = R.NullReporter()
                self.obs.append(lambda: [])
            else:
                r = Stub(self, len(self.leaves))
                self.obs.append(lambda r=r: list(r.calls))
            kids.append(r)
        return CompositeReporter(*kids)

    def spans_of(self, r):
        got = r.get_spans()
        res = list(got)
        got.append(None)        # the snapshot belongs to the caller
        return res

    def logged(self, rec):
        text = rec.getMessage()
        for i, (op, tid) in self.names.items():
            if op in text and tid in text and rec.levelno == logging.INFO:
                return i
        return -1

    def future(self):
        if self.mode == 'loop':
            return asyncio.Future(loop=self.w.aio)
        return asyncio.Future(loop=self.own)

    def run(self, cmds):
        self.leaves, self.obs, self.ids, self.names, self.keep, self.cleanup = [], [], {}, {}, [], []
        self.futs, self.pend, self.ev = [], {}, []
        if self.mode == 'thread':
            t = threading.Thread(target=self._run, args=(cmds,))
            t.start()
            t.join(60)
        else:
            self._run(cmds)
        for lg, level, h in self.cleanup:
            lg.removeHandler(h)
            lg.setLevel(level)
        return dict(cfg=dict(leaves=self.leaves, sync=self.mode != 'loop'), ev=self.ev)

    def _run(self, cmds):
        env.loop_errors()
        self.own = asyncio.new_event_loop()
        self.own.set_debug(False)
        with World() as w:
            self.w = w
            self.top = self.build(self.shape)
            if self.mode == 'main':
                try:
                    self.old = asyncio.get_event_loop()
                except RuntimeError:
                    self.old = None
                asyncio.set_event_loop(w.aio)
            for c in cmds:
                raised = ''
                try:
                    if self.mode == 'loop':
                        w.run(lambda: self.do(c))
                    else:
                        self.do(c)
                except Exception as e:
                    raised = repr(e)[:200]
                    if c[0] == 'close':
                        self.futs.append(None)
                if self.mode == 'loop':
                    w.settle()
                e = dict(k=c[0], n=c[1] if c[0] in ('report', 'process', 'bulk') else 0, raised=raised)
                if c[0] == 'giveup':
                    e['n'] = c[1]
                if c[0] == 'complete':
                    e.update(leaf=c[1], n=c[2])
                errs = env.loop_errors() + [str(x) for x in w.aio.errors]
                if errs:
                    e['raised'] = str(errs)[:200]
                e['obs'] = [o() for o in self.obs]
                e['done'] = [('gone' if f is not None and f.cancelled() else 'yes' if f is not None and f.done() else 'no') for f in self.futs]
                self.ev.append(e)
            if self.mode == 'main':
                asyncio.set_event_loop(self.old)
        self.own.close()

    def do(self, c):
        from jaeger_client import SpanContext, Tracer, ConstSampler
        from jaeger_client.reporter import NullReporter
        if c[0] == 'process':
            self.top.set_process('svc%d' % c[1], {'t': c[1]}, 100 + c[1])
        elif c[0] == 'bulk':
            for i in range(c[1]):
                self.do(['report', 1000 + i])
        elif c[0] == 'report':
            if not self.keep:
                self.tr = Tracer('svc', NullReporter(), ConstSampler(True))
            s = self.tr.start_span('op-%d-x' % c[1], child_of=SpanContext(7 ** 20 + c[1], 2, 3, 1))
            self.keep.append(s)
            self.ids[id(s)] = c[1]
            self.names[c[1]] = ('op-%d-x' % c[1], '%x' % (7 ** 20 + c[1]))
            self.top.report_span(s)
        elif c[0] == 'close':
            self.futs.append(self.top.close())
        elif c[0] == 'giveup':           # its caller no longer waits
            self.futs[c[1] - 1].cancel()
        elif c[0] == 'complete':
            f = self.pend.get((c[1], c[2]))
            if f is not None and not f.done():
                how = c[3] if len(c) > 3 else 0
                if how == 2:
                    f.cancel()
                elif how:
                    f.set_exception(ValueError('the leaf failed to close'))
                    f.exception()
                else:
                    f.set_result(True)


class Stub(object):
    def __init__(self, d, i):
        self.d, self.i, self.calls, self.n = d, i, [], 0

    def set_process(self, service_name, tags, max_length):
        n = tags['t']
        ok = service_name == 'svc%d' % n and max_length == 100 + n
        self.calls.append(['process', n if ok else -1])

    def report_span(self, span):
        self.calls.append(['report', self.d.ids.get(id(span), -1)])

    def close(self):
        self.n += 1
        self.calls.append(['close', 0])
        f = self.d.future()
        self.d.pend[(self.i, self.n)] = f
        return f


def mem_traces(rng, programs, budget, opcodes):
    """programs: per thread a list of 'report' / 'get'."""
    def make():
        from jaeger_client.reporter import InMemoryReporter
        r = InMemoryReporter()
        ev = []
        cfg = dict(final=[])

        def body(t, ops):
            def fn():
                for j, o in enumerate(ops):
                    n = 10 * t + j
                    ev.append(dict(k='call', t=t, op=o, id=n))
                    got = []
                    if o == 'report':
                        r.report_span(n)
                    else:
                        got = list(r.get_spans())
                    ev.append(dict(k='ret', t=t, op=o, id=n, got=got))
            return fn

        def collect():
            cfg['final'] = r.get_spans()
            return cfg, ev
        return [body(i + 1, p) for i, p in enumerate(programs)], collect
    res = []
    for (cfg, ev), sch, dead, excs in sched.schedules(make, len(programs), budget, rng, opcodes=opcodes, files={'reporter.py'}):
        if dead:
            ev = ev + [dict(k='deadlock')]
        for x in excs:
            ev = ev + [dict(k='exception', text=repr(x)[:300])]
        res.append(dict(cfg=cfg, ev=ev, info=repr(sch)))
    return res

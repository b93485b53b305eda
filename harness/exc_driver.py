"""Blocks of spans and scopes that are left by exceptions, for spec/ExcTrace.tla."""
import traceback

from . import env
from .codec_driver import cps


class Odd(Exception):
    def __str__(self):
        return 'odd \u4e16\u754c'


class Stop(BaseException):
    pass


MAKE = [lambda: ValueError('wrong'), lambda: KeyError('k'), lambda: Exception(), lambda: OSError(2, 'none' * 20), lambda: Odd(1, 2), lambda: Stop('s'),
        lambda: KeyboardInterrupt(), lambda: StopIteration(5), lambda: GeneratorExit(), lambda: RuntimeError('x' * 2000)]


class Deep(Exception):
    pass


class Blocks(object):
    def __init__(self, excs, limit, tblimit, rng, depth=3):
        from jaeger_client import Tracer
        from jaeger_client.reporter import NullReporter
        from jaeger_client.sampler import ConstSampler
        self.excs, self.rng, self.depth = excs, rng, depth
        self.ev, self.rep, self.spans = [], [], []
        outer = self
        self.sampler = ConstSampler(True)

        class Rep(NullReporter):
            def report_span(self, span):
                n = outer.number(span)
                outer.rep.append(dict(n=n, tags=sum(t.key == 'error' and t.vBool is True for t in span.tags),
                                      logs=[{f.key: cps(f.vStr) if f.vStr is not None else [-1] for f in lg.fields} for lg in span.logs]))
        kw = {}
        if limit:
            kw['max_tag_value_length'] = limit
        if tblimit:
            kw['max_traceback_length'] = tblimit
        self.tracer = Tracer('s', Rep(), self.sampler, **kw)
        made = [MAKE[i]() for i in excs]
        self.cfg = dict(max=limit or 1024, maxtb=tblimit or 4096, error=cps('error'), excs=[dict(msg=cps(str(x)), kind=cps(str(type(x)))) for x in made])

    def number(self, span):
        return ([i + 1 for i, s in enumerate(self.spans) if s is span] or [0])[0]

    def event(self, e, **kw):
        a = self.tracer.active_span
        r = dict(dict(k='', n=0, on=False, kind='', x=0, tb=[], same=True, err=''), **{k: v for k, v in e.items() if k != 'd'})
        r.update(kw)
        r.update(active=self.number(a) if a is not None else 0, rep=[dict(x) for x in self.rep])
        self.ev.append(r)

    def manager(self, e):
        t = self.tracer
        self.sampler.decision = e['on']
        if e['n']:
            s = self.spans[e['n'] - 1]
            return s if e['kind'] == 'span' else t.scope_manager.activate(s, e['kind'] == 'scope')
        if e['kind'] == 'span':
            s = t.start_span('op', ignore_active_span=True)
            self.spans.append(s)
            return s
        if self.rng.random() < 0.5:
            sc = t.start_active_span('op', ignore_active_span=True, finish_on_close=e['kind'] == 'scope')
        else:
            sc = t.scope_manager.activate(t.start_span('op', ignore_active_span=True), e['kind'] == 'scope')
        self.spans.append(sc.span)
        return sc

    def boom(self, x, deep):
        if deep:
            self.crash(x, deep - 1)
        raise x

    def crash(self, x, deep):            # (repeated lines of one function are not shown)
        if deep:
            self.boom(x, deep - 1)
        raise x

    def body(self, depth):
        while self.cmds:
            e = self.cmds.pop(0)
            if e['k'] == 'enter':
                try:
                    with self.manager(e):
                        self.event(e)
                        self.body(depth + 1)
                    self.event(dict(k='leave'))
                except BaseException as x:
                    if self.flying is None:
                        raise
                    f = self.flying
                    self.event(dict(k='unwind', x=f['x']), same=x is f['exc'], tb=cps(''.join(traceback.format_tb(x.__traceback__))))
                    if depth > f['d']:
                        raise
                    self.flying = None
            elif e['k'] == 'leave':
                return
            elif e['k'] == 'finish':
                self.spans[e['n'] - 1].finish()
                self.event(e)
            else:
                x = MAKE[self.excs[e['x'] - 1]]()
                self.flying = dict(x=e['x'], d=e['d'], exc=x)
                if self.rng.random() < 0.5:
                    self.boom(x, self.rng.randint(0, self.depth))
                raise x

    def run(self, cmds):
        self.cmds, self.flying = list(cmds), None
        try:
            self.body(0)
        except BaseException as x:
            self.event(dict(k='end'), err=repr(x)[:200])
        return dict(cfg=self.cfg, ev=self.ev, info=repr([(e['k'], e['n'], e['kind'], e['x'], e['d']) for e in cmds]))

"""Several tracers in one process, for spec/PairTrace.tla."""
import os

from . import compact, env
from .reporter_driver import fake_sockets
from .samp_driver import BASE
from .vloop import World

COUNTS = {'jaeger:started_spans': 'started', 'jaeger:finished_spans': 'finished'}
AUTO = ('jaeger.version', 'hostname', 'ip')


class Throttler(object):
    def set_client_id(self, i):
        pass

    def is_allowed(self, operation=''):
        return True

    def close(self):
        pass


def fmt_of(f):
    from opentracing import Format
    return dict(text=Format.TEXT_MAP, http=Format.HTTP_HEADERS, bin=Format.BINARY)[f]


def factory(counts):
    from jaeger_client.metrics import MetricsFactory

    class MF(MetricsFactory):
        def create_counter(self, name, tags=None):
            k = COUNTS.get(name)

            def count(v):
                if k:
                    counts[k] += v
            return count
    return MF()


def configs(rng, n):
    """Configurations of n tracers, of which some agree on some of the names."""
    def name(i, pre, default):
        x = rng.choice([i, i, 1, 0])
        return default if x == 0 else '%s%d' % (pre, x)
    res = [dict(svc='svc%d' % rng.choice([i, i, 1]), hdr=name(i, 'hdr', 'uber-trace-id'), pre=name(i, 'pre', 'uberctx') + '-',
                 dhdr=name(i, 'dbg', 'jaeger-debug-id'), wide=rng.random() < 0.5, on=rng.random() < 0.7,
                 max=rng.choice([3, 8, 1024]), one=rng.random() < 0.3,
                 tags=sorted('%s=%s' % (k, rng.choice(['a', 'b%d' % i])) for k in rng.sample(['t', 'u%d' % i, 'w'], rng.randint(0, 2))),
                 thr=rng.random() < 0.5, kind=rng.choice(['config', 'config', 'tracer', 'tracer', 'config env'])) for i in range(1, n + 1)]
    if rng.random() < 0.3:
        for g in res:
            g.update(kind='tracer', tags=list(res[0]['tags']))
    return res


class Pair(object):
    def __init__(self, cfgs, shared):
        """shared: all are made from one dict, which is changed in between"""
        self.g, self.shared = cfgs, shared
        for g in cfgs:
            if g['kind'] != 'tracer':
                g['one'] = g['thr'] = False
        n = len(cfgs)
        self.sent = [[] for _ in range(n)]
        self.who = [[] for _ in range(n)]
        self.tags = [[] for _ in range(n)]
        self.stray = [[] for _ in range(n)]
        self.counts = [dict(started=0, finished=0) for _ in range(n)]
        self.tracers = [None] * n
        self.scopes = [[] for _ in range(n)]
        self.spans, self.cars, self.ev = [], [], []
        self.conf, self.tagdict, self.common, self.same = {}, {}, dict(z='q'), {}
        for g in cfgs:
            if g['kind'] == 'config env':
                g['tags'] = sorted(g['tags'] + ['z=q'])
            # (tracers with throttlers add an id of their own)
            g['own'] = g['tags']
            g['tags'] = sorted(g['tags'] + ['client-uuid'] * g['thr'])

    def sink(self, sock, data, peer):
        i = peer[1] - 7000
        try:
            b = compact.batch_of(data)
            p = b[1][1]
            self.who[i].append(p[1][1].decode())
            tags = sorted('%s=%s' % (t[1][1].decode(), t[3][1].decode()) if 3 in t else t[1][1].decode() for t in (p[2][1] if 2 in p else []) if t[1][1].decode() not in AUTO)
            self.tags[i].append(tags)
            for s in b[2][1]:
                self.sent[i].append(dict(sid='%x' % s[3][1], lens=[len(t[3][1]) for t in (s[10][1] if 10 in s else []) if t[1][1].startswith(b'x')]))
        except Exception as e:
            self.stray[i if 0 <= i < len(self.stray) else 0].append(repr(e)[:100])
        return len(data)

    def make(self, w, i):
        from jaeger_client import Config, ConstSampler, Tracer
        from jaeger_client.local_agent_net import LocalAgentSender
        from jaeger_client.reporter import Reporter
        g = self.g[i]
        tags = self.tagdict if self.shared else {}
        if g['kind'] == 'tracer' and self.shared:
            # the same tags are the same object
            tags = self.same.setdefault(tuple(g['own']), dict(t.split('=') for t in g['own']))
        else:
            tags.clear()
            tags.update(t.split('=') for t in g['own'])
        if g['kind'] == 'tracer':
            ch = LocalAgentSender('127.0.0.1', 5778, 7000 + i, io_loop=w.io_loop)
            return Tracer(g['svc'], Reporter(ch, batch_size=1, flush_interval=0.5), ConstSampler(g['on']), metrics_factory=factory(self.counts[i]),
                          trace_id_header=g['hdr'], baggage_header_prefix=g['pre'], debug_id_header=g['dhdr'], generate_128bit_trace_id=g['wide'],
                          one_span_per_rpc=g['one'], tags=tags, max_tag_value_length=g['max'], throttler=Throttler() if g['thr'] else None)
        conf = self.conf if self.shared else {}
        conf.clear()
        conf.update(service_name=g['svc'], trace_id_header=g['hdr'], baggage_header_prefix=g['pre'], debug_id_header=g['dhdr'],
                    max_tag_value_length=g['max'], sampler=dict(type='const', param=g['on']), reporter_batch_size=1, reporter_flush_interval=0.5)
        if g['kind'] == 'config':
            conf.update(generate_128bit_trace_id=g['wide'], tags=tags, local_agent=dict(reporting_port=7000 + i))
            return Config(conf, metrics_factory=factory(self.counts[i])).new_tracer(io_loop=w.io_loop)
        e = dict(JAEGER_AGENT_PORT=str(7000 + i), JAEGER_TRACEID_128BIT='true' if g['wide'] else 'false', JAEGER_TAGS=','.join(t for t in g['own'] if t != 'z=q'))
        conf['tags'] = self.common
        os.environ.update(e)
        try:
            return Config(conf, metrics_factory=factory(self.counts[i])).new_tracer(io_loop=w.io_loop)
        finally:
            for k in e:
                del os.environ[k]

    def start(self, e, rng):
        t = self.tracers[e['i'] - 1]
        kw = dict(ignore_active_span=e['ign'])
        if e['n']:
            s = self.spans[e['n'] - 1]
            kw['child_of'] = rng.choice([s, s.context])
        elif e['c']:
            c, f = self.cars[e['c'] - 1]
            kw['child_of'] = t.extract(fmt_of(f if f == 'bin' else rng.choice(['text', 'http'])), c)
            if kw['child_of'] is None:
                kw['ignore_active_span'] = True
        if e['srv']:
            kw['tags'] = {'span.kind': 'server'}
        if e['act']:
            sc = t.start_active_span('op', finish_on_close=False, **kw)
            self.scopes[e['i'] - 1].append(sc)
            s = sc.span
        else:
            s = t.start_span('op', **kw)
        self.spans.append(s)
        c = s.context
        return dict(tid='%x' % c.trace_id, sid='%x' % c.span_id, par='%x' % c.parent_id if c.parent_id else '', wide=c.trace_id >= 1 << 64,
                    on=s.is_sampled(), dbg=s.is_debug(), bag=dict(c.baggage or {}), dtags=[t.key for t in s.tags if t.vStr == 'dbg'], svc=s.tracer.service_name)

    def step(self, e, rng, w):
        k, n, i = e['k'], e['n'], e['i'] - 1
        if k == 'make':
            self.tracers[i] = w.run(lambda: self.make(w, i))
        elif k == 'start':
            return self.start(e, rng)
        elif k == 'leave':
            self.scopes[i].pop().close()
        elif k == 'tag':
            self.spans[n - 1].set_tag('x%d' % len(self.ev), 'v' * e['len'])
        elif k == 'bag':
            self.spans[n - 1].set_baggage_item(e['key'], e['val'])
        elif k == 'finish':
            self.spans[n - 1].finish()
        elif k == 'inject':
            c = bytearray() if e['fmt'] == 'bin' else {}
            self.tracers[i].inject(rng.choice([self.spans[n - 1], self.spans[n - 1].context]), fmt_of(e['fmt']), c)
            self.cars.append((c, e['fmt']))
            e['names'] = sorted(c) if e['fmt'] != 'bin' else []
        elif k == 'debug':
            self.cars.append(({self.g[i]['dhdr']: 'dbg'}, 'text'))
        elif k == 'close':
            self.tracers[i].close()

    def view(self, i):
        t = self.tracers[i]
        a = t.active_span if t else None
        return dict(sent=list(self.sent[i]), who=list(self.who[i]), tags=[list(x) for x in self.tags[i]], stray=list(self.stray[i]),
                    active='%x' % a.span_id if a is not None else '', **self.counts[i])

    def run(self, cmds, rng):
        none = dict(tid='', sid='', par='', wide=False, on=False, dbg=False, bag={}, dtags=[], svc='')
        with World(BASE) as w, fake_sockets(self.sink):
            try:
                for c in cmds:
                    e = dict(c, err='', names=[], out=none)
                    try:
                        e['out'] = self.step(e, rng, w) or none
                        w.advance(1)
                    except Exception as x:
                        e['err'] = repr(x)[:200]
                    errs = [str(x)[:200] for x in w.aio.errors + env.loop_errors()]
                    del w.aio.errors[:]
                    e['err'] = e['err'] or ' '.join(errs)
                    e['views'] = [self.view(i) for i in range(len(self.g))]
                    self.ev.append(e)
                    if e['err']:
                        break
            finally:
                for t in self.scopes:
                    for s in reversed(t):
                        s.close()
                env.loop_errors()
        return dict(cfg=dict(g=self.g), ev=self.ev, info=repr((self.g, self.shared))[:600])

"""Several services that exchange requests, for spec/HopTrace.tla."""
from . import compact, env
from .pair_driver import fmt_of
from .reporter_driver import fake_sockets
from .samp_driver import BASE
from .vloop import World

VALUES = ['%s', 'x %s', '%s%%41', u'\xe9 %s', '%s=a,b;c', u'\u4e16%s', '  %s', '%s+:/?&#"']
KEYS = [('a', 'b'), ('user_id', 'user-id'), ('a.b', 'a'), ('ab', 'b'), ('k 1', 'k=1'), ('a,b', 'c;d'), (u'\xe9', 'e'), ('x-trace', 'x-bag-a')]
REL = {0: 'child', 1: 'follows'}


def again(cmds, n, rng):
    """More requests from one span, which is changed in between."""
    spans = sum(c['k'] in ('root', 'debug', 'child', 'recv') for c in cmds)
    msgs = sum(c['k'] == 'send' for c in cmds)
    e0 = dict(k='', svc=rng.randint(1, n), n=0, yes=rng.random() < 0.5, fmt='', strip='none', rel='child', key='', v='')
    if not spans or rng.random() < 0.5:
        return []
    h, fmt, res = rng.randint(1, spans), rng.choice(['text', 'http', 'bin']), []
    done = {c['n'] for c in cmds if c['k'] == 'finish'}
    for i in range(rng.randint(2, 4)):
        res.append(dict(e0, k='send', n=h, fmt=fmt))
        if rng.random() < 0.5 and h not in done:
            res.append(dict(e0, k='force', n=h))
        if rng.random() < 0.6:
            res.append(dict(e0, k='bag', n=h, key=rng.choice('ab'), v='w%d' % i))
    got = [i + 1 for i in range(sum(c['k'] == 'send' for c in res))]
    rng.shuffle(got)
    return res + [dict(e0, k='recv', n=msgs + i) for i in got]


class Hop(object):
    def __init__(self, n, b3, rng):
        self.rng, self.b3 = rng, b3
        self.names = ['svc%d' % i for i in range(n)]
        custom = rng.random() < 0.5
        self.common = dict(trace_id_header='x-trace', baggage_header_prefix='x-bag-', debug_id_header='x-debug') if custom and not b3 else {}
        if b3:
            self.common['propagation'] = 'b3'
        self.wide = [rng.random() < 0.5 for _ in range(n)]
        self.keys = dict(zip('ab', rng.choice(KEYS)))
        self.wire = [[] for _ in range(n)]
        self.asked, self.say = 0, False
        self.spans, self.msgs, self.ev, self.vals = [], [], [], {}

    def sink(self, sock, data, peer):
        i = peer[1] - 7000
        b = compact.batch_of(data)
        for s in b[2][1]:
            tags = {t[1][1].decode() for t in s[10][1]} if 10 in s else set()
            op = s[5][1].decode()
            refs = [[REL[r[1][1]], self.tid(r[3][1], r[2][1]), '%x' % r[4][1]] for r in s[6][1]] if 6 in s else []
            self.wire[i].append(dict(svc=b[1][1][1][1].decode(), h=int(op[2:]), tid=self.tid(s[2][1], s[1][1]), sid='%x' % s[3][1],
                                     par='%x' % s[4][1] if s[4][1] else '', fl=s[7][1], stag='sampler.type' in tags, refs=refs))
        return len(data)

    @staticmethod
    def tid(high, low):
        return '%x' % (high << 64 | low)

    def tracer(self, i, w):
        from jaeger_client import Config
        from jaeger_client.local_agent_net import LocalAgentSender
        from jaeger_client.reporter import Reporter
        from jaeger_client.sampler import Sampler
        d = self

        class Scripted(Sampler):
            def is_sampled(self, trace_id, operation=''):
                d.asked += 1
                return d.say, {'sampler.type': 'scripted', 'sampler.param': i} if d.say else {}

            def close(self):
                pass
        conf = dict(self.common, service_name=self.names[i], generate_128bit_trace_id=self.wide[i])
        ch = LocalAgentSender('127.0.0.1', 5778, 7000 + i, io_loop=w.io_loop)
        rep = Reporter(ch, batch_size=self.rng.choice([1, 3, 10]), flush_interval=0.5)
        return Config(conf).create_tracer(rep, Scripted(None))

    def inject(self, e):
        s = self.spans[e['n'] - 1]
        c = bytearray() if e['fmt'] == 'bin' else {}
        s.tracer.inject(self.rng.choice([s, s.context]), fmt_of(e['fmt']), c)
        self.msgs.append((c, e['fmt']))

    def deliver(self, t, e):
        """What the tracer extracts of a message, which proxies have changed on its way."""
        c, f = self.msgs[e['n'] - 1]
        rng, strip = self.rng, e['strip']
        if f == 'bin':
            if strip in ('bag', 'trace'):
                strip = e['strip'] = 'none'
            if strip == 'all':
                return None
            return t.extract(fmt_of(f), bytearray(c))
        pre = self.common.get('baggage_header_prefix', 'uberctx-')
        h = {}
        for k, v in c.items():
            bag = k.lower().startswith(pre)
            if strip == 'all' or strip == 'bag' and bag or strip == 'trace' and not bag:
                continue
            h[rng.choice([k, k.upper(), k.title()])] = v
        h.update(rng.choice([{}, {'Accept': '*/*', 'Content-Length': '7'}, {'x-other': ''}]))
        return t.extract(fmt_of(f), h)

    def begin(self, e, t, ctx):
        import opentracing
        kw = dict(ignore_active_span=True)
        ref = ctx is not None and (e['rel'] == 'follows' or self.rng.random() < 0.3)
        if ref:
            kw['references'] = (opentracing.follows_from if e['rel'] == 'follows' else opentracing.child_of)(getattr(ctx, 'context', ctx))
        elif ctx is not None:
            kw['child_of'] = ctx
        if e['k'] == 'recv' and self.rng.random() < 0.5:
            kw['tags'] = {'span.kind': 'server'}
        self.asked, self.say = 0, e['yes']
        s = t.start_span('op%d' % (len(self.spans) + 1), **kw)
        self.spans.append(s)
        c = s.context
        return dict(tid='%x' % c.trace_id, sid='%x' % c.span_id, par='%x' % c.parent_id if c.parent_id else '', asked=self.asked, ref=ref)

    def step(self, e, w):
        k = e['k']
        s = self.spans[e['n'] - 1] if k in ('child', 'bag', 'force', 'finish') else None
        t = self.tracers[e['svc'] - 1]
        if k == 'root':
            return self.begin(e, t, None)
        if k == 'debug':
            from opentracing import Format
            return self.begin(e, t, t.extract(Format.TEXT_MAP, {self.common.get('debug_id_header', 'jaeger-debug-id'): 'dbg'}))
        if k == 'child':
            return self.begin(e, s.tracer, self.rng.choice([s, s.context]))
        if k == 'recv':
            return self.begin(e, t, self.deliver(t, e))
        if k == 'bag':
            v = self.rng.choice(VALUES) % e['v']
            self.vals[v] = e['v']
            s.set_baggage_item(self.keys[e['key']], v)
        elif k == 'force':
            s.set_tag('sampling.priority', 1 if e['yes'] else 0)
        elif k == 'finish':
            s.finish()
        elif k == 'send':
            self.inject(e)
        elif k == 'wait':
            w.advance(1)
        elif k == 'end':
            for t in self.tracers:
                t.close()
            w.settle()

    def view(self, s):
        names = {v: k for k, v in self.keys.items()}
        bag = [(names.get(k, ascii(k)), s.get_baggage_item(k)) for k in sorted(set(s.context.baggage or {}) | set(names))]
        return dict(on=s.is_sampled(), dbg=s.is_debug(), bag=[[k, self.vals.get(v, ascii(v))] for k, v in bag if v is not None])

    def run(self, cmds):
        none = dict(tid='', sid='', par='', asked=0, ref=False)
        with World(BASE) as w, fake_sockets(self.sink):
            try:
                self.tracers = []
                for i in range(len(self.names)):
                    self.tracers.append(self.tracer(i, w))
                    w.advance(0.01)          # (ids depend on the time a tracer is made)
                for c in cmds + [dict(k='wait', n=0, svc=1, rel='', strip=''), dict(k='end', n=0, svc=1, rel='', strip='')]:
                    if self.b3 and c['k'] == 'debug':
                        c = dict(c, k='root')
                    if self.b3 and c['k'] == 'force' and c['yes']:
                        continue                 # (known finding of C18)
                    if self.b3 and c['k'] == 'recv' and self.msgs[c['n'] - 1][1] == 'http':
                        c = dict(c, strip={'bag': 'none', 'trace': 'all'}.get(c['strip'], c['strip']))
                    e = dict(c, err='', wire=[])
                    e['out'] = none
                    try:
                        e['out'] = self.step(e, w) or none
                        w.settle()
                    except Exception as x:
                        e['err'] = repr(x)[:200]
                    errs = [str(x)[:200] for x in w.aio.errors + env.loop_errors()]
                    del w.aio.errors[:]
                    e['err'] = e['err'] or ' '.join(errs)
                    e['views'] = [self.view(s) for s in self.spans]
                    if c['k'] == 'end':
                        e['wire'] = self.wire
                    self.ev.append(e)
                    if e['err']:
                        break
            finally:
                env.loop_errors()
        return dict(cfg=dict(names=self.names, b3=self.b3), ev=self.ev, info=repr((self.b3, self.common, self.wide, self.keys)))

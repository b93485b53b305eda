"""Executes command sequences (from spec/Tracer.tla or random ones) on a real
Tracer and records after every command the projected state of everything."""
import asyncio
import contextvars
import itertools
import queue
import threading

from . import core, env

BASE = 1000000.0
TICK = 0.125


def token(v):
    """The expected encoding of a tag value, computed independently of the code."""
    if v is True or v is False:
        return 'b:true' if v else 'b:false'
    if isinstance(v, int) and -2 ** 63 <= v < 2 ** 63:
        return 'l:%d' % v
    if isinstance(v, float):
        return 'd:%r' % v
    try:
        return 's:' + str(v)[:1024]
    except Exception as e:
        return 's:' + str(e)


def tag_token(t):
    from jaeger_client.thrift_gen.jaeger.ttypes import TagType
    if t.vType == TagType.BOOL:
        return 'b:true' if t.vBool else 'b:false'
    if t.vType == TagType.LONG:
        return 'l:%d' % t.vLong
    if t.vType == TagType.DOUBLE:
        return 'd:%r' % t.vDouble
    if t.vType == TagType.STRING:
        return 's:%s' % t.vStr
    return 'x:%r' % (t,)


def mktag(k, v):
    """A tag of a command: with what the specification needs to know about v."""
    num = 'none'
    if k == 'sampling.priority':
        try:
            num = 'zero' if int(v) == 0 else 'one'
        except (ValueError, TypeError, OverflowError):
            num = 'none'
    return dict(k=k, v=token(v), truthy=bool(v), num=num, py=v)


def untoken(t):
    k, v = t[0], t[2:]
    if k == 'b':
        return v == 'true'
    if k == 'l':
        return int(v)
    if k == 'd':
        return float(v)
    return v


class Worker(object):
    """A real thread that executes one closure at a time."""
    def __init__(self):
        self.q = queue.Queue()
        self.r = queue.Queue()
        self.t = threading.Thread(target=self._loop, daemon=True)
        self.t.start()

    def _loop(self):
        while True:
            fn = self.q.get()
            if fn is None:
                return
            try:
                self.r.put((True, fn()))
            except BaseException as e:   # noqa
                self.r.put((False, e))

    def call(self, fn):
        self.q.put(fn)
        ok, v = self.r.get(timeout=30)
        if not ok:
            raise v
        return v

    def stop(self):
        self.q.put(None)


class ContextWorker(object):
    """A context of its own (as of a request), in the calling thread."""
    def __init__(self):
        self.c = contextvars.Context()

    def call(self, fn):
        return self.c.run(fn)

    def stop(self):
        pass


class TaskWorker(object):
    """A task of an event loop, which executes one closure at a time."""
    loop = None

    def __init__(self):
        self.q, self.r = asyncio.Queue(), asyncio.Queue()
        self.t = self.loop.create_task(self._run())

    async def _run(self):
        while True:
            fn = await self.q.get()
            if fn is None:
                return
            try:
                self.r.put_nowait((True, fn()))
            except Exception as e:
                self.r.put_nowait((False, e))

    def call(self, fn):
        self.q.put_nowait(fn)
        ok, v = self.loop.run_until_complete(asyncio.wait_for(self.r.get(), 30))
        if not ok:
            raise v
        return v

    def stop(self):
        self.q.put_nowait(None)
        self.loop.run_until_complete(self.t)


def scope_manager(mode):
    if mode == 'contexts':
        from opentracing.scope_managers.contextvars import ContextVarsScopeManager
        return dict(scope_manager=ContextVarsScopeManager())
    if mode == 'tasks':
        from opentracing.scope_managers.asyncio import AsyncioScopeManager
        return dict(scope_manager=AsyncioScopeManager())
    return {}


METRICS = {
    ('jaeger:traces', ('sampled', 'y'), ('state', 'started')): 'ts',
    ('jaeger:traces', ('sampled', 'n'), ('state', 'started')): 'tn',
    ('jaeger:traces', ('sampled', 'y'), ('state', 'joined')): 'js',
    ('jaeger:traces', ('sampled', 'n'), ('state', 'joined')): 'jn',
    ('jaeger:started_spans', ('sampled', 'y')): 'ss',
    ('jaeger:started_spans', ('sampled', 'n')): 'sn',
    ('jaeger:finished_spans',): 'fin',
}


def metrics_factory(met):
    from jaeger_client.metrics import MetricsFactory

    class MF(MetricsFactory):
        def create_counter(self, name, tags=None):
            key = METRICS.get((name,) + tuple(sorted((tags or {}).items())))

            def count(v):
                if key:
                    met[key] += v
            return count
    return MF()


_n = itertools.count()


def metrics_args(met):
    """A factory, or (for every fourth tracer) the deprecated metrics."""
    if next(_n) % 4:
        return dict(metrics_factory=metrics_factory(met))
    from jaeger_client.metrics import Metrics

    def count(key, v):
        name, tags = key.split('.')[0], key.split('.')[1:]
        key = METRICS.get((name,) + tuple(sorted(tuple(t.split('_', 1)) for t in tags)))
        if key:
            met[key] += v
    return dict(metrics=Metrics(count=count))


class Driver(object):
    runs = 0

    def __init__(self, threads=2, one=False, thr=False, wide=False, rng=None):
        self.cfg = dict(threads=threads, one=one, thr=thr, dbghdr='jaeger-debug-id')
        self.wide = wide
        self.rng = rng

    def run(self, cmds):
        self.t = BASE
        self.ids = {}
        self.spans = []
        self.ctxs = []
        self.rep = []
        self.met = dict(ss=0, sn=0, ts=0, tn=0, js=0, jn=0, fin=0)
        self.ev = []
        n = self.cfg['threads']
        Driver.runs += 1
        self.mode = ['threads', 'contexts', 'threads', 'tasks'][Driver.runs % 4] if n > 1 else 'threads'
        if self.mode == 'tasks':
            TaskWorker.loop = asyncio.new_event_loop()
        # what the specification calls a thread: real ones, contexts of one thread, or tasks of one event loop
        self.workers = [None if self.mode == 'threads' else dict(contexts=ContextWorker, tasks=TaskWorker)[self.mode]()]
        self.workers += [dict(threads=Worker, contexts=ContextWorker, tasks=TaskWorker)[self.mode]() for _ in range(n - 1)]
        self.scopes = [[] for _ in range(n)]
        with env.virtual_clock(lambda: self.t):
            try:
                self._build()
                for c in cmds:
                    self._command(dict(c))
            finally:
                for w in self.workers:
                    if w:
                        w.stop()
                if self.mode == 'tasks':
                    TaskWorker.loop.close()
        return dict(cfg=self.cfg, ev=self.ev, info=self.mode)

    def _build(self):
        from jaeger_client import Tracer
        from jaeger_client.reporter import NullReporter
        from jaeger_client.sampler import Sampler
        d = self

        class S(Sampler):
            def is_sampled(self, trace_id, operation=''):
                d.sampcalls.append((trace_id, operation))
                sp = d.samp or dict(yes=False, tags=[])
                return sp['yes'], {t['k']: t.get('py', untoken(t['v'])) for t in sp['tags']}

            def close(self):
                pass

        class R(NullReporter):
            def report_span(self, span):
                d.rep.append(d.handle(span))

        class Thr(object):
            def set_client_id(self, i):
                pass

            def is_allowed(self, operation=''):
                r = d.thr[len(d.asked)] if len(d.asked) < len(d.thr) else True
                d.asked.append(operation)
                return r

            def close(self):
                pass
        self.tracer = Tracer('svc', R(), S(), **metrics_args(self.met), **scope_manager(self.mode),
                             one_span_per_rpc=self.cfg['one'], generate_128bit_trace_id=self.wide,
                             throttler=Thr() if self.cfg['thr'] else None)

    def handle(self, span):
        for i, s in enumerate(self.spans):
            if s is span:
                return i + 1
        return 0

    # -- projection ----------------------------------------------------------
    def cid(self, i):
        if not i:
            return 0
        if i not in self.ids:
            self.ids[i] = len(self.ids) + 1
        return self.ids[i]

    def ticks(self, t):
        x = (t - BASE) / TICK
        return int(x) if x == int(x) else -987654

    def bag(self, b):
        return sorted([[str(k), str(v)] for k, v in b.items()])

    def pspan(self, s):
        c = s.context
        refs = []
        for r in s.references or []:
            x = r.referenced_context
            refs.append(['child' if r.type == 'child_of' else 'follows' if r.type == 'follows_from' else r.type,
                         self.cid(x.trace_id), self.cid(x.span_id), bool(x.has_trace)])
        return dict(tid=self.cid(c.trace_id), sid=self.cid(c.span_id), pid=self.cid(c.parent_id), fl=c.flags,
                    bag=self.bag(c.baggage), op=s.operation_name, tags=[[t.key, tag_token(t)] for t in s.tags],
                    logs=[dict(t=self.ticks(lg.timestamp / 1e6), f=[[t.key, tag_token(t)] for t in lg.fields])
                          for lg in s.logs],
                    st=self.ticks(s.start_time), en=[] if s.end_time is None else [self.ticks(s.end_time)],
                    fin=bool(s.finished), refs=refs)

    def pctx(self, c):
        return dict(tid=self.cid(c.trace_id), sid=self.cid(c.span_id), pid=self.cid(c.parent_id),
                    fl=c.flags or 0, bag=self.bag(c.baggage), dbg=c.debug_id or '', tr=bool(c.has_trace))

    def post(self):
        act = []
        for i in range(self.cfg['threads']):
            a = self._in(i + 1, lambda: self.tracer.active_span)
            act.append(0 if a is None else self.handle(a))
        spans = [self.pspan(s) for s in self.spans]
        ctxs = [self.pctx(c) for c in self.ctxs]
        return dict(spans=spans, ctxs=ctxs, rep=list(self.rep), met=dict(self.met), act=act, nid=len(self.ids))

    def _in(self, th, fn):
        w = self.workers[th - 1]
        return w.call(fn) if w else fn()

    # -- commands --------------------------------------------------------------
    def _command(self, c):
        self.sampcalls = []
        self.samp = c.get('samp')
        self.thr = list(c.get('thr') or [])
        self.asked = []
        exc, res = '', 'none'
        nspans = len(self.spans)
        try:
            res = self._in(c['th'], lambda: self._do(c)) or 'none'
        except core.MachineryError:
            raise
        except Exception as e:
            exc = repr(e)[:200]
        e = {k: v for k, v in c.items() if k != 'var'}
        for key in ('tags',):
            if key in e:
                e[key] = [{a: b for a, b in t.items() if a != 'py'} for t in e[key]]
        if 'tag' in e:
            e['tag'] = {a: b for a, b in e['tag'].items() if a != 'py'}
        if e.get('samp'):
            e['samp'] = dict(yes=e['samp']['yes'], tags=[{a: b for a, b in t.items() if a != 'py'}
                                                         for t in e['samp']['tags']])
        idsok = True
        if c['c'] == 'start' and len(self.spans) > nspans:
            x = self.spans[-1].context
            limit = 128 if self.wide else 64
            for i, bits in ((x.trace_id, 128 if c.get('child') or c.get('refs') or self.scopes[c['th'] - 1] else limit),
                            (x.span_id, 64)):
                if not isinstance(i, int) or not 0 < i < 1 << bits:
                    idsok = False
        p = self.post()
        e.update(post=p, sampcalls=[[self.cid(t), op] for t, op in self.sampcalls], asked=self.asked, res=res,
                 exc=exc, idsok=idsok)
        self.ev.append(e)

    def ctx_arg(self, x, alt=False):
        if not x:
            return None
        if x[0] == 's':
            s = self.spans[x[1] - 1]
            return s.context if alt else s
        return self.ctxs[x[1] - 1]

    def _val(self, t):
        return t['py'] if 'py' in t else untoken(t['v'])

    def _do(self, c):
        import opentracing
        from opentracing import Format
        k = c['c']
        tr = self.tracer
        var = c.get('var', 0)
        if k == 'start':
            refs = []
            for r in c['refs']:
                mk = opentracing.child_of if r['t'] == 'child' else opentracing.follows_from
                refs.append(mk(self.ctx_arg(r['to'], alt=True)))
            if len(refs) == 1 and var & 1:
                refs = refs[0]
            tags = {t['k']: self._val(t) for t in c['tags']}
            kw = dict(operation_name=c['op'], child_of=self.ctx_arg(c['child'], bool(var & 2)),
                      references=refs or None, tags=tags if tags or var & 4 else None,
                      start_time=BASE + c['st'][0] * TICK if c['st'] else None,
                      ignore_active_span=c['ign'])
            if not c['op']:              # a span without a name
                if var & 3 == 1:
                    del kw['operation_name']
                elif var & 3 == 2:
                    kw['operation_name'] = None
            if c['act']:
                scope = tr.start_active_span(finish_on_close=c['foc'], **kw)
                self.spans.append(scope.span)
                self.scopes[c['th'] - 1].append(scope)
            else:
                self.spans.append(tr.start_span(**kw))
        elif k == 'finish':
            s = self.spans[c['s'] - 1]
            if c['ft']:
                s.finish(BASE + c['ft'][0] * TICK)
            elif var & 1:
                with s:
                    pass
            else:
                s.finish()
        elif k == 'tag':
            s = self.spans[c['s'] - 1]
            if s.set_tag(c['tag']['k'], self._val(c['tag'])) is not s:
                return 'not the span'
        elif k == 'log':
            s = self.spans[c['s'] - 1]
            f = {a: untoken(b) for a, b in c['f']}
            ts = BASE + c['ts'][0] * TICK if c['ts'] else None
            if c.get('how') == 'info':
                r = s.info(f['event'], f.get('payload'))
            elif c.get('how') == 'log_event':
                r = s.log_event(f['event'], f.get('payload'))
            elif ts is None and var & 1:
                r = s.log_kv(f)
            else:
                r = s.log_kv(f, ts)
            if r is not s:
                return 'not the span'
        elif k == 'error':
            f = {a: untoken(b) for a, b in c['f']}
            s = self.spans[c['s'] - 1]
            if s.error(f['event'], f.get('payload')) is not s:
                return 'not the span'
        elif k == 'setop':
            s = self.spans[c['s'] - 1]
            if s.set_operation_name(c['op']) is not s:
                return 'not the span'
        elif k == 'bag':
            s = self.spans[c['s'] - 1]
            if s.set_baggage_item(c['k'], c['v'][0] if c['v'] else None) is not s:
                return 'not the span'
        elif k == 'getbag':
            v = self.spans[c['s'] - 1].get_baggage_item(c['k'])
            return 'absent' if v is None else 'v:%s' % v
        elif k == 'isrpc':
            s = self.spans[c['s'] - 1]
            return ('T' if s.is_rpc() else 'F') + ('T' if s.is_rpc_client() else 'F')
        elif k == 'capture':
            self.ctxs.append(self.spans[c['s'] - 1].context)
        elif k == 'carry':
            fmt = [Format.TEXT_MAP, Format.HTTP_HEADERS, Format.BINARY][var % 3]
            carrier = bytearray() if fmt == Format.BINARY else {}
            tr.inject(self.ctx_arg(['s', c['s']], bool(var & 4)), fmt, carrier)
            self.ctxs.append(tr.extract(fmt, carrier))
        elif k == 'mkctx':
            carrier = {'uberctx-' + a: b for a, b in c['bag']}
            if c['dbg']:
                carrier['jaeger-debug-id'] = c['dbg']
            if var & 2 and c['dbg'] and not c['bag']:
                from jaeger_client import SpanContext
                self.ctxs.append(SpanContext.with_debug_id(c['dbg']))
            else:
                self.ctxs.append(tr.extract([Format.TEXT_MAP, Format.HTTP_HEADERS][var % 2], carrier))
        elif k == 'remote':
            r = self.rng
            tid, sid = r.getrandbits(128 if var & 1 else 63) | 1, r.getrandbits(64) | 1
            pid = (r.getrandbits(64) | 1) if c['haspid'] else 0
            carrier = {'uber-trace-id': '%x:%x:%x:%x' % (tid, sid, pid, c['fl'])}
            carrier.update({'uberctx-' + a: b for a, b in c['bag']})
            self.ctxs.append(tr.extract(Format.TEXT_MAP, carrier))
        elif k == 'activate':
            self.scopes[c['th'] - 1].append(tr.scope_manager.activate(self.spans[c['s'] - 1], c['foc']))
        elif k == 'close':
            self.scopes[c['th'] - 1].pop().close()
        elif k == 'tick':
            self.t += c['n'] * TICK
        else:
            raise core.MachineryError(k)


VALUES = [True, False, 0, 1, -1, 7, 2 ** 40, -2 ** 63, 2 ** 63 - 1, 2 ** 63, 0.5, -1.25, 1e300, 'x', '', 'server', 'client',
          'é世', None, (1, 2), b'raw', 'y' * 1100, 'z' * 1020 + '    zzz', ' x ', 'a\x00b', 'A', float('nan'), float('-inf'), -0.0]
PRIOS = [True, False, 1, 0, 2, -1, '1', '0', 'x', '', None, 2.5, 0.5, float('nan'), float('inf'), [], '7', b'1']


def random_cmds(rng, n, cfg, focus=()):
    """Random command sequences with rich values.  Keeps its own count of
    handles and open scopes so that every command is executable."""
    cmds = []
    keys = rng.choice([('k', 'q', 'z'), ('k', 'q', 'z'), ('K', 'k', 'q'), ('x y', ' x', 'x y '), ('user_id', 'user-id', 'user.id'), ('é', 'É', 'e')])
    vals = rng.choice([[[], ['1'], ['2'], [''], ['é x'], ['3']]] * 2 + [[[' a'], ['a '], ['a'], ['A'], []], [['x' * 300], ['y' * 900], [' '], ['a,b;c=d'], ['%41%20+']]])
    ns = nc = 0
    depth = [0] * cfg['threads']
    w = dict(start=5, finish=2, tag=3, log=2, error=0.4, setop=0.5, bag=3, getbag=1, isrpc=0.5, capture=0.7, carry=1, mkctx=1,
             remote=1, activate=1, close=2, tick=2)
    for f in focus:
        w[f] *= 4
    if any(k != k.lower() for k in keys):
        w['carry'] = 0                    # carriers do not tell cases of keys apart
    low = sorted({k.lower() for k in keys})
    kinds = sorted(w)

    def par():
        o = [[]] + [['s', i + 1] for i in range(ns)] + [['c', i + 1] for i in range(nc)]
        return rng.choice(o) if rng.random() < 0.8 else []

    def tags():
        res, seen = [], set()
        for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 3])):
            k = rng.choice(['a', 'b', 'span.kind', 'sampling.priority', 'sampler.type', 'error', 'jaeger-debug-id'])
            if k in seen:
                continue
            seen.add(k)
            if k == 'sampling.priority':
                res.append(mktag(k, rng.choice(PRIOS)))
            elif k == 'span.kind':
                res.append(mktag(k, rng.choice(['server', 'server', 'client', 'producer'])))
            else:
                res.append(mktag(k, rng.choice(VALUES)))
        return res

    def thr():
        return [rng.random() < 0.6 for _ in range(3)]

    def bag():
        return [[k, rng.choice(['1', '2', 'a b', 'x=y', 'é'])] for k in low if rng.random() < 0.35]
    while len(cmds) < n:
        k = rng.choices(kinds, [w[x] for x in kinds])[0]
        th = rng.randint(1, cfg['threads'])
        c = dict(c=k, th=th, var=rng.randint(0, 7))
        if k == 'start':
            if ns >= 9:
                continue
            refs = [dict(t=rng.choice(['child', 'follows']), to=par()) for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 3]))]
            st = [mktag(*x) for x in rng.choice([[('sampler.type', 'const'), ('sampler.param', True)],
                                                 [('sampler.param', 0.25)], []])]
            c.update(op=rng.choice(['o', 'p', 'op x', '', 'é']), child=par(), refs=refs, tags=tags(),
                     st=[rng.randint(1, 99)] if rng.random() < 0.2 else [], ign=rng.random() < 0.2,
                     act=rng.random() < 0.3, foc=rng.random() < 0.6,
                     samp=dict(yes=rng.random() < 0.6, tags=st), thr=thr())
            if not c['samp']['yes'] and rng.random() < 0.5:
                c['samp']['tags'] = []
            ns += 1
            if c['act']:
                depth[th - 1] += 1
        elif k == 'mkctx':
            b, d = bag(), rng.choice(['', 'dbg1', 'x y', 'Case-7', ' 0 ', 'é', 'd' * 200])
            if nc >= 5 or (not b and not d):
                continue
            c.update(dbg=d, bag=b)
            nc += 1
        elif k == 'remote':
            if nc >= 5:
                continue
            c.update(fl=rng.choice([0, 1, 2, 3, 3, 1, 9, 255]), haspid=rng.random() < 0.5, bag=bag())
            nc += 1
        elif k == 'tick':
            c.update(n=rng.randint(1, 5))
        elif k == 'close':
            if not depth[th - 1]:
                continue
            depth[th - 1] -= 1
        else:
            if not ns:
                continue
            c['s'] = rng.randint(1, ns)
            if k == 'finish':
                c['ft'] = [rng.randint(1, 200)] if rng.random() < 0.3 else []
            elif k == 'tag':
                key = rng.choice(['a', 'b', 'span.kind', 'sampling.priority', 'sampling.priority', 'error'])
                v = rng.choice(PRIOS if key == 'sampling.priority' else ['server', 'client', 'x'] if key == 'span.kind'
                               else VALUES)
                c.update(tag=mktag(key, v), thr=thr())
            elif k == 'log':
                how = rng.choice(['kv', 'kv', 'kv', 'info', 'log_event'])
                f = [['event', 's:' + rng.choice(['e', 'f', 'é'])]]
                if rng.random() < 0.4:
                    f.append(['payload', rng.choice(['s:p', 'l:5', 'b:true', 'd:0.5'])])
                c.update(f=f, ts=[rng.randint(1, 99)] if how == 'kv' and rng.random() < 0.4 else [], how=how)
            elif k == 'error':
                c.update(f=[['event', 's:boom']] + ([['payload', 's:p']] if rng.random() < 0.4 else []))
            elif k == 'setop':
                c['op'] = rng.choice(['o', 'p2', 'é'])
            elif k == 'bag':
                c.update(k=rng.choice(keys), v=rng.choice(vals))
            elif k == 'getbag':
                c['k'] = rng.choice(keys)
            elif k in ('capture', 'carry'):
                if nc >= 5:
                    continue
                nc += 1
            elif k == 'activate':
                c['foc'] = rng.random() < 0.5
                depth[th - 1] += 1
        cmds.append(c)
    return cmds


def long_cmds(rng, kind, n):
    """One span with very many tags, logs, baggage items or references; very many spans and scopes."""
    th = rng.randint(1, 2)

    def start(child=(), refs=(), act=False, **kw):
        return dict(c='start', th=th, var=rng.randint(0, 7), op='o', child=list(child), refs=list(refs), tags=kw.get('tags', []), st=[],
                    ign=False, act=act, foc=rng.random() < 0.5, samp=dict(yes=True, tags=[mktag('sampler.type', 'const')]), thr=[True] * 3)

    def on(s, what, **kw):
        return dict(kw, c=what, th=th, var=rng.randint(0, 7), s=s)
    res = [start(tags=[mktag('t%d' % i, i) for i in range(n if kind == 'tags' else 0)])]
    if kind == 'tags':
        for i in range(n):
            res.append(on(1, 'tag', tag=mktag('a%d' % i if rng.random() < 0.5 else 'a', i), thr=[True] * 3))
    elif kind == 'logs':
        for i in range(n):
            res.append(on(1, 'log', f=[['event', 's:e%d' % i]], ts=[], how='kv'))
    elif kind == 'bag':
        for i in range(n):
            res.append(on(1, 'bag', k='k%d' % i, v=['v%d' % i]))
        res += [on(1, 'capture'), on(1, 'carry'), start(child=['s', 1]), start(child=['c', 2])]
    elif kind == 'refs':
        for i in range(9):
            res.append(start(child=['s', 1]))
        for i in range(max(n // 20, 2)):
            res.append(start(refs=[dict(t=rng.choice(['child', 'follows']), to=['s', rng.randint(1, 10)]) for _ in range(n)]))
    elif kind == 'nest':
        res += [start(act=True) for _ in range(n // 2)]
        res += [dict(c='close', th=th, var=0) for _ in range(n // 2)]
        res.append(start())
    return res + [on(1, 'finish', ft=[])]

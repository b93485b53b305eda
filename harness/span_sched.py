"""One span used by several threads under the deterministic scheduler; records
histories for spec/SpanLin.tla."""
from . import compact, env, sched
from .tracer_driver import BASE, TICK, tag_token, untoken


def op(o, **kw):
    d = dict(o=o, pc='start')
    if o == 'bag':
        d['over'] = False
    if o in ('getbag', 'encode', 'child'):
        d['res'] = []
    d.update(kw)
    return d


def _wire_tag(t):
    kind = t[2][1]
    name = t[1][1].decode('utf-8')
    if kind == 0:
        return [name, 's:' + t[3][1].decode('utf-8')]
    if kind == 1:
        return [name, 'd:%d' % t[4][1]]
    if kind == 2:
        return [name, 'b:true' if t[5][1] else 'b:false']
    if kind == 3:
        v = t[6][1]
        return [name, 'l:%d' % (v - (1 << 64) if v >> 63 else v)]
    return [name, 'x']


def encode(span):
    """What the wire would carry for this span, as a snapshot."""
    from jaeger_client import thrift
    from jaeger_client.thrift_gen.agent import Agent
    from thrift.protocol import TCompactProtocol
    from thrift.transport import TTransport
    process = thrift.make_process('svc', {}, 100)
    batch = thrift.make_jaeger_batch([span], process)
    from thrift.Thrift import TMessageType
    buf = TTransport.TMemoryBuffer()
    proto = TCompactProtocol.TCompactProtocol(buf)
    proto.writeMessageBegin('emitBatch', TMessageType.ONEWAY, 0)
    Agent.emitBatch_args(batch).write(proto)
    proto.writeMessageEnd()
    s = compact.batch_of(buf.getvalue())[2][1][0]
    tags = [_wire_tag(t) for t in s.get(10, (0, []))[1]]
    logs = [[_wire_tag(t) for t in lg[2][1]] for lg in s.get(11, (0, []))[1]]
    return dict(tags=tags, logs=logs, op=s[5][1].decode('utf-8'))


def scenario(programs, end=False):
    """programs: per thread a list of operations."""
    def make():
        from jaeger_client import ConstSampler, Tracer
        from jaeger_client.reporter import NullReporter
        ev = []
        nrep = [0]
        current = {}

        class R(NullReporter):
            def report_span(self, span):
                nrep[0] += 1
                e = span.end_time
                t = current.get(getattr(sched._tls, 'me', None) and sched._tls.me.ident, 0)
                ev.append(dict(k='report', t=t, en=[] if e is None else [int((e - BASE) / TICK)]))
        tracer = Tracer('svc', R(), ConstSampler(True))
        span = tracer.start_span('o')
        for lst in (span.tags,):
            del lst[:]

        def ticks(e):
            return [] if e is None else [int((e - BASE) / TICK)]

        def body(t, ops):
            def fn():
                current[t - 1] = t
                for o in ops:
                    ev.append(dict(k='call', t=t, op=o))
                    res = []
                    if o['o'] == 'tag':
                        span.set_tag(o['k'], untoken(o['v']))
                    elif o['o'] == 'log':
                        span.log_kv({a: untoken(b) for a, b in o['f']})
                    elif o['o'] == 'setop':
                        span.set_operation_name(o['v'])
                    elif o['o'] == 'bag':
                        span.set_baggage_item(o['k'], o['v'])
                    elif o['o'] == 'getbag':
                        v = span.get_baggage_item(o['k'])
                        res = [] if v is None else [v]
                    elif o['o'] == 'child':
                        ch = tracer.start_span('c', child_of=span)
                        res = [sorted([[a, b] for a, b in ch.context.baggage.items()])]
                    elif o['o'] == 'encode':
                        if span.end_time is None:
                            span.end_time = BASE
                        try:
                            res = [encode(span)]
                        except compact.Malformed as x:
                            res = [dict(malformed=str(x))]
                    elif o['o'] == 'finish':
                        span.finish(BASE + o['ft'][0] * TICK if not o.get('now') else None)
                    ev.append(dict(k='ret', t=t, res=res))
            return fn

        def collect():
            e = span.end_time
            ev.append(dict(k='final', tags=[[x.key, tag_token(x)] for x in span.tags],
                           logs=[[[x.key, tag_token(x)] for x in lg.fields] for lg in span.logs],
                           bag=sorted([[a, b] for a, b in span.context.baggage.items()]), op=span.operation_name,
                           en=ticks(e) if span.finished else [], fin=bool(span.finished), nrep=nrep[0]))
            return ev
        return [body(i + 1, p) for i, p in enumerate(programs)], collect
    return make


FILES = {'span.py', 'thrift.py', 'tracer.py', 'span_context.py', 'ttypes.py', 'reporter.py'}


def explore(programs, budget, rng, opcodes):
    res = []
    cfg = dict(threads=len(programs), tags=[], bag=[], op='o')
    with env.virtual_clock(lambda: BASE):
        for ev, sch, dead, excs in sched.schedules(scenario(programs), len(programs), budget, rng, opcodes=opcodes,
                                                   files=FILES):
            if dead:
                ev = [dict(k='deadlock')]
            for x in excs:
                ev.append(dict(k='exception', text=repr(x)[:300]))
            res.append(dict(cfg=cfg, ev=ev, info=sch))
    return res

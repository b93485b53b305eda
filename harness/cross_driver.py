"""Messages and handlers of the crossdock services, for spec/CrossTrace.tla."""
import contextlib
import json
import os

from . import agent_http, compact, env
from .codec_driver import cps
from .reporter_driver import fake_sockets
from .samp_driver import BASE
from .vloop import World

FIELDS = dict(Downstream=['serviceName', 'serverRole', 'host', 'port', 'transport', 'downstream'],
              StartTraceRequest=['serverRole', 'sampled', 'baggage', 'downstream'], JoinTraceRequest=['serverRole', 'downstream'],
              ObservedSpan=['traceId', 'sampled', 'baggage'], TraceResponse=['span', 'downstream', 'notImplementedError'])
SUB = dict(downstream='Downstream', span='ObservedSpan')


def val(v):
    if v is None:
        return dict(t='null')
    if isinstance(v, bool):
        return dict(t='b', b=v)
    if isinstance(v, int):
        return dict(t='i', n=v)
    if isinstance(v, str):
        return dict(t='s', s=cps(v))
    if isinstance(v, dict):
        return dict(t='o', o=[dict(k=k, v=val(x)) for k, x in v.items()])
    return dict(t='o', o=[dict(k=k, v=val(getattr(v, k))) for k in FIELDS[type(v).__name__]])


TEXTS = ['', 'a', 'python', 'é', '日本', '"\\', '8081', 'null', '\n']


def random_obj(rng, kind, depth):
    from crossdock.thrift_gen.tracetest import ttypes
    o = getattr(ttypes, kind)()
    for f in FIELDS[kind]:
        if f == 'downstream':
            if depth > 0 and rng.random() < 0.7:
                o.downstream = random_obj(rng, 'TraceResponse' if kind == 'TraceResponse' else 'Downstream', depth - 1)
        elif f == 'span':
            o.span = random_obj(rng, 'ObservedSpan', 0) if rng.random() < 0.8 else None
        elif f == 'transport':
            o.transport = rng.choice([None, 0, 1])
        elif f == 'sampled':
            o.sampled = rng.choice([None, True, False])
        elif rng.random() < 0.8:
            setattr(o, f, rng.choice(TEXTS))
    return o


def message(rng, kind, noise):
    from crossdock.server import serializer as s
    o = random_obj(rng, kind, rng.randint(0, 3))
    e = dict(k='message', kind=kind, obj=val(o), err='', json=dict(t='null'), back=dict(t='null'), join=kind == 'JoinTraceRequest')
    try:
        text = s.join_trace_request_to_json(o.downstream, o.serverRole) if e['join'] else json.dumps(s.traced_service_object_to_json(o))
        j = json.loads(text)
        e['json'] = val(j)
        if noise:
            j['unknown'] = dict(x=1)
            text = json.dumps(j)
        back = dict(JoinTraceRequest=s.join_trace_request_from_json, StartTraceRequest=s.start_trace_request_from_json,
                    TraceResponse=s.traceresponse_from_json)[kind](text.encode('utf-8') if rng.random() < 0.5 else text)
        e['back'] = val(back)
    except Exception as x:
        e['err'] = repr(x)[:200]
    return dict(cfg={}, ev=[e], info=repr(e)[:500])


class Writer(object):
    n = 0

    def finish(self, *a):
        self.n += 1


class Request(object):
    pass


def traces(reqs):
    """reqs: the JSON of requests to the end to end handler"""
    from crossdock.server.endtoend import EndToEndHandler
    from jaeger_client import ConstSampler, Tracer
    from jaeger_client.reporter import InMemoryReporter
    ev = []
    with World(BASE) as w, fake_sockets(lambda *a: 0):
        h = EndToEndHandler.__new__(EndToEndHandler)
        for body, raw in reqs:
            rep = {k: InMemoryReporter() for k in ('remote', 'const')}
            h.tracers = {k: Tracer('s', r, ConstSampler(True)) for k, r in rep.items()}
            kind = body.get('type', 'remote')
            e = dict(k='traces', err='', count=body.get('count', 0), op=cps(body['operation']),
                     tags=[dict(k=cps(k), v=cps(v)) for k, v in body.get('tags', {}).items()], spans=[], answered=0, others=0)
            wr, rq = Writer(), Request()
            rq.body = json.dumps(body).encode('utf-8') if raw else json.dumps(body)
            try:
                w.run(lambda: h.generate_traces(rq, wr))
                w.settle()
                for s in rep[kind].get_spans():
                    e['spans'].append(dict(op=cps(s.operation_name), id=str(s.span_id), finished=s.end_time is not None, sampled=s.is_sampled(),
                                           tags=[dict(k=cps(t.key), v=cps(t.vStr)) for t in s.tags if t.vStr is not None]))
            except Exception as x:
                e['err'] = repr(x)[:200]
            e['answered'] = wr.n
            e['others'] = sum(len(r.get_spans()) for k, r in rep.items() if k != kind)
            ev.append(e)
        env.loop_errors()
    return dict(cfg={}, ev=ev, info=repr(reqs)[:500])


def service(text, reqs):
    """The end to end service as it is started, with the agent at text."""
    import socket
    from crossdock.server import endtoend
    got, polls = [], []
    e = dict(k='service', env=cps(text or ''), err='', want=[], got=got, polls=polls, debug=[])

    def sink(sock, data, peer):
        b = compact.batch_of(data)
        for s in b[2][1]:
            got.append(dict(service=cps(b[1][1][1][1].decode()), host=cps(str(peer[0])), port=peer[1], op=cps(s[5][1].decode('utf-8')),
                            tags=[dict(k=cps(t[1][1].decode()), v=cps(t[3][1].decode('utf-8'))) for t in s[10][1] if 3 in t]))
        return len(data)

    def resolve(h, p, *a, **kw):
        return [(socket.AF_INET, socket.SOCK_DGRAM, socket.IPPROTO_UDP, '', ('127.0.0.1', p or 0))]
    with World(BASE) as w, agent_http.fake_http(lambda: 0) as https, fake_sockets(sink), environ(text):
        real = endtoend.LocalAgentSender
        with env.swapped((endtoend, 'LocalAgentSender', lambda *a, **kw: real(*a, **dict(kw, io_loop=w.io_loop))),
                         (socket, 'getaddrinfo', resolve)):
            try:
                h = w.run(endtoend.EndToEndHandler)
                for body in reqs:
                    wr, rq = Writer(), Request()
                    rq.body = json.dumps(body)
                    e['want'].append(dict(op=cps(body['operation']), count=body.get('count', 0),
                                          tags=[dict(k=cps(k), v=cps(v)) for k, v in body.get('tags', {}).items()]))
                    w.run(lambda: h.generate_traces(rq, wr))
                    w.advance(0.25)
                # debug traces wait for credits
                from opentracing import Format
                for tr in h.tracers.values():
                    ctx = tr.extract(Format.TEXT_MAP, {'jaeger-debug-id': 'd'})
                    e['debug'].append(bool(w.run(lambda: tr.start_span('debug', child_of=ctx)).is_sampled()))
                w.advance(12)
            except Exception as x:
                e['err'] = repr(x)[:200]
            polls += [{k: v for k, v in r.view().items() if k in ('host', 'port', 'path', 'query')} for r in https]
        env.loop_errors()
    return dict(cfg={}, ev=[e], info=repr((text, reqs))[:500])


@contextlib.contextmanager
def environ(text):
    old = os.environ.pop('AGENT_HOST_PORT', None)
    try:
        if text is not None:
            os.environ['AGENT_HOST_PORT'] = text
        yield
    finally:
        os.environ.pop('AGENT_HOST_PORT', None)
        if old is not None:
            os.environ['AGENT_HOST_PORT'] = old


def address(text):
    from crossdock.server import endtoend
    e = dict(k='address', env=cps(text or ''), err='', host=[], port=-1)
    with environ(text):
        try:
            host, port = endtoend._determine_host_port()
            e.update(host=cps(host), port=port)
        except Exception as x:
            e['err'] = repr(x)[:200]
    env.loop_errors()
    return dict(cfg={}, ev=[e], info=repr(text))

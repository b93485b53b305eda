"""Builds tracers from configurations and observes them from outside, for spec/ConfTrace.tla."""
import contextlib
import copy
import json
import logging
import math
import os
import random
import traceback

from . import agent_http, compact, core, env
from .codec_driver import cps
from .reporter_driver import fake_sockets
from .samp_driver import Counts, BASE
from .vloop import World
from .wire_driver import TB, tags_of, value, wire_tag

ENVS = ('JAEGER_AGENT_HOST', 'JAEGER_AGENT_PORT', 'JAEGER_TAGS', 'JAEGER_TRACEID_128BIT')
TICKS = 1024.0


@contextlib.contextmanager
def environ(d):
    old = {k: os.environ.get(k) for k in ENVS}
    try:
        for k in ENVS:
            os.environ.pop(k, None)
            if d.get(k) is not None:
                os.environ[k] = d[k]
        yield
    finally:
        for k, v in old.items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v


def enc(d, k):
    """A value as the specification sees it: its text, and its number of ticks if it is one."""
    if d is None or k not in d:
        return dict(has=False, s=[], f='', n=0)
    v = d[k]
    try:
        f = float(v)
        fr, n = repr(f), int(f * TICKS) if abs(f) < 1e6 else 0
    except (TypeError, ValueError):
        fr, n = '', 0
    return dict(has=True, s=cps(str(v)), f=fr, n=n)


KEYS = ['logging', 'enabled', 'metrics', 'max_operations', 'debug_id_header', 'reporter_batch_size', 'reporter_queue_size',
        'propagation', 'max_tag_value_length', 'max_traceback_length', 'reporter_flush_interval', 'sampling_refresh_interval',
        'trace_id_header', 'generate_128bit_trace_id', 'baggage_header_prefix', 'service_name']


def given(sampler):
    from jaeger_client.sampler import ProbabilisticSampler, RateLimitingSampler
    if isinstance(sampler, ProbabilisticSampler):
        return spec_cfg(dict(sampler=dict(type='probabilistic', param=sampler.rate)), None, {}, False)['sa']
    if isinstance(sampler, RateLimitingSampler):
        return spec_cfg(dict(sampler=dict(type='ratelimiting', param=sampler.traces_per_second)), None, {}, False)['sa']
    return spec_cfg(dict(sampler=dict(type='const', param=sampler.decision)), None, {}, False)['sa']


def spec_cfg(conf, service, envs, validate):
    la, th, sa = conf.get('local_agent'), conf.get('throttler'), conf.get('sampler')
    return dict(c={k: enc(conf, k) for k in KEYS}, la={k: enc(la, k) for k in ('enabled', 'sampling_port', 'reporting_port', 'reporting_host')},
                th=dict(has=th is not None, port=enc(th, 'port'), interval=enc(th, 'refresh_interval')),
                sa=given(sa) if sa is not None and not isinstance(sa, dict) else dict(type=enc(sa, 'type'), param=enc(sa, 'param')),
                tags=[dict(k=cps(k), v=value(v)) for k, v in (conf.get('tags') or {}).items()],
                env={k: enc(envs, k) for k in ENVS}, service=dict(has=service is not None, s=cps(service or ''), f='', n=0),
                validate=validate, unknown=[k for k in conf if k not in KEYS + ['tags', 'sampler', 'local_agent', 'throttler']])


class Log(logging.Handler):
    def __init__(self):
        super(Log, self).__init__(logging.INFO)
        self.n = self.errors = 0

    def emit(self, record):
        if record.levelno >= logging.ERROR:
            self.errors += 1
        if 'marked-span' in record.getMessage():
            self.n += 1


def build(conf, service, envs, validate, scope=False):
    e = dict(k='build', raised='', note='')
    sampler = conf.get('sampler')
    before = copy.deepcopy(conf, {} if sampler is None or isinstance(sampler, dict) else {id(sampler): sampler})
    with environ(envs), World(BASE) as w:
        tick = lambda: int(math.ceil((w.now - BASE) * TICKS - 1e-6))    # noqa: E731
        counts, log = Counts(), Log()
        lg = logging.getLogger('jaeger_tracing')
        level = lg.level
        lg.addHandler(log)
        lg.setLevel(logging.INFO)
        try:
            _build(e, w, tick, conf, service, validate, counts, log, scope)
        finally:
            lg.removeHandler(log)
            lg.setLevel(level)
    e['kept'] = conf == before
    return dict(cfg=spec_cfg(before, service, envs, validate), ev=[e], info=repr((before, service, envs, validate)))


def _build(e, w, tick, conf, service, validate, counts, log, scope):
    from jaeger_client import Config
    from opentracing import Format
    from opentracing.scope_managers import ThreadLocalScopeManager
    env.loop_errors()
    grams = []

    def sink(sock, data, peer):
        grams.append((tick(), data, peer))
        return len(data)
    mgr = ThreadLocalScopeManager() if scope else None
    with agent_http.fake_http(tick) as reqs, fake_sockets(sink):
        try:
            c = Config(conf, service_name=service, metrics_factory=counts, scope_manager=mgr, **(dict(validate=True) if validate else {}))
            e.update(enabled=bool(c.enabled), la_enabled=bool(c.local_agent_enabled))
            tr = w.run(lambda: c.new_tracer(io_loop=w.io_loop))
        except Exception as x:
            e['raised'] = type(x).__name__
            e['note'] = repr(x)[:200]
            return
        e['service_prop'] = cps(c.service_name)
        e['scope'] = not scope or tr.scope_manager is mgr
        w.settle()
        # ids and headers
        roots = [tr.start_span('r', ignore_active_span=True) for _ in range(8)]
        e['wide'] = any(s.trace_id >> 64 for s in roots)
        sp = roots[0]
        sp.context.baggage  # noqa
        ctx = sp.context.with_baggage_item('key', 'v')
        text, http = {}, {}
        tr.inject(ctx, Format.TEXT_MAP, text)
        tr.inject(ctx, Format.HTTP_HEADERS, http)
        e['text'] = [cps(k) for k in sorted(text)]
        e['b3'] = any(k.lower().startswith('x-b3') for k in http)
        e['http'] = [cps(k) for k in sorted(http)]
        from jaeger_client import SpanContext
        narrow = {}
        tr.inject(SpanContext(trace_id=5, span_id=6, parent_id=0, flags=1), Format.HTTP_HEADERS, narrow)
        e['b3_digits'] = max([len(v) for k, v in narrow.items() if k.lower() == 'x-b3-traceid'] or [0])
        # sampling
        w.advance(2000.0)           # every limiter is full, and remote polls have begun
        obs = []
        ops = ['o%d' % i for i in range(40)]
        for op in ('o0', 'o0', 'o0'):
            for tid in (0, 2 ** 64 - 1):
                yes, tags = tr.sampler.is_sampled(tid, op)
                obs.append(dict(yes=bool(yes), type=str(tags.get('sampler.type')), param=repr(tags.get('sampler.param'))))
        e['asked'] = obs
        # failed polls are logged
        n0 = log.errors
        for r in list(reqs):
            if r.request.url.split('?')[0].endswith('/sampling'):
                w.run(lambda r=r: r.answer(None))
                w.settle()
        e['errors'] = log.errors - n0
        # operations of a remote sampler
        samp = [r for r in reqs if r.request.url.split('?')[0].endswith('/sampling')]
        e['polls'] = [r.view() for r in samp]
        if samp and samp[-1].done:
            w.advance(float(conf.get('sampling_refresh_interval', 60.0)) * 1.5)
            samp = [r for r in reqs if r.request.url.split('?')[0].endswith('/sampling')]
        e['maxops'] = -1
        if samp:
            body = json.dumps(dict(strategyType='PROBABILISTIC', operationSampling=dict(
                defaultSamplingProbability=0.0, defaultLowerBoundTracesPerSecond=100.0, perOperationStrategies=[]))).encode()
            w.run(lambda: samp[-1].answer(body))
            w.settle()
            n = 0
            for i in range(2100):
                tr.sampler.is_sampled(2 ** 64 - 1, 'op%d' % i)
            w.advance(5.0)          # now every operation that has a limiter of its own has credit
            for i in range(2100):
                n += bool(tr.sampler.is_sampled(2 ** 64 - 1, 'op%d' % i)[0])
            e['maxops'] = n
        del grams[:]
        # debug header and throttling
        deb = tr.extract(Format.TEXT_MAP, {conf.get('debug_id_header') if isinstance(conf.get('debug_id_header'), str) else 'jaeger-debug-id': 'dbg'})
        e['debug'] = bool(deb is not None and deb.debug_id == 'dbg')
        s = tr.start_span('throttled', child_of=deb) if e['debug'] else None
        e['debug_sampled'] = bool(s is not None and s.is_sampled())
        del s
        n0 = len(reqs)
        w.advance(400.0)
        credits = [r for r in reqs[n0:] if r.request.url.split('?')[0].endswith('/credits')]
        e['credits'] = [r.view() for r in credits]
        for r, body in zip(credits, (b'{"balances": []}', None, b'{')):
            w.run(lambda: r.answer(body))
        e['queries'] = [counts.get('jaeger:sampler_queries', result=x) for x in ('ok', 'err')]
        e['thr'] = [counts.get('jaeger:throttled_debug_spans')] + [counts.get('jaeger:throttler_update', result=x) for x in ('ok', 'err')]
        # spans: forced to be sampled
        parent = SpanContext(trace_id=5, span_id=6, parent_id=0, flags=1)

        def span(**tags):
            s = tr.start_span('marked-span', child_of=parent, tags=tags)
            return s
        t0 = tick()
        s = span(long='x' * 5000)
        s.log_kv({'event': 'e', 'stack': TB})
        s.finish()
        w.settle()
        while not grams and tick() < t0 + 40 * 1024:
            w.advance(0.125)
        e['flush'] = grams[0][0] - t0 if grams else -1
        e['peer'] = [cps(str(grams[0][2][0])), int(grams[0][2][1])] if grams else [[], -1]
        if grams:
            b = compact.batch_of(grams[0][1])
            p, sp = b[1][1], b[2][1][0]
            e['process'] = dict(service=cps(p[1][1].decode('utf-8')), tags=tags_of(p))
            e['tag'] = max(len(wire_tag(t)['s']) for t in sp[10][1])
            e['tb'] = [len(wire_tag(t)['s']) for lg in sp[11][1] for t in lg[2][1] if t[1][1] == b'stack'][0]
        else:
            e['process'] = dict(service=[], tags=[])
            e['tag'] = e['tb'] = -1
        e['fulltb'] = len(''.join(traceback.format_tb(TB)))
        e['logged'] = log.n
        del grams[:]
        # a burst
        for i in range(260):
            span().finish()
        w.settle()
        w.advance(20.0)
        sizes = [len(compact.batch_of(g[1])[2][1]) for g in grams]
        e['first'] = sizes[0] if sizes else 0
        e['sent'] = sum(sizes)
        e['counted'] = counts.get('jaeger:reporter_spans', result='ok') > 0 and any('started' in k and v for k, v in counts.n.items())
        errs = [str(x)[:200] for x in w.aio.errors + env.loop_errors()]
        e['errs'] = errs
        w.run(tr.close)
        w.advance(1.0)


BOOLS = [True, False, 'true', 'FALSE', 'True', '0', '1', 0, 1, None, 'None', 'yes', '', 2, 'off']


def random_sampler(rng):
    from jaeger_client.sampler import ConstSampler, ProbabilisticSampler, RateLimitingSampler
    return rng.choice([
        lambda: {'type': 'const', 'param': rng.choice(BOOLS)}, lambda: {'type': 'probabilistic', 'param': rng.choice([0.5, '0.25', 1, 0, '1'])},
        lambda: {'type': 'ratelimiting', 'param': rng.choice([2, '4', 0.5])}, lambda: {'type': 'rate_limiting', 'param': rng.choice([2, '4', 0.5])},
        lambda: ConstSampler(rng.random() < 0.5), lambda: ProbabilisticSampler(rng.choice([0.0, 0.5, 1.0])),
        lambda: RateLimitingSampler(rng.choice([1.0, 3.0]))])()


OPTIONS = dict(
    max_operations=[1, 3, 10, None], debug_id_header=['dbg-id', 'My-Debug'], reporter_batch_size=[1, 2, 7, '5', 20, 100, 101],
    reporter_queue_size=[150, '120', 200, 101, 30, 9], propagation=['b3', 'jaeger', None, 'B3'], max_tag_value_length=[10, 100, 3000],
    max_traceback_length=[10, 50, 80], reporter_flush_interval=[2, 0.5, 5, 1.25], sampling_refresh_interval=[5, 0.5, 100, 10],
    trace_id_header=['my-trace', 'X-T'], baggage_header_prefix=['bag-', 'My_Prefix-'], service_name=['from-config', 's\u00e9rvice'],
    logging=BOOLS, enabled=BOOLS, metrics=BOOLS, generate_128bit_trace_id=BOOLS,
    tags=[{}, None, {'a': 'b'}, {'a': 1, 'team': 'x', 'f': 1.5}, {'b': True, 'long': 'y' * 3000}])
OFTEN = dict(propagation=0.3, max_tag_value_length=0.3, max_traceback_length=0.3, trace_id_header=0.3, baggage_header_prefix=0.3,
             debug_id_header=0.3, reporter_batch_size=0.5, tags=0.5, service_name=0.5)
AGENT = dict(enabled=BOOLS, sampling_port=[1234, '4321', 'abc', None], reporting_port=[7000, '7001', 'abc', None],
             reporting_host=['10.1.2.3', '127.0.0.5'])
THROTTLER = dict(port=[1235, '999', 'abc', None], refresh_interval=[3, '8', 'abc', None, 20])
SAMPLERS = ([{'type': 'const', 'param': p} for p in BOOLS] + [{'type': 'const'}]
            + [{'type': 'probabilistic', 'param': p} for p in (0.5, '0.25', 1, 0, '1', 1.5, 'x', None, -0.1)]
            + [{'type': t, 'param': p} for t in ('ratelimiting', 'rate_limiting') for p in (2, '10', 0.5, 'x', None)]
            + [{'type': 'bad', 'param': 1}, {'type': 'remote', 'param': 1}, {}, {'param': 1}, {'type': '', 'param': 1}, {'type': None}])
ENV = dict(JAEGER_AGENT_HOST=['127.0.0.9', '10.9.9.9'], JAEGER_AGENT_PORT=['7777', 'abc', ''],
           JAEGER_TAGS=['a=env', 'x=1,y=2', ' k = v , q=a=b', '', 'team=,z=p'], JAEGER_TRACEID_128BIT=['true', 'True', '1', 'false', ''])
UNKNOWN = ['unexpected', 'Sampler', 'reporter', 'agent']


def single_confs():
    """Every option with every value on its own, and with what may override it: (configuration, environment, validated)"""
    for k, vs in OPTIONS.items():
        for v in vs:
            yield {k: v}, {}, True
    for v in SAMPLERS:
        yield {'sampler': v}, {}, True
    for part, opts in (('local_agent', AGENT), ('throttler', THROTTLER)):
        yield {part: None}, {}, True
        yield {part: {}}, {}, True
        for k, vs in opts.items():
            for v in vs:
                yield {part: {k: v}}, {}, True
    for k, vs in ENV.items():
        for v in vs:
            yield {}, {k: v}, True
    for host in (None, '10.1.2.3'):
        for port in (None, 7000, 'abc'):
            la = {k: v for k, v in (('reporting_host', host), ('reporting_port', port)) if v is not None}
            yield {'local_agent': la}, {'JAEGER_AGENT_HOST': '10.9.9.9', 'JAEGER_AGENT_PORT': '7777'}, False
    for v in BOOLS:
        yield {'generate_128bit_trace_id': v, 'propagation': 'b3'}, {'JAEGER_TRACEID_128BIT': 'true'}, False
    yield {'propagation': 'b3'}, {'JAEGER_TRACEID_128BIT': 'true'}, False
    for k in UNKNOWN:
        for validate in (True, False):
            yield {k: 1}, {}, validate


def random_conf(rng):
    c = {k: rng.choice(vs) for k, vs in OPTIONS.items() if rng.random() < OFTEN.get(k, 0.4)}
    if rng.random() < 0.6:
        c['sampler'] = random_sampler(rng) if rng.random() < 0.7 else rng.choice(SAMPLERS)

    def group(opts):
        return {k: rng.choice(vs) for k, vs in opts.items() if rng.random() < 0.6}
    if rng.random() < 0.5:
        la = group(AGENT)
        c['local_agent'] = rng.choice([la, la, la, None, {}])
    if rng.random() < 0.4:
        th = group(THROTTLER)
        c['throttler'] = rng.choice([th, th, {}, None])
    if rng.random() < 0.06:
        c[rng.choice(UNKNOWN)] = 1
    items = list(c.items())
    rng.shuffle(items)
    return dict(items)


def random_env(rng):
    return {k: rng.choice(vs) for k, vs in ENV.items() if rng.random() < 0.35}

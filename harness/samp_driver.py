"""Samplers on a virtual clock, for spec/SampTrace.tla and SampLin.tla."""
import asyncio
import concurrent.futures
import contextlib
import fractions
import json
import math
import random

from . import env, sched
from .codec_driver import hexd, num

TICK = 1.0 / 1024
BASE = 1000000.0


def prob(v):
    f = fractions.Fraction(v)
    one = f == 1
    digits = []
    while f and not one:
        f *= 16
        d = int(f)
        digits.append(d)
        f -= d
    return dict(one=one, f=digits, tok=repr(v))


def rate(v):
    f = fractions.Fraction(v) * 1024
    return dict(r1=math.floor(f), r2=math.ceil(f), tok=repr(v))


def adapt(a):
    """a: dict(lb, d, ops=[(op, p)])"""
    return dict(lb=rate(a['lb']), **{'def': prob(a['d'])}, ops=[dict(op=o, p=prob(p)) for o, p in a['ops']])


def adapt_json(a):
    return dict(defaultSamplingProbability=a['d'], defaultLowerBoundTracesPerSecond=a['lb'],
                perOperationStrategies=[dict(operation=o, probabilisticSampling=dict(samplingRate=p)) for o, p in a['ops']])


@contextlib.contextmanager
def fixed_random(q):
    with env.swapped((random, 'random', lambda: q / 4.0), (random, 'uniform', lambda a, b: a + (b - a) * q / 4.0)):
        yield


class Counts(object):
    """A metrics factory that counts."""
    def __init__(self):
        self.n = {}

    def create_counter(self, name, tags=None):
        key = name + ''.join('|%s=%s' % x for x in sorted((tags or {}).items()))
        self.n.setdefault(key, 0)

        def inc(v):
            self.n[key] += v
        return inc

    def create_timer(self, name, tags=None):
        return lambda v: None

    def create_gauge(self, name, tags=None):
        def g(v):
            self.n[name] = v
        return g

    def get(self, name, **tags):
        return self.n.get(name + ''.join('|%s=%s' % x for x in sorted(tags.items())), 0)


class Channel(object):
    io_loop = None


class Response(object):
    def __init__(self, body):
        self.body, self.code, self.reason, self.error, self.headers = body, 200, 'OK', None, {}

    def rethrow(self):
        pass


class Later(concurrent.futures.Future):
    """The future of a request, without the lock of the original."""
    def __init__(self):
        self.cbs, self.res, self.set_ = [], (None, None), False

    def set(self, result=None, exc=None):
        self.res, self.set_ = (result, exc), True
        cbs, self.cbs = self.cbs, []
        for cb in cbs:
            cb(self)

    def add_done_callback(self, cb):
        if self.set_:
            cb(self)
        else:
            self.cbs.append(cb)

    def done(self):
        return self.set_

    def cancelled(self):
        return False

    running = cancel = cancelled

    def exception(self, timeout=None):
        if not self.set_:
            raise asyncio.InvalidStateError('not done')
        return self.res[1]

    def result(self, timeout=None):
        if self.exception():
            raise self.exception()
        return self.res[0]

    def __repr__(self):
        return '<Later %r>' % (self.res,)


def Fut(result=None, exc=None):
    f = Later()
    f.set(result, exc)
    return f


def make(init, max_ops):
    from jaeger_client import sampler as S
    k = init['kind']
    if k == 'const':
        return S.ConstSampler(init['yes'])
    if k == 'prob':
        return S.ProbabilisticSampler(init['p'])
    if k == 'rate':
        return S.RateLimitingSampler(init['r'])
    if k == 'guar':
        return S.GuaranteedThroughputProbabilisticSampler('op', init['lb'], init['p'])
    return S.AdaptiveSampler(adapt_json(init), max_ops)


def spec_init(init):
    k = init['kind']
    if k == 'const':
        return dict(kind=k, yes=init['yes'])
    if k == 'prob':
        return dict(kind=k, p=prob(init['p']))
    if k == 'rate':
        return dict(kind=k, r=rate(init['r']))
    if k == 'guar':
        return dict(kind=k, p=prob(init['p']), lb=rate(init['lb']))
    return dict(kind=k, **adapt(init))


def spec_resp(r):
    k = r['kind']
    if k == 'prob':
        return dict(kind=k, p=prob(r['p']))
    if k == 'rate':
        return dict(kind=k, r=rate(r['r']))
    if k == 'adapt':
        return dict(kind=k, **adapt(r))
    return dict(kind=k)


# what an answer that leaves something out means
DEFAULT_P, DEFAULT_R = 0.001, 1 / 600.


def body(r):
    """The text of an answer.  r.omit: values that are the defaults are left out, in one of several ways."""
    k, omit = r['kind'], r.get('omit')
    if k in ('prob', 'rate'):
        name, sect, field, v, dflt = (('PROBABILISTIC', 'probabilisticSampling', 'samplingRate', r['p'], DEFAULT_P) if k == 'prob' else
                                      ('RATE_LIMITING', 'rateLimitingSampling', 'maxTracesPerSecond', r['r'], DEFAULT_R))
        d = {'strategyType': name, sect: {field: v}}
        if omit and v == dflt:
            d[sect] = dict(empty={}, other={'x': 1}, null=None, none=0)[omit]
            if omit == 'none':
                del d[sect]
        return json.dumps(d)
    if k == 'adapt':
        d = adapt_json(r)
        if omit and d['defaultSamplingProbability'] == DEFAULT_P:
            del d['defaultSamplingProbability']
        if omit and d['defaultLowerBoundTracesPerSecond'] == DEFAULT_R:
            del d['defaultLowerBoundTracesPerSecond']
        for o in d['perOperationStrategies']:
            if omit and o['probabilisticSampling']['samplingRate'] == DEFAULT_P:
                o['probabilisticSampling'] = dict(empty={}, other={'x': 1}, null=None, none=0)[omit]
                if omit == 'none':
                    del o['probabilisticSampling']
        if omit in ('none', 'other') and not r['ops']:
            del d['perOperationStrategies']
        if d:
            return json.dumps(dict(strategyType='PROBABILISTIC', operationSampling=d))
        return json.dumps(dict(strategyType='PROBABILISTIC', operationSampling=adapt_json(r)))
    return r['body']


def tag_pair(tags):
    return [tags.get('sampler.type'), repr(tags.get('sampler.param'))]


def thrift_parse(r):
    from jaeger_client import thrift
    from jaeger_client.thrift_gen.sampling import ttypes as T
    P, R = T.SamplingStrategyType.PROBABILISTIC, T.SamplingStrategyType.RATE_LIMITING
    if r['kind'] == 'prob':
        a = T.SamplingStrategyResponse(P, T.ProbabilisticSamplingStrategy(r['p']), r.get('junk') and T.RateLimitingSamplingStrategy(7))
    elif r['kind'] == 'rate':
        a = T.SamplingStrategyResponse(R, r.get('junk') and T.ProbabilisticSamplingStrategy(0.3), T.RateLimitingSamplingStrategy(r['r']))
    else:
        t, p, m = r['what']
        a = T.SamplingStrategyResponse(t, None if p is None else T.ProbabilisticSamplingStrategy(p),
                                       None if m is None else T.RateLimitingSamplingStrategy(m))
    return thrift.parse_sampling_strategy(a)


# type, probability, rate
BAD_THRIFT = [(0, None, None), (0, None, 5), (1, None, None), (1, 0.5, None), (None, 0.5, 5), (2, 0.5, 5), (-1, 0.5, 5), (0, 1.5, None),
              (0, -0.1, 3), (0, float('nan'), None), (0, 1 + 2.0 ** -52, None), (0, -5e-324, None), (0, float('inf'), None),
              (1, None, 500), (1, None, -1), (1, 0.5, 2 ** 15 - 1), (1, 0.5, -2 ** 15)]


class SampDriver(object):
    """init: description of the sampler; remote: behind a RemoteControlledSampler."""
    def __init__(self, init, remote=False, max_ops=2, q=2, rng=None):
        self.init, self.remote, self.max, self.q, self.rng = init, remote, max_ops, q, rng or random.Random(1)
        self.now = 0

    def clock(self):
        return BASE + self.now * TICK

    def cnt(self):
        g = self.counts.get
        return dict(retr=g('jaeger:sampler_queries', result='ok'), qerr=g('jaeger:sampler_queries', result='err'),
                    upd=g('jaeger:sampler_updates', result='ok'), uerr=g('jaeger:sampler_updates', result='err'))

    def run(self, cmds):
        from jaeger_client.sampler import RemoteControlledSampler
        self.counts = Counts()
        ev = []
        with env.virtual_clock(self.clock), fixed_random(self.q):
            s = make(self.init, self.max)
            if self.remote:
                s = RemoteControlledSampler(Channel(), 'svc', init_sampler=s, max_operations=self.max,
                                            metrics_factory=self.counts, sampling_refresh_interval=60)
            for c in cmds:
                if c[0] == 'tick':
                    self.now = max(0, self.now + c[1])
                    continue
                raised = ''
                if c[0] == 'ask':
                    yes, tags = False, []
                    try:
                        yes, t = s.is_sampled(num(c[1]), c[2])
                        tags = tag_pair(t) if yes else []
                    except Exception as e:
                        raised = repr(e)[:200]
                    e = dict(k='ask', tid=c[1], op=c[2], yes=bool(yes), tags=tags)
                elif c[0] == 'resp':
                    try:
                        self.respond(s, c[1])
                    except Exception as e:
                        raised = repr(e)[:200]
                    e = dict(k='resp', **spec_resp(c[1]))
                elif c[0] == 'parse':
                    got, error = None, None
                    try:
                        got, error = thrift_parse(c[1])
                    except Exception as e:
                        raised = repr(e)[:200]
                    e = dict(k='parse', got=got is not None, error=bool(error), **spec_resp(c[1]))
                    s = got or s
                elif c[0] == 'eq':               # comparing changes nothing
                    other = make(c[1], self.max)
                    same = [s == other, other == s, not s != other]
                    if s == 1 or other == None or s != s:    # noqa
                        same = 'broken'
                    e = dict(k='eq', same=same[0] if len(set(same)) == 1 else 'broken', other=spec_init(c[1]))
                elif c[0] == 'upd':
                    ok, changed = c[1].get('ok', True), False
                    try:
                        if self.init['kind'] == 'rate':
                            changed = s.update(c[1]['r'])
                        elif self.init['kind'] == 'guar':
                            s.update(c[1]['lb'], c[1]['p'])
                        else:
                            s.update(c[1]['json'] if 'json' in c[1] else adapt_json(c[1]))
                    except Exception as e:
                        raised = repr(e)[:200]
                    e = dict(k='upd', ok=ok, changed=bool(changed))
                    if ok:
                        if self.init['kind'] == 'rate':
                            e.update(r=rate(c[1]['r']))
                        elif self.init['kind'] == 'guar':
                            e.update(lb=rate(c[1]['lb']), p=prob(c[1]['p']))
                        else:
                            e.update(adapt(c[1]))
                e.update(now=self.now, raised=raised, cnt=self.cnt())
                ev.append(e)
        return dict(cfg=dict(init=spec_init(self.init), max=self.max, q=self.q, remote=self.remote, now=0), ev=ev)

    def respond(self, s, r):
        if r['kind'] == 'failed':
            s._sampling_request_callback(Fut(exc=r.get('exc') or OSError('unreachable')))
            return
        b = body(r)
        if isinstance(b, str) and self.rng.random() < 0.7:
            b = b.encode('utf-8')
        s._sampling_request_callback(Fut(Response(b)))


def explore(init, programs, budget, rng, opcodes, remote, max_ops=2, q=2):
    """programs: per thread a list of ('ask', tid, op) and ('resp', r)."""
    from jaeger_client.sampler import RemoteControlledSampler
    cfg = dict(init=spec_init(init), max=max_ops, q=q, remote=remote, now=0)

    def scenario():
        ev = []
        with fixed_random(q):
            s = make(init, max_ops)
            if remote:
                s = RemoteControlledSampler(Channel(), 'svc', init_sampler=s, max_operations=max_ops)

        def thread(t, ops):
            def fn():
                for o in ops:
                    if o[0] == 'ask':
                        ev.append(dict(k='call', t=t, what=dict(k='ask', tid=o[1], op=o[2])))
                        yes, tags = s.is_sampled(num(o[1]), o[2])
                        ev.append(dict(k='ret', t=t, yes=bool(yes), tags=tag_pair(tags) if yes else []))
                    else:
                        ev.append(dict(k='call', t=t, what=dict(k='resp', **spec_resp(o[1]))))
                        s._sampling_request_callback(Fut(Response(body(o[1]))))
                        ev.append(dict(k='ret', t=t, yes=False, tags=[]))
            return fn
        return [thread(i + 1, p) for i, p in enumerate(programs)], lambda: ev
    res = []
    with env.virtual_clock(lambda: BASE), fixed_random(q):
        for ev, sch, dead, excs in sched.schedules(scenario, len(programs), budget, rng, opcodes=opcodes,
                                                   files={'sampler.py', 'rate_limiter.py'}):
            if dead:
                ev = ev + [dict(k='deadlock')]
            for x in excs:
                ev = ev + [dict(k='exception', text=repr(x)[:300])]
            res.append(dict(cfg=cfg, ev=ev, info=repr(sch)))
    return res


# ---- material ------------------------------------------------------------------
PROBS = [0.0, 1.0, 0.5, 0.25, 0.75, 0.001, 0.1, 1 / 3., 1 - 2.0 ** -53, 2.0 ** -64, 2.0 ** -65, 3 * 2.0 ** -65, 5e-324, 2.0 ** -53]
EXACT = [0.0, 0.25, 0.5, 1.0, 2.0, 4.0, 16.0, 1.5, 499.0]
LOOSE = [0.1, 1 / 600., 3.3, 0.7, 499.9]


def random_tid(rng, p=None):
    r = rng.random()
    low = rng.getrandbits(64)
    if p is not None and r < 0.6:
        b = int(math.ceil(fractions.Fraction(p) * 2 ** 64))
        low = min(max(b + rng.choice([-1, 0, 0, 1, -2, 1 << 33, -(1 << 33)]), 0), 2 ** 64 - 1)
    elif r < 0.8:
        low = rng.choice([0, 1, 2 ** 63, 2 ** 63 - 1, 2 ** 64 - 1, 2 ** 62])
    if rng.random() < 0.4:
        low |= rng.choice([1, 2 ** 63, 2 ** 64 - 1, rng.getrandbits(64)]) << 64
    return hexd(low)


INVALID = ['{}', '[]', 'null', '5', '"x"', '{"strategyType": "OTHER"}', '{"strategyType": 7}', '[1, 2]', 'true',
           '{"strategyType": "PROBABILISTIC", "probabilisticSampling": {"samplingRate": 1.5}}',
           '{"strategyType": "PROBABILISTIC", "probabilisticSampling": {"samplingRate": -0.1}}',
           '{"strategyType": "PROBABILISTIC", "probabilisticSampling": {"samplingRate": "x"}}',
           '{"strategyType": "PROBABILISTIC", "probabilisticSampling": {"samplingRate": null}}',
           '{"strategyType": "PROBABILISTIC", "probabilisticSampling": {"samplingRate": NaN}}',
           '{"strategyType": "PROBABILISTIC", "probabilisticSampling": {"samplingRate": [1]}}',
           '{"strategyType": "PROBABILISTIC", "probabilisticSampling": [1]}',
           '{"strategyType": "RATE_LIMITING", "rateLimitingSampling": {"maxTracesPerSecond": 500}}',
           '{"strategyType": "RATE_LIMITING", "rateLimitingSampling": {"maxTracesPerSecond": -1}}',
           '{"strategyType": "RATE_LIMITING", "rateLimitingSampling": {"maxTracesPerSecond": NaN}}',
           '{"strategyType": "RATE_LIMITING", "rateLimitingSampling": {"maxTracesPerSecond": "10"}}',
           '{"strategyType": "RATE_LIMITING", "rateLimitingSampling": {"maxTracesPerSecond": null}}',
           '{"strategyType": "RATE_LIMITING", "rateLimitingSampling": {"maxTracesPerSecond": 1e300}}']


def bad_adapt(rng):
    a = dict(defaultSamplingProbability=1.0, defaultLowerBoundTracesPerSecond=2.0,
             perOperationStrategies=[dict(operation='a', probabilisticSampling=dict(samplingRate=1.0)),
                                     dict(operation='z', probabilisticSampling=dict(samplingRate=0.0))])
    k = rng.randint(0, 6)
    if k < 2:
        a['perOperationStrategies'] = a['perOperationStrategies'][:rng.randint(0, 2)]
    if k == 0:
        a['defaultSamplingProbability'] = rng.choice([1.1, -1, 'x', None])
    elif k == 1:
        a['defaultLowerBoundTracesPerSecond'] = rng.choice([-1.0, 'x', None])
    elif k == 2:
        a['perOperationStrategies'][1]['probabilisticSampling']['samplingRate'] = rng.choice([2, -0.5, 'x', None])
    elif k == 3:
        a['perOperationStrategies'] = rng.choice([None, 5, [1], [None], {'a': 1}])
    elif k == 4:
        a['perOperationStrategies'].append(dict(operation='y', probabilisticSampling=dict(samplingRate=7)))
    elif k == 5:
        a['perOperationStrategies'][1] = rng.choice([[], 'x', 7, None])
    else:
        a['perOperationStrategies'][1]['probabilisticSampling'] = rng.choice([[1], 'x', 5])
    return a


OMIT = ['empty', 'other', 'null', 'none']


def random_resp(rng, ops=('a', 'b', 'c', 'd')):
    r = rng.random()
    if r < 0.08:
        return dict(kind='prob', p=DEFAULT_P, omit=rng.choice(OMIT))
    if r > 0.92 and r < 0.95:
        return dict(kind='rate', r=DEFAULT_R, omit=rng.choice(OMIT))
    if r > 0.45 and r < 0.6:
        return dict(random_adapt(rng, ops, [0.0, 1.0, DEFAULT_P]), omit=rng.choice(OMIT))
    if r < 0.2:
        return dict(kind='prob', p=rng.choice(PROBS))
    if r < 0.45:
        return dict(kind='rate', r=rng.choice(EXACT + LOOSE))
    if r < 0.75:
        return random_adapt(rng, ops)
    if r < 0.87:
        b = rng.choice(INVALID) if rng.random() < 0.5 else json.dumps(dict(operationSampling=bad_adapt(rng)))
        return dict(kind='invalid', body=b)
    if r < 0.95:
        return dict(kind='garbage', body=rng.choice(['', '{', b'\xff\xfe', 'not json', b'{"strategyType": \xe9}', '{"a": }', None]))
    return dict(kind='failed')


def random_adapt(rng, ops=('a', 'b', 'c', 'd'), ps=(0.0, 0.0, 0.5, 1.0, 0.1)):
    chosen = rng.sample(list(ops), rng.randint(0, 3))
    if chosen and rng.random() < 0.1:
        chosen.append(chosen[0])
    return dict(kind='adapt', lb=rng.choice([0.25, 0.5, 1.0, 2.0, 1 / 600.]), d=rng.choice([0.0, 0.5, 1.0, 0.001]),
                ops=[(o, rng.choice(ps)) for o in chosen])


def random_tick(rng):
    r = rng.random()
    if r < 0.4:
        return ['tick', rng.choice([4, 64, 256, 512, 1024])]
    if r < 0.75:
        return ['tick', rng.choice([2048, 4096, 1024 * 60, 1023, 1, 10 ** 7])]
    return ['tick', -rng.choice([4, 256, 1024, 4096, 1024 * 1000])]

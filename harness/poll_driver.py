"""Pollers (remote sampler, remote throttler) on virtual time, for spec/PollTrace.tla;
credits of the throttler, for spec/CredTrace.tla and CredLin.tla."""
import contextlib
import json
import math
import random

from . import env, sched, vloop
from .samp_driver import Counts, Fut, Later, Response, BASE

TICKS = 1024.0


@contextlib.contextmanager
def chosen_random(value):
    """Every random fraction drawn from the module random or from an unseeded generator is value()."""
    real = random.Random, random.random, random.uniform

    class R(random.Random):
        def __init__(self, *a, **kw):
            real[0].__init__(self, *a, **kw)
            self._seeded = bool(a or kw)

        def random(self):
            return real[0].random(self) if self._seeded else value()
    with env.swapped((random, 'Random', R), (random, 'random', value), (random, 'uniform', lambda a, b: a + (b - a) * value())):
        yield


class Channel(object):
    def __init__(self, io_loop, now):
        self.io_loop, self.now, self.reqs, self.futs = io_loop, now, [], []

    def _add(self, service, client, ops):
        f = Later()
        self.reqs.append(dict(t=self.now(), service=service, client=client, ops=list(ops)))
        self.futs.append(f)
        return f

    def request_sampling_strategy(self, service_name, timeout=15):
        return self._add(service_name, '', [])

    def request_throttling_credits(self, service_name, client_id, operations, timeout=15):
        return self._add(service_name, '' if client_id is None else str(client_id), operations)


SAMP_ANSWERS = dict(yes=b'{"strategyType": "PROBABILISTIC", "probabilisticSampling": {"samplingRate": 1.0}}',
                    no='{"strategyType": "PROBABILISTIC", "probabilisticSampling": {"samplingRate": 0.0}}',
                    invalid='{}', garbage='{', latin=b'\xff{}', fail=None)
THROT_ANSWERS = dict(yes=b'{"balances": [{"operation": "a", "balance": 2}]}',
                     much='{"balances": [{"operation": "a", "balance": 1000}, {"operation": "b", "balance": 12.5}]}',
                     no='{"balances": []}', other='{"balances": [{"operation": "z", "balance": 0.5}]}',
                     invalid='{}', garbage='{', latin=b'\xff{}', fail=None)


class PollDriver(object):
    def __init__(self, kind, interval, q=0.5, loop=True, direct=False):
        self.kind, self.I, self.q, self.loop, self.direct = kind, interval, q, loop, direct

    def make(self, ch):
        from jaeger_client.sampler import ConstSampler, RemoteControlledSampler
        from jaeger_client.throttler import RemoteThrottler
        if self.kind == 'sampler':
            return RemoteControlledSampler(ch, 'svc', init_sampler=ConstSampler(False), metrics_factory=self.counts,
                                           sampling_refresh_interval=self.I)
        return RemoteThrottler(ch, 'svc', refresh_interval=self.I, metrics_factory=self.counts)

    def cnt(self):
        g = self.counts.get
        n = 'jaeger:sampler_queries' if self.kind == 'sampler' else 'jaeger:throttler_update'
        return dict(ok=g(n, result='ok'), err=g(n, result='err'))

    def run(self, cmds):
        """adv ticks | ask op | answer n kind | client id | close"""
        self.counts = Counts()
        ev = []
        with vloop.World(BASE) as w, chosen_random(lambda: self.q if not callable(self.q) else self.q()):
            env.loop_errors()
            tick = lambda: int(math.ceil((w.now - BASE) * TICKS - 1e-6))    # noqa: E731
            ch = Channel(w.io_loop if self.loop else None, tick)
            p = w.run(lambda: self.make(ch))
            seen = 0

            def note(k, **kw):
                nonlocal seen
                new, seen_ = ch.reqs[seen:], len(ch.reqs)
                seen = seen_
                errs = w.aio.errors + env.loop_errors()
                del w.aio.errors[:]
                e = dict(k=k, t=tick(), reqs=[dict(r) for r in new], errs=[str(x)[:200] for x in errs], raised='', **self.cnt())
                e.update(kw)
                ev.append(e)
            note('start')
            for c in cmds:
                kw, raised = {}, ''
                try:
                    if c[0] == 'adv':
                        w.advance(c[1] / TICKS)
                    elif c[0] == 'ask':
                        kw = dict(op=c[1], yes=False)
                        kw['yes'] = bool(p.is_sampled(1, c[1])[0]) if self.kind == 'sampler' else bool(p.is_allowed(c[1]))
                    elif c[0] == 'answer':
                        if not ch.futs:
                            continue
                        i = c[1] % len(ch.futs)
                        if ch.futs[i].done():
                            continue
                        kw = dict(what=c[2])
                        b = (SAMP_ANSWERS if self.kind == 'sampler' else THROT_ANSWERS)[c[2]]
                        r = dict(exc=IOError('no agent')) if b is None else dict(result=Response(b))
                        w.run(lambda: ch.futs[i].set(**r))
                    elif c[0] == 'client':
                        kw = dict(id=str(c[1]))
                        if self.kind == 'throttler':
                            p.set_client_id(c[1])
                    elif c[0] == 'close':
                        p.close() if not self.direct else w.run(p.close)
                        w.settle()
                except Exception as x:
                    raised = repr(x)[:200]
                note(c[0], **dict(kw, raised=raised))
        return dict(cfg=dict(kind=self.kind, I=int(self.I * TICKS), loop=self.loop), ev=ev)


def delays(kind, interval, n, rng):
    """The times of the first polls of n pollers whose random numbers differ."""
    res = []
    for _ in range(n):
        d = PollDriver(kind, interval, q=rng.random)
        t = d.run([['ask', 'a'], ['adv', int(interval * TICKS) + 1], ['close']])
        res += [r['t'] for e in t['ev'] for r in e['reqs']][:1]
    return res


def close_race(kind, budget, rng, opcodes):
    """close() in one thread against the first polls on the loop in another."""
    res = []
    with chosen_random(lambda: 0.5):
        def scenario():
            d = PollDriver(kind, 2.0)
            d.counts = Counts()
            w = vloop.World(BASE)
            w.__enter__()
            tick = lambda: int(math.ceil((w.now - BASE) * TICKS - 1e-6))    # noqa: E731
            ch = Channel(w.io_loop, tick)
            box = []

            def make():
                box.append(d.make(ch))
                if kind == 'throttler':
                    box[0].is_allowed('a')
            # the poller exists and its random delay runs
            make()
            w.settle()
            state = dict(after=0)

            def loop():
                w.advance(1.0)           # the first poll
                w.advance(2.0)           # the second one, if it is not closed

            def closer():
                box[0].close()
                state['after'] = len(ch.reqs)

            def result():
                n = len(ch.reqs)
                # a poll that had begun when close returned may still be made
                late = n - state['after']
                w.advance(10.0)
                more = len(ch.reqs) - n
                errs = [str(x)[:200] for x in w.aio.errors + env.loop_errors()]
                w.__exit__(None, None, None)
                return dict(k='race', late=late, more=more, errs=errs)
            return [loop, closer], result
        for e, sch, dead, excs in sched.schedules(scenario, 2, budget, rng, opcodes=opcodes,
                                                  files={'sampler.py', 'throttler.py'}):
            e = dict(e, dead=bool(dead), excs=[repr(x)[:200] for x in excs])
            res.append(dict(cfg=dict(kind=kind, I=2048, loop=True), ev=[e], info=repr(sch)))
    return res


# ---- credits ---------------------------------------------------------------------
GRAIN = 1024


def cred_body(r):
    """r: dict(kind='credit', ops=[(op, units)]) | dict(kind='bad', body=...)"""
    if r['kind'] == 'credit':
        return json.dumps(dict(balances=[dict(operation=o, balance=n // GRAIN if n % GRAIN == 0 else n / float(GRAIN))
                                         for o, n in r['ops']]))
    return r['body']


def cred_spec(r):
    if r['kind'] == 'credit':
        return dict(k='resp', kind='credit', ops=[dict(op=o, n=n) for o, n in r['ops']])
    return dict(k='resp', kind='bad', ops=[])


BAD = ['', '{', '{}', '[]', 'null', '3', '{"balances": null}', '{"balances": 7}', '{"balances": [null]}', '{"balances": [[]]}',
       '{"balances": ["x"]}']
BAD_ENTRY = ['{"operation": "b"}', '{"balance": 3}', '{"operation": "b", "balance": "x"}', '{"operation": "b", "balance": null}',
             '{"operation": "b", "balance": [1]}', '{"operation": "b", "balance": {}}', '{"operation": "b", "balance": NaN}',
             '{"operation": "b", "balance": Infinity}', '{"operation": ["b"], "balance": 2}', '{"operation": {}, "balance": 2}', '5',
             '{"operation": "b", "balance": -Infinity}', '{"operation": "b", "balance": "7"}']


def random_units(rng):
    return rng.choice([0, 1, 512, 1023, 1024, 1025, 1536, 2048, 3072, 10240, rng.randrange(5000)])


def random_credit(rng):
    good = [(rng.choice('abc'), random_units(rng)) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    r = rng.random()
    if r < 0.6:
        return dict(kind='credit', ops=good)
    if r < 0.75:
        return dict(kind='bad', body=rng.choice(BAD))
    entries = json.loads(cred_body(dict(kind='credit', ops=good or [('a', 2048)])))['balances']
    parts = [json.dumps(e) for e in entries]
    parts.insert(rng.randrange(len(parts) + 1), rng.choice(BAD_ENTRY))
    return dict(kind='bad', body='{"balances": [%s]}' % ', '.join(parts))


def make_throttler(counts):
    from jaeger_client.throttler import RemoteThrottler
    return RemoteThrottler(Channel(None, lambda: 0), 'svc', metrics_factory=counts)


def cred_run(cmds):
    """ask op | resp r | fail"""
    counts = Counts()
    t = make_throttler(counts)
    ev = []
    for c in cmds:
        e = dict(k='ask', op=c[1], yes=False) if c[0] == 'ask' else cred_spec(c[1]) if c[0] == 'resp' else dict(k='resp', kind='bad', ops=[])
        e['raised'] = ''
        try:
            if c[0] == 'ask':
                e['yes'] = bool(t.is_allowed(c[1]))
            elif c[0] == 'resp':
                b = cred_body(c[1])
                t._request_callback(Fut(Response(b.encode('utf-8') if len(ev) % 2 else b)))
            else:
                t._request_callback(Fut(exc=IOError('x')))
        except Exception as x:
            e['raised'] = repr(x)[:200]
        e.update(thr=counts.get('jaeger:throttled_debug_spans'), ok=counts.get('jaeger:throttler_update', result='ok'),
                 err=counts.get('jaeger:throttler_update', result='err'))
        ev.append(e)
    return dict(cfg=dict(one=GRAIN), ev=ev)


def cred_explore(first, programs, budget, rng, opcodes):
    """programs: per thread ('ask', op) and ('resp', r); first: responses before the threads start"""
    def scenario():
        t = make_throttler(Counts())
        for r in first:
            t._request_callback(Fut(Response(cred_body(r))))
        ev = []

        def thread(n, ops):
            def fn():
                for o in ops:
                    if o[0] == 'ask':
                        ev.append(dict(k='call', t=n, what=dict(k='ask', op=o[1])))
                        yes = bool(t.is_allowed(o[1]))
                        ev.append(dict(k='ret', t=n, yes=yes))
                    else:
                        ev.append(dict(k='call', t=n, what=cred_spec(o[1])))
                        t._request_callback(Fut(Response(cred_body(o[1]))))
                        ev.append(dict(k='ret', t=n, yes=False))
            return fn
        return [thread(i + 1, p) for i, p in enumerate(programs)], lambda: ev
    res = []
    for ev, sch, dead, excs in sched.schedules(scenario, len(programs), budget, rng, opcodes=opcodes, files={'throttler.py'}):
        if dead:
            ev = ev + [dict(k='deadlock')]
        for x in excs:
            ev = ev + [dict(k='exception', text=repr(x)[:300])]
        res.append(dict(cfg=dict(one=GRAIN, first=[cred_spec(r) for r in first]), ev=ev, info=repr(sch)))
    return res

"""Global initialization, error reporting, metrics factories, the channel to the agent and local addresses,
for spec/InitTrace, ErrTrace, MetrTrace, AgentTrace and AddrTrace.tla."""
import contextlib
import importlib
import itertools
import logging
import socket

from . import agent_http, env, sched
from .codec_driver import cps
from .reporter_driver import FakeSocket, fake_sockets
from .samp_driver import BASE
from .vloop import World


# -- C29 global initialization ---------------------------------------------------
class Warnings(logging.Handler):
    def __init__(self):
        super(Warnings, self).__init__(logging.WARNING)
        self.by = {}

    def emit(self, record):
        if record.levelno == logging.WARNING:
            import threading
            t = threading.get_ident()
            self.by[t] = self.by.get(t, 0) + 1

    def take(self):
        import threading
        return self.by.pop(threading.get_ident(), 0)


def init_explore(programs, budget, rng, opcodes):
    """programs: per thread a list of 'init' and 'ask'"""
    import opentracing
    import jaeger_client.config as module
    lg = logging.getLogger('jaeger_tracing')
    old = opentracing.global_tracer()
    res = []

    def scenario():
        Config = importlib.reload(module).Config        # a process in which nothing was initialized yet
        opentracing.set_global_tracer(old)
        ev, warn, made = [], Warnings(), {}
        lg.handlers = [h for h in lg.handlers if not isinstance(h, Warnings)]
        lg.addHandler(warn)
        ids = itertools.count(1)

        def glob():
            return ([n for n, t in made.items() if t is opentracing.global_tracer()] or [0])[0]

        def thread(n, ops):
            def fn():
                for o in ops:
                    i = next(ids)
                    ev.append(dict(k='call', t=n, what=o, n=i))
                    if o == 'init':
                        warn.take()
                        c = Config(dict(sampler=dict(type='const', param=False)), service_name='s%d' % i)
                        t = c.initialize_tracer(io_loop=NullLoop())
                        if t is not None:
                            made[i] = t
                        ev.append(dict(k='ret', t=n, what=o, n=i, yes=t is not None, got=i if t is not None and t.service_name == 's%d' % i else 0 if t is None else -1,
                                       warned=warn.take(), **{'global': glob()}))
                    else:
                        r = bool(Config.initialized())
                        ev.append(dict(k='ret', t=n, what=o, n=i, yes=r))
            return fn

        def result():
            lg.removeHandler(warn)
            return ev + [{'k': 'end', 'global': glob()}]
        return [thread(i + 1, p) for i, p in enumerate(programs)], result
    try:
        for ev, sch, dead, excs in sched.schedules(scenario, len(programs), budget, rng, opcodes=opcodes, files={'config.py'}):
            if dead:
                ev = ev + [dict(k='deadlock')]
            for x in excs:
                ev = ev + [dict(k='exception', text=repr(x)[:300])]
            res.append(dict(cfg=dict(n=len(programs)), ev=ev, info=repr((programs, sch))))
    finally:
        opentracing.set_global_tracer(old)
        lg.handlers = [h for h in lg.handlers if not isinstance(h, Warnings)]
        env.loop_errors()
    return res


class NullLoop(object):
    def add_callback(self, *a, **kw):
        pass
    spawn_callback = call_later = call_at = add_future = add_callback


# -- C31 error reporting ----------------------------------------------------------
class Logger(object):
    def __init__(self):
        self.calls = []

    def error(self, *args):
        self.calls.append(args)


def err_run(minutes, units, rounds, rng=None, threads=None, logger=True, opcodes=False, budget=0):
    """minutes: None for the default of 15; rounds: times in units of 1/units of the interval, each with a number of errors; threads: errors of a round come from threads"""
    from jaeger_client.metrics import Metrics
    from jaeger_client.utils import ErrorReporter
    unit = (15 if minutes is None else minutes) * 60.0 / units
    kw = {} if minutes is None else dict(log_interval_minutes=minutes)

    def fresh():
        now = [0]
        lg = Logger()
        with env.virtual_clock(lambda: BASE + now[0] * unit):
            er = ErrorReporter(Metrics(), logger=lg if logger else None, **kw)
        return now, lg, er

    def cfg():
        return dict(I=units, logger=logger)
    if threads is None:
        now, lg, er = fresh()
        ev = []
        for i, (t, n) in enumerate(rounds):
            now[0] = t
            args = ('m%d %s', i)
            del lg.calls[:]
            err = ''
            with env.virtual_clock(lambda: BASE + now[0] * unit):
                for _ in range(n):
                    try:
                        er.error(*args)
                    except Exception as x:
                        err = repr(x)[:200]
            ev.append(dict(k='round', t=t, calls=n, logs=len(lg.calls), same=all(c == args for c in lg.calls), err=err))
        return [dict(cfg=cfg(), ev=ev, info=repr((minutes, rounds)))]
    res = []

    def scenario():
        now, lg, er = fresh()
        ev = []
        for t, n in rounds[:-1]:
            now[0] = t
            before = len(lg.calls)
            with env.virtual_clock(lambda: BASE + now[0] * unit):
                for _ in range(n):
                    er.error('x')
            ev.append(dict(k='round', t=t, calls=n, logs=len(lg.calls) - before, same=True, err=''))
        t, n = rounds[-1]
        now[0] = t
        before = len(lg.calls)

        def thread():
            for _ in range(n):
                er.error('y')
        return [thread] * threads, lambda: ev + [dict(k='round', t=t, calls=n * threads, logs=len(lg.calls) - before, same=True, err='')]
    now = rounds[-1][0]
    with env.virtual_clock(lambda: BASE + now * unit):
        for ev, sch, dead, excs in sched.schedules(scenario, threads, budget, rng, opcodes=opcodes, files={'utils.py'}):
            if dead or excs:
                ev[-1]['err'] = repr(dead or excs)[:300]
            res.append(dict(cfg=cfg(), ev=ev, info=repr((minutes, rounds, sch))))
    return res


# -- C30 metrics ---------------------------------------------------------------------
UNIT = 8
_ns = itertools.count(1)


def tags_spec(tags):
    return [dict(k=cps(k), v=cps(str(v))) for k, v in (tags or {}).items()]


class Metr(object):
    """A metrics factory and what is seen behind it."""
    def __init__(self, kind, has=('count', 'gauge', 'timing'), ns='', label=''):
        from jaeger_client.metrics import LegacyMetricsFactory, Metrics, MetricsFactory
        self.kind, self.calls, self.label = kind, [], label
        if kind == 'legacy':
            def fn(k):
                return (lambda key, v: self.calls.append(dict(fn=k, key=cps(key), v=int(v * UNIT)))) if k in has else None
            self.f = LegacyMetricsFactory(Metrics(**{k: fn(k) for k in ('count', 'gauge', 'timing')}))
        elif kind == 'prometheus':
            from jaeger_client.metrics.prometheus import PrometheusMetricsFactory
            self.ns = 'n%d%s' % (next(_ns), ns)
            self.f = PrometheusMetricsFactory(namespace=self.ns, service_name_label=label or None)
        else:
            self.f = MetricsFactory()
        self.cfg = dict(kind=kind, has=list(has), label=cps(label))
        self.hs, self.ev = [], []

    def create(self, kind, name, tags):
        before = None if tags is None else list(tags.items())
        e = dict(k='create', kind=kind, name=cps(name), tags=tags_spec(tags), err='')
        try:
            h = {'count': self.f.create_counter, 'gauge': self.f.create_gauge, 'timing': self.f.create_timer}[kind](name=name, tags=tags)
        except Exception as x:
            h = lambda v: None    # noqa: E731
            e['err'] = repr(x)[:200]
        e['kept'] = tags is None or list(tags.items()) == before
        self.hs.append((h, kind, name, tags))
        self.ev.append(e)
        return h

    def update(self, i, v):
        """v: in units of 1/8"""
        del self.calls[:]
        e = dict(k='update', h=i + 1, v=v, err='', calls=[])
        try:
            self.hs[i][0](v // UNIT if v % UNIT == 0 else v / float(UNIT))
        except Exception as x:
            e['err'] = repr(x)[:200]
        e['calls'] = list(self.calls)
        self.ev.append(e)

    def read(self, kind, name, tags):
        from prometheus_client import REGISTRY
        labels = {k: str(v) for k, v in (tags or {}).items()}
        if self.label:
            labels['service'] = self.label
        v = REGISTRY.get_sample_value('%s_%s%s' % (self.ns, name, '_total' if kind == 'count' else ''), labels)
        self.ev.append(dict(k='read', kind=kind, name=cps(name), tags=tags_spec(tags), v=-1 if v is None else int(v * UNIT)))

    def end(self):
        if self.kind == 'prometheus':
            for _, kind, name, tags in self.hs:
                if kind != 'timing':
                    self.read(kind, name, tags)
        return dict(cfg=self.cfg, ev=self.ev, info='')


@contextlib.contextmanager
def clean_registry():
    from prometheus_client import REGISTRY
    before = set(REGISTRY._collector_to_names)
    try:
        yield
    finally:
        for c in list(REGISTRY._collector_to_names):
            if c not in before:
                REGISTRY.unregister(c)


KEYS = ['a', 'b', 'ab', 'k', 'result', 'Z', 'service', 'endpoint']
VALS = ['ok', 'err', 'v', '', 'x.y', 'a_b', 'é', 1, True, 2.5]
NAMES = ['x', 'xa', 'foo', 'jaeger:spans', 'foo_a', 'f', 'xab']


def metr_random(rng, kind):
    label = rng.choice(['', 'svc', 'my-service'])
    m = Metr(kind, has=[k for k in ('count', 'gauge', 'timing') if rng.random() < 0.75], ns=rng.choice(['', 'test']), label=label)
    schema = {}       # Prometheus: a name has one kind and one set of labels
    with clean_registry():
        for _ in range(rng.randint(3, 10)):
            name = rng.choice(NAMES)
            if name not in schema or kind != 'prometheus':
                schema[name] = (rng.choice(['count', 'gauge', 'count', 'timing']), rng.sample(KEYS, rng.randint(0, 3)))
            k, keys = schema[name]
            if k != 'timing' and kind == 'prometheus' and any(schema[x][0] == 'timing' for x in [name]):
                continue
            keys = rng.sample(keys, len(keys))
            tags = {x: rng.choice(VALS) for x in keys}
            m.create(k, name, tags if tags or rng.random() < 0.5 else None)
            for _ in range(rng.randint(0, 4)):
                i = rng.randrange(len(m.hs))
                v = rng.choice([1, 2, 5, 0, 10]) * UNIT
                if m.hs[i][1] == 'timing':
                    v = rng.choice([1000, 2000, 3125, 0, 125]) * UNIT
                elif m.hs[i][1] == 'gauge':
                    v = rng.choice([v, -v, 3, 12, 98765435, -98765435])
                m.update(i, v)
        return m.end()


def metr_explore(specs, budget, rng, opcodes, label=''):
    """Threads that create counters of the same factory and count: specs: per thread list of (name, tags)"""
    res = []

    def scenario():
        m = Metr('prometheus', label=label)

        def thread(ops):
            def fn():
                for name, tags in ops:
                    h = m.create('count', name, dict(tags))
                    i = [k for k in range(len(m.hs)) if m.hs[k][0] is h][0]
                    m.update(i, UNIT)
            return fn
        return [thread(o) for o in specs], m.end
    with clean_registry():
        for t, sch, dead, excs in sched.schedules(scenario, len(specs), budget, rng, opcodes=opcodes, files={'prometheus.py'}):
            if dead:
                t['ev'].append(dict(k='deadlock'))
            for x in excs:
                t['ev'].append(dict(k='exception', text=repr(x)[:300]))
            t['info'] = repr((specs, sch))
            res.append(t)
    return res


# -- C32 the channel to the agent -------------------------------------------------------
def agent_run(cmds, host='127.0.0.1', ports=(5778, 6831, 5779), family='inet', app=False):
    """cmds: ['sampling', service, timeout|None], ['credits', service, uuid, ops, timeout|None], ['write', bytes], ['flush', fail],
    ['discard'], ['app'] (a request of the application on the same event loop)"""
    from jaeger_client.local_agent_net import LocalAgentSender
    from tornado.httpclient import AsyncHTTPClient
    ev, grams, fail = [], [], [False]

    def sink(sock, data, peer):
        if fail[0]:
            raise OSError(111, 'refused')
        grams.append(dict(data=list(data), host=cps(str(peer[0])), port=peer[1]))
        return len(data)
    fam = dict(inet6=socket.AF_INET6).get(family, socket.AF_INET)
    real = socket.getaddrinfo

    def resolve(h, p, *a, **kw):
        if h != host:
            return real(h, p, *a, **kw)
        if family == 'unknown':
            raise socket.gaierror(-2, 'Name or service not known')
        if family == 'empty':
            return []
        return [(fam, socket.SOCK_DGRAM, socket.IPPROTO_UDP, '', ('::1', p, 0, 0) if family == 'inet6' else ('127.0.0.1', p)),
                (socket.AF_INET, socket.SOCK_DGRAM, socket.IPPROTO_UDP, '', ('127.0.0.1', p))]
    with env.swapped((socket, 'getaddrinfo', resolve)), World(BASE) as w, agent_http.fake_http(lambda: 0) as reqs, fake_sockets(sink):
        if app:
            _app(w, reqs, ev)
        ch = LocalAgentSender(host, ports[0], ports[1], io_loop=w.io_loop, throttling_port=ports[2])
        ev.append(dict(k='made', sockets=[dict(family='inet6' if s.family == socket.AF_INET6 else 'inet' if s.family == socket.AF_INET else str(s.family),
                                               type='dgram' if s.type == socket.SOCK_DGRAM else str(s.type), blocking=s.gettimeout() != 0.0)
                                          for s in FakeSocket.made]))
        ev.append(dict(k='open', open=bool(ch.isOpen())))
        for c in cmds:
            n, g = len(reqs), len(grams)
            e = dict(k=c[0], err='')
            if c[0] == 'app':
                _app(w, reqs, ev)
                continue
            try:
                if c[0] == 'sampling':
                    e.update(service=cps(c[1]), timeout=c[2] or 15)
                    kw = dict(timeout=c[2]) if c[2] else {}
                    w.run(lambda: ch.request_sampling_strategy(c[1], **kw))
                    w.settle()
                elif c[0] == 'credits':
                    e.update(service=cps(c[1]), uuid=cps(str(c[2])), ops=[cps(o) for o in c[3]], timeout=c[4] or 15)
                    kw = dict(timeout=c[4]) if c[4] else {}
                    w.run(lambda: ch.request_throttling_credits(c[1], c[2], c[3], **kw))
                    w.settle()
                elif c[0] == 'write':
                    e['data'] = list(c[1])
                    ch.write(c[1])
                elif c[0] == 'flush':
                    e.update(fail=c[1], raised=False)
                    fail[0] = c[1]
                    try:
                        ch.flush()
                    except OSError:
                        e['raised'] = True
                    if c[1] and e['raised']:
                        grams.append(None)
                    fail[0] = False
                elif c[0] == 'discard':
                    ch.discard()
                elif c[0] == 'close':
                    ch.close()
                    e.update(open=bool(ch.isOpen()), closed=all(s.fileno() == -1 for s in FakeSocket.made))
            except Exception as x:
                e['err'] = repr(x)[:200]
            e['reqs'] = [r.view() for r in reqs[n:]]
            e['grams'] = [x for x in grams[g:]]
            if c[0] == 'flush' and e['raised']:
                e['k'], e['grams'] = 'flush_failed', []
            ev.append(e)
            for r in reqs[n:]:
                w.run(lambda r=r: r.answer(b'{}'))
        env.loop_errors()
    return dict(cfg=dict(host=cps(host), sampling_port=ports[0], reporting_port=ports[1], throttling_port=ports[2], family='inet6' if family == 'inet6' else 'inet'), ev=ev,
                info=repr((host, ports, family, app, cmds))[:2000])


def _app(w, reqs, ev):
    from tornado.httpclient import AsyncHTTPClient
    n = len(reqs)
    w.run(lambda: AsyncHTTPClient().fetch('http://localhost:1/app'))
    w.settle()
    r = reqs[n]
    ev.append(dict(k='app', timeout=int(r.request.request_timeout)))
    w.run(lambda: r.answer(b'{}'))
    del reqs[n:]


# -- C33 local addresses ----------------------------------------------------------------
class _Sock(socket.socket):
    outside = None

    def connect(self, peer):
        if self.type != socket.SOCK_DGRAM:
            return super(_Sock, self).connect(peer)
        try:
            socket.inet_aton(peer[0])
        except OSError:
            raise socket.gaierror(-2, 'unknown')
        if _Sock.outside is None:
            raise OSError(101, 'unreachable')
        self.done = True

    def getsockname(self):
        return (_Sock.outside, 40000) if self.type == socket.SOCK_DGRAM and getattr(self, 'done', False) else super(_Sock, self).getsockname()


def addr_run(name, named, localhost, interfaces, outside, tags):
    """name: None if the machine does not tell it; named: what it resolves to, or None; localhost: what that resolves to, or None;
    interfaces: name -> address; outside: address of a socket, None if it cannot be connected, or False if no socket can be made"""
    import fcntl
    import struct
    from jaeger_client import ConstSampler, Tracer
    from jaeger_client.reporter import NullReporter

    def host_name():
        if name is None:
            raise OSError(38, 'function not implemented')
        return name

    def no_socket(*a, **kw):
        raise OSError(24, 'too many open files')

    def by_name(h):
        a = localhost if h == 'localhost' else named if h == name else None
        if a is None:
            raise socket.gaierror(-2, 'unknown')
        return a

    def ioctl(fd, req, arg=0, *a):
        n = bytes(arg).split(b'\0')[0].decode('latin-1') if bytes(arg).rstrip(b'\0') == bytes(arg).split(b'\0')[0] else '?'
        if req != 0x8915 or n not in interfaces:         # SIOCGIFADDR
            raise OSError(19, 'no such device')
        return bytes(arg[:16]) + struct.pack('HH', socket.AF_INET, 0) + socket.inet_aton(interfaces[n]) + b'\0' * (256 - 24)
    e = dict(k='made', raised='', ip=[], host=[], version=False)
    try:
        _Sock.outside = outside or None
        with env.swapped((socket, 'gethostname', host_name), (socket, 'gethostbyname', by_name),
                         (socket, 'socket', no_socket if outside is False else _Sock),
                         (fcntl, 'ioctl', ioctl)):
            t = Tracer('s', NullReporter(), ConstSampler(True), tags=dict(tags))
    except Exception as x:
        e['raised'] = repr(x)[:200]
    if not e['raised']:
        e['ip'] = cps(t.tags.get('ip') or '')
        e['host'] = cps(t.tags.get('hostname') or '')
        e['version'] = str(t.tags.get('jaeger.version', '')).startswith('Python-')
        t.close()
    return dict(cfg=dict(name=cps(name or ''), named=cps((name and named) or ''), localhost=cps(localhost or ''), interfaces={k: cps(v) for k, v in ({} if outside is False else interfaces).items()},
                         outside=cps(outside or ''), tag_ip=cps(tags.get('ip') or ''), tag_host=cps(tags.get('hostname') or '')), ev=[e],
                info=repr((name, named, localhost, interfaces, outside, tags)))

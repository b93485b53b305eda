"""Drives a real Tracer + Reporter through a command sequence and records the
observable events for spec/ReporterTrace.tla."""
import errno
import random
import socket as _socket
import threading

from . import compact, core, env
from .vloop import World

TICKS = [0.125, 0.125, 1 / 1024.0, 16.0]


class FakeSocket(_socket.socket):
    """Datagrams written to it go to the sink instead of the network."""
    sink = None
    made = []

    def __init__(self, family=-1, type=-1, proto=-1, fileno=None):
        super(FakeSocket, self).__init__(family, type, proto, fileno)
        self.fake_peer = None
        if fileno is None and self.type == _socket.SOCK_DGRAM:
            FakeSocket.made.append(self)

    def connect(self, peer):
        if self.type != _socket.SOCK_DGRAM:
            return super(FakeSocket, self).connect(peer)
        self.fake_peer = peer

    def sendto(self, buf, *a):
        return FakeSocket.sink(self, bytes(buf), a[-1])

    def send(self, buf, *a):
        if self.type != _socket.SOCK_DGRAM:
            return super(FakeSocket, self).send(buf, *a)
        return FakeSocket.sink(self, bytes(buf), self.fake_peer)

    def sendall(self, buf, *a):
        if self.type != _socket.SOCK_DGRAM:
            return super(FakeSocket, self).sendall(buf, *a)
        return FakeSocket.sink(self, bytes(buf), self.fake_peer)


class fake_sockets(object):
    """Sockets created in this block are FakeSockets."""
    def __init__(self, sink):
        FakeSocket.sink = staticmethod(sink)
        FakeSocket.made = []

    def __enter__(self):
        self.swap = env.swapped((_socket, 'socket', FakeSocket))
        self.swap.__enter__()
        return self

    def __exit__(self, *a):
        self.swap.__exit__()


class Log(object):
    def __init__(self, clock=None):
        self.ev = []
        self.clock = clock
        self.t = 0
        self.lock = threading.RLock()
        self.reported = 0
        self.poison = []

    def add(self, k, **kw):
        with self.lock:
            if self.clock is not None:
                t = self.clock()
                if t != self.t:
                    self.t = t
                    self.ev.append(dict(k='tick', t=t))
            e = dict(k=k)
            e.update(kw)
            self.ev.append(e)


def metrics_factory(log):
    from jaeger_client.metrics import MetricsFactory

    class MF(MetricsFactory):
        def create_counter(self, name, tags=None):
            tags = tags or {}
            if name != 'jaeger:reporter_spans':
                return lambda v: None
            kind = dict(ok='ok', err='err', dropped='drop').get(tags.get('result'), 'bad_metric')

            def count(v):
                if kind in ('ok', 'err'):
                    log.add(kind, n=v, poison=list(log.poison))
                else:
                    log.add(kind, n=v)
            return count

        def create_gauge(self, name, tags=None):
            if name != 'jaeger:reporter_queue_length':
                return lambda v: None
            return lambda v: log.add('gauge', v=v)
    return MF()


def api_id(span):
    """Spans are known by their start time: names and ids may repeat."""
    return int(span.startTime) // 1000000


def wire_id(span):
    n, rest = divmod(span[8][1], 1000000)
    if rest or not 0 < n < 1000000:
        raise ValueError('start time')
    return n


POISON = ['name', 'surrogate', 'tagkey']


class Driver(object):
    """mode: 'async'  sends stay open until the command o or f
             'sync'   sends answer at once, as scripted by fate
             'udp'    the real sender on captured sockets, failing as scripted"""

    def __init__(self, Q, B, F, mode, fate=None, poison=None, rng=None):
        self.cfg = dict(Q=Q, B=B, F=F)
        self.mode = mode
        self.fate = fate or (lambda: 'ok')
        self.is_poison = poison or (lambda i: None)
        self.rng = rng or random.Random(1)
        self.futures = []
        self.closes = []
        self.nclose = 0
        self.n = 0

    # -- the agent ---------------------------------------------------------
    def _async_send(self, batch):
        from tornado.concurrent import Future
        self.log.add('send', ids=[api_id(s) for s in batch.spans])
        f = Future()
        self.futures.append(f)
        return f

    def _sync_send(self, batch):
        self.log.add('send', ids=[api_id(s) for s in batch.spans])
        r = self.fate()
        self.log.add('result', r='ok' if r == 'ok' else 'err')
        if r == 'sock':
            raise _socket.error(errno.ECONNREFUSED, 'refused')
        if r == 'exc':
            raise ValueError('no')
        if r == 'fut':
            from tornado.concurrent import Future
            f = Future()
            f.set_exception(RuntimeError('later'))
            return f

    def _datagram(self, sock, data, peer):
        try:
            batch = compact.batch_of(data)
            ids = [wire_id(s) for s in batch[2][1]]
        except (compact.Malformed, ValueError, KeyError, IndexError, UnicodeError) as e:
            self.log.add('garbage', why=repr(e)[:200])
            return len(data)
        self.log.add('send', ids=ids)
        r = 'toobig' if len(data) > 65000 else self.fate()
        self.log.add('result', r='ok' if r == 'ok' else 'err')
        if r == 'toobig':
            raise OSError(errno.EMSGSIZE, 'Message too long')
        if r == 'exc':
            raise ValueError('no')
        if r != 'ok':
            raise _socket.error(errno.EAGAIN, 'would block')
        return len(data)

    # -- the run -------------------------------------------------------------
    def run(self, cmds, final=True):
        env.loop_errors()
        with World() as w:
            self.w = w
            start = w.now
            self.tick = self.rng.choice(TICKS)
            self.log = Log(lambda: int((w.now - start) / self.tick))
            self._build()
            w.settle()
            self.idle()
            for c in cmds:
                self.command(c)
                self.idle()
            if final:
                self.command('c')
                self.idle()
                for _ in range(2 * self.n + 4):
                    if not self.futures:
                        break
                    self.command('o')
                    self.idle()
                if self.cfg['F']:
                    self.advance(self.cfg['F'])
                    self.idle()
                self.log.add('end', reported=self.log.reported)
            for e in env.loop_errors():
                self.log.add('loop_exc', text=e[:300])
            for f in self.futures:
                f.cancel()
        return dict(cfg=self.cfg, ev=self.log.ev, info=dict(cmds=cmds, mode=self.mode))

    def _build(self):
        from jaeger_client import ConstSampler, SpanContext, Tracer
        from jaeger_client.reporter import Reporter
        from jaeger_client.local_agent_net import LocalAgentSender
        w = self.w
        kw = dict(queue_capacity=self.cfg['Q'], batch_size=self.cfg['B'],
                  flush_interval=self.cfg['F'] * self.tick if self.cfg['F'] else None,
                  metrics_factory=metrics_factory(self.log))
        with fake_sockets(self._datagram):
            ch = LocalAgentSender('127.0.0.1', 5778, 6831, io_loop=w.io_loop)
        self.reporter = Reporter(channel=ch, io_loop=w.io_loop, **kw)
        if self.mode != 'udp':
            self.reporter._send = self._async_send if self.mode == 'async' else self._sync_send
        self.tracer = w.run(lambda: Tracer('svc', self.reporter, ConstSampler(True),
                                           metrics_factory=None, one_span_per_rpc=True))
        self.tracer.random.seed(7)
        self.shared = SpanContext(trace_id=5, span_id=6, parent_id=7, flags=1)

    def idle(self):
        for e in env.loop_errors():
            self.log.add('loop_exc', text=e[:300])
        for i, f in list(self.closes):
            if f.done():
                self.closes.remove((i, f))
                self.log.add('closedone', id=i, failed=f.exception() is not None)
        self.log.add('idle')

    def make_span(self):
        self.n += 1
        i = self.n
        p = self.is_poison(i)
        name = self.rng.choice(['s%d' % i, 'same', ''])
        if self.rng.random() < 0.3:         # the same ids as others
            span = self.tracer.start_span(name, child_of=self.shared, tags={'span.kind': 'server'}, start_time=i)
        else:
            span = self.tracer.start_span(name, start_time=i)
        if p:
            self.log.poison = self.log.poison + [i]
            if p == 'name':
                span.operation_name = 12345
            elif p == 'surrogate':
                span.operation_name = name + '~\ud800'
            elif p == 'tagkey':
                span.set_tag('\ud800', 1)
            elif p == 'big':
                self.log.poison = self.log.poison[:-1]
                for k in range(80):
                    span.set_tag('k%d' % k, 'x' * 1000)
        return i, span

    def report(self, n):
        for _ in range(n):
            i, span = self.make_span()
            e = dict(k='report', id=i, raised=False)
            self.log.add('report', id=i, raised=False)
            e = self.log.ev[-1]
            self.log.reported += 1
            try:
                span.finish()
            except Exception:
                e['raised'] = True

    def close(self):
        self.nclose += 1
        i = self.nclose
        self.log.add('close', id=i, raised=False)
        e = self.log.ev[-1]
        try:
            f = self.reporter.close()
            self.closes.append((i, f))
        except Exception as x:
            e['raised'] = True
            e['exc'] = repr(x)[:200]

    def advance(self, ticks):
        self.w.advance(ticks * self.tick)

    def command(self, c):
        w = self.w
        k, arg = c[0], c[1:]
        if k == 'r':        # a burst from outside of the loop
            self.report(int(arg))
            w.settle()
        elif k == 'R':      # the same from a callback of the loop
            w.run(lambda: self.report(int(arg)))
        elif k == 'T':      # from another thread
            t = threading.Thread(target=self.report, args=(int(arg),))
            t.start()
            t.join()
            w.settle()
        elif k == 'c':
            w.run(self.close)
        elif k == 'C':      # close from a thread without an event loop
            t = threading.Thread(target=self.close)
            t.start()
            t.join()
            w.settle()
        elif k == 'x':      # report and close without the loop running in between: r<n> c r<m>
            a, b = arg.split('.')

            def both():
                self.report(int(a))
                self.close()
                self.report(int(b))
            w.run(both)
        elif k in 'of':
            if not self.futures:
                return
            f = self.futures.pop(0)
            self.log.add('result', r='ok' if k == 'o' else 'err')
            if k == 'o':
                f.set_result(None)
            else:
                f.set_exception(self.rng.choice([_socket.error(111, 'refused'), ValueError('v')]))
            w.settle()
        elif k == 't':
            self.advance(self.cfg['F'])
        elif k == 'h':
            self.advance(self.cfg['F'] // 2 if self.cfg['F'] else 3)
        elif k == 'w':
            self.advance(int(arg))
        else:
            raise core.MachineryError(c)


def random_cmds(rng, F, n, mode, closes=2):
    res = []
    c = 0
    for _ in range(n):
        x = rng.random()
        if x < 0.40:
            res.append(rng.choice('rrRT') + str(rng.choice([1, 1, 1, 2, 2, 3, 4, 7])))
        elif x < 0.65 and mode == 'async':
            res.append(rng.choice('ooof'))
        elif x < 0.90:
            res.append('w%d' % rng.choice([1, 2, F or 3, F or 5, max(1, F - 1), F + 1, 2 * F + 1, rng.choice([40, 1000, 100000])]))
        elif c < closes:
            c += 1
            res.append(rng.choice(['c', 'C', 'x%d.%d' % (rng.randint(0, 4), rng.randint(0, 3))]))
    return res

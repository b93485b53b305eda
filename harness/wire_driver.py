"""Spans made through the API against the datagrams that leave the process, for spec/WireTrace.tla."""
import decimal
import enum
import fractions
import struct
import sys
import traceback

from . import compact, core, env
from .codec_driver import cps, hexd, num, rnd_id, text, CHARS
from .reporter_driver import fake_sockets
from .vloop import World


def split_time(ts):
    """Exact seconds and whole microseconds."""
    us = fractions.Fraction(ts) * 1000000
    n = us.numerator // us.denominator
    return dict(sec=n // 1000000, us=n % 1000000)


def value(v):
    if v is True or v is False:
        return dict(t='b', v=v)
    if isinstance(v, int):
        return dict(t='i', neg=v < 0, mag=hexd(abs(v)), s=cps(str(v)))
    if isinstance(v, float):
        return dict(t='f', bits=hexd(struct.unpack('>Q', struct.pack('>d', v))[0]))
    if type(v).__name__ == 'traceback':
        return dict(t='tb', s=cps(''.join(traceback.format_tb(v))))
    try:
        return dict(t='s', s=cps(str(v)))
    except Exception as e:
        return dict(t='s', s=cps(str(e)))


def wire_tag(t):
    r = dict(k=cps(t[1][1].decode('utf-8')), t=t[2][1], has=[], s=[], bits=[], b=False, neg=False, mag=[])
    for f, name in ((3, 'vStr'), (4, 'vDouble'), (5, 'vBool'), (6, 'vLong'), (7, 'vBinary')):
        if f in t:
            r['has'].append(name)
    if 3 in t:
        r['s'] = cps(t[3][1].decode('utf-8'))
    if 4 in t:
        r['bits'] = hexd(t[4][1])
    if 5 in t:
        r['b'] = t[5][1]
    if 6 in t:
        v = t[6][1]
        r['neg'] = v >> 63 == 1
        r['mag'] = hexd((1 << 64) - v if v >> 63 else v)
    return r


def signed(v):
    return v - (1 << 64) if v >> 63 else v


def us(v):
    v = signed(v)
    return dict(sec=v // 1000000, us=v % 1000000)


def tags(s, f):
    return [wire_tag(t) for t in s[f][1]] if f in s else []


def wire_span(s):
    return dict(lo=hexd(s[1][1]), hi=hexd(s[2][1]), sid=hexd(s[3][1]), pid=hexd(s[4][1]), op=cps(s[5][1].decode('utf-8')),
                refs=[dict(t=r[1][1], lo=hexd(r[2][1]), hi=hexd(r[3][1]), sid=hexd(r[4][1])) for r in s.get(6, (0, []))[1]],
                fl=s[7][1], st=us(s[8][1]), dur=us(s[9][1]), tags=tags(s, 10),
                logs=[dict(ts=us(lg[1][1]), f=tags(lg, 2)) for lg in s.get(11, (0, []))[1]])


class IntE(enum.IntEnum):
    A = 7


class Raises(object):
    def __str__(self):
        raise ValueError('cannot be shown')


class Shown(object):
    def __str__(self):
        return 'shown ' * 9


class MyFloat(float):
    def __str__(self):
        return 'my-float'


class MyStr(str):
    def __str__(self):
        return 'my-str'


class MyInt(int):
    def __str__(self):
        return 'my-int'


def a_traceback():
    def deep(n):
        if n:
            deep(n - 1)
        raise KeyError('x')
    try:
        deep(3)
    except KeyError:
        return sys.exc_info()[2]


TB = a_traceback()
VALUES = [True, False, 0, 1, -1, 127, 128, -129, 2 ** 31, 2 ** 32, 2 ** 53 + 1, 2 ** 63 - 1, 2 ** 63, -2 ** 63, -2 ** 63 - 1, 2 ** 64,
          -2 ** 64, 10 ** 30, 0.0, -0.0, 1.5, -1e300, 1e-310, float('inf'), float('-inf'), float('nan'), '', 'x', 'x' * 1023, 'x' * 1024,
          'x' * 1025, 'é世😀' * 400, '\x00\n', None, b'bytes', bytearray(b'q'), [1, 'a'], (), {'a': 1}, {3}, decimal.Decimal('1.10'),
          IntE.A, MyInt(5), MyFloat(2.5), MyStr('q'), 'z' * 1020 + ' ' * 10, ' x ', Raises(), Shown(), complex(1, 2), TB, object, Ellipsis]


class Throttler(object):
    client_id = None

    def set_client_id(self, c):
        self.client_id = c

    def is_allowed(self, op):
        return True

    def close(self):
        pass


class WireDriver(object):
    def __init__(self, rng, maxlen=1024, maxtb=4096, tags=None, wide=False, throttler=False, service='svc', batch=1):
        self.rng = rng
        self.opt = (maxlen, maxtb, tags, wide, throttler, service, batch)
        user = dict(tags or {})
        self.cfg = dict(max=maxlen, maxtb=maxtb, service=cps(service),
                        tags=[dict(k=cps(k), v=value(v)) for k, v in user.items()],
                        added=[cps(k) for k in ['jaeger.version', 'ip', 'hostname'] if user.get(k) is None]
                        + ([cps('client-uuid')] if throttler else []))
        self.ev = []

    def run(self, makers):
        """makers: list of lists of functions(tracer, self) -> (span, record); one flush per list."""
        from jaeger_client import ConstSampler, Tracer
        from jaeger_client.local_agent_net import LocalAgentSender
        from jaeger_client.reporter import Reporter
        maxlen, maxtb, tags, wide, thr, service, batch = self.opt
        pending = []
        datagrams = []

        def sink(sock, data, peer):
            datagrams.append(data)
            return len(data)
        env.loop_errors()
        with World(1500000000.0) as w:
            with fake_sockets(sink):
                ch = LocalAgentSender('127.0.0.1', 5778, 6831, io_loop=w.io_loop)
            rep = Reporter(channel=ch, io_loop=w.io_loop, queue_capacity=100, batch_size=batch, flush_interval=1)
            th = Throttler() if thr else None
            self.w = w
            tr = w.run(lambda: Tracer(service, rep, ConstSampler(True), tags=dict(tags) if tags is not None else None,
                                      max_tag_value_length=maxlen, max_traceback_length=maxtb,
                                      generate_128bit_trace_id=wide, throttler=th))
            if thr:
                self.cfg['tags'].append(dict(k=cps('client-uuid'), v=value(th.client_id)))
                self.cfg['added'].pop()
            proc = dict(service=cps(service), tags=self.cfg['tags'], added=self.cfg['added'], max=maxlen)
            for group in makers:
                if self.rng.random() < 0.2:     # another tracer on the same reporter: its process is the last one set
                    s2, t2, m2 = self.rng.choice(['other', 'svc']), self.rng.choice([{'z': 'y' * 20}, {'ip': 'i'}]), self.rng.choice([1024, 7])
                    w.run(lambda: Tracer(s2, rep, ConstSampler(True), tags=dict(t2), max_tag_value_length=m2))
                    proc = dict(service=cps(s2), tags=[dict(k=cps(k), v=value(v)) for k, v in t2.items()], max=m2,
                                added=[cps(k) for k in ['jaeger.version', 'ip', 'hostname'] if k not in t2])
                for m in group:
                    span, rec, fin = m(tr, self)
                    pending.append(rec)
                    w.run(fin)
                w.settle()
                w.advance(1.5)
                for d in datagrams:
                    try:
                        b = compact.batch_of(d)
                        p = b[1][1]
                        wire = dict(st='ok', process=dict(service=cps(p[1][1].decode('utf-8')), tags=tags_of(p)),
                                    spans=[wire_span(s) for s in b[2][1]])
                        n = len(wire['spans'])
                    except (compact.Malformed, KeyError, UnicodeError, TypeError) as e:
                        wire, n = dict(st=repr(e)[:200]), 1
                    self.ev.append(dict(k='batch', spans=pending[:n], wire=wire, proc=proc))
                    del pending[:n]
                del datagrams[:]
            if pending:
                self.ev.append(dict(k='batch', spans=pending, proc=proc, wire=dict(
                    st='ok', process=dict(service=cps(service), tags=[]), spans=[])))
        return dict(cfg=self.cfg, ev=self.ev)


def tags_of(p):
    return [wire_tag(t) for t in p[2][1]] if 2 in p else []


def spec_span(cmd):
    """A span for a trace id and an integer tag that TLC generated."""
    def make(tr, d):
        from jaeger_client import SpanContext
        rng = d.rng
        sid, pid = num(rnd_id(rng)), num(rnd_id(rng))
        p = SpanContext(trace_id=num(cmd['tid']), span_id=pid, parent_id=sid, flags=1)
        v = num(cmd['int']['mag']) * (-1 if cmd['int']['neg'] else 1)
        return build(tr, d, p, [('n', v)], [], [])
    return make


def random_span(values=VALUES, big=False):
    def make(tr, d):
        from jaeger_client import SpanContext
        rng = d.rng
        p = None
        if rng.random() < 0.7:
            p = SpanContext(trace_id=num(rnd_id(rng, rng.random() < 0.6)), span_id=num(rnd_id(rng)),
                            parent_id=num(rnd_id(rng)) if rng.random() < 0.5 else None, flags=rng.choice([1, 1, 3, 9, 255]))
        key = lambda: rng.choice(['k', 'é', 'span.kind', 'a b', '', 'K', 'x' * 30, 5, None, 'http.url'])   # noqa
        tags = [(key(), rng.choice(values)) for _ in range(big or rng.choice([0, 1, 2, 4]))]
        logs = [dict((str(key()), rng.choice(values)) for _ in range(rng.choice([0, 1, 2, 3]))) for _ in range(big or rng.choice([0, 0, 1, 2]))]
        refs = []
        for _ in range(big and big // 3 or rng.choice([0, 0, 1, 2, 3])):
            refs.append((rng.choice(['child_of', 'follows_from']), rng.choice(['ctx', 'ctx', 'none', 'bag'])))
        return build(tr, d, p, tags, logs, refs)
    return make


def build(tr, d, parent, tags, logs, refs):
    from jaeger_client import SpanContext
    from opentracing import Format, Reference
    rng = d.rng
    st = rng.choice([1500000000.0, 1.0, 1234567890.123456, 1500000000.999999, 4000000000.5, rng.uniform(1, 2e9)])
    dur = rng.choice([0.0, 0.000001, 0.25, 1.0, -0.5, -3.000001, 59.999999, 86400.0, 3e6, rng.uniform(0, 1e4)])
    op = rng.choice(['op', '', 'é世😀', 'x' * 2000, 'a\x00b', ''.join(rng.choice(CHARS) for _ in range(8))])
    rl, rv = [], []
    for t, kind in refs:
        if kind == 'ctx':
            c = SpanContext(trace_id=num(rnd_id(rng, True)), span_id=num(rnd_id(rng)),
                            parent_id=rng.choice([None, num(rnd_id(rng))]), flags=1)
            rv.append(dict(t=t, has=True, tid=hexd(c.trace_id), sid=hexd(c.span_id)))
        elif kind == 'bag':
            c = tr.extract(Format.TEXT_MAP, {'uberctx-a': 'b'})
            rv.append(dict(t=t, has=False, tid=[], sid=[]))
        else:
            c = None
        rl.append(Reference(''.join(list(t)), c))
    now = rng.random() < 0.2
    start_tags = None
    rest = list(tags)
    if tags and rng.random() < 0.5:
        n = rng.randint(1, len(tags))
        start_tags = dict(tags[:n])
        rest = tags[n:]
    if now:
        d.w.advance(rng.choice([0.0, 0.015625, 1.000001]))
        st = d.w.now
    span = tr.start_span(op, child_of=parent, references=rl or None, tags=dict(start_tags) if start_tags else None,
                         start_time=None if now else st, ignore_active_span=True)
    first = dict(start_tags or {})
    if span.parent_id is None:      # the decision of the sampler is recorded in tags of the root
        first.update({'sampler.type': 'const', 'sampler.param': True})
    rec = dict(tags=[dict(k=cps(str(k)), v=value(v)) for k, v in first.items()], logs=[], refs=rv,
               st=split_time(st))
    for k, v in rest:
        span.set_tag(k, v)
        rec['tags'].append(dict(k=cps(str(k)), v=value(v)))
    for f in logs:
        ts = rng.choice([None, 5.5, 1234567890.123456, rng.uniform(1, 2e9)])
        span.log_kv(dict(f), timestamp=ts)
        rec['logs'].append(dict(ts=split_time(d.w.now if ts is None else ts),
                                f=[dict(k=cps(k), v=value(v)) for k, v in f.items()]))
    bag = {}
    for _ in range(rng.choice([0, 0, 0, 1, 2])):        # baggage is logged too
        k, v = rng.choice(['bk', 'é']), rng.choice(['v', '', 'x' * 50])
        span.set_baggage_item(k, v)
        f = [('event', 'baggage'), ('key', k), ('value', v)] + ([('override', 'true')] if bag.get(k) else [])
        bag[k] = v
        rec['logs'].append(dict(ts=split_time(d.w.now), f=[dict(k=cps(a), v=value(b)) for a, b in f]))
    if rng.random() < 0.2:
        op = op + '2'
        span.set_operation_name(op)
    rec.update(op=cps(op), tid=hexd(span.trace_id), sid=hexd(span.span_id), pid=hexd(span.parent_id), fl=span.flags)
    if parent is not None and (span.trace_id != parent.trace_id or span.parent_id != parent.span_id):
        raise core.CodeError('the span does not continue its parent')
    late = now and rng.random() < 0.5
    if late:
        d.w.advance(rng.choice([0.0, 0.5, 2.000001]))
        en = d.w.now
    else:
        en = st + dur
    rec['en'] = split_time(en)
    return span, rec, (lambda: span.finish()) if late else (lambda: span.finish(en))

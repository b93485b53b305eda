"""Runs inject and extract of the real tracer and records them for spec/CodecTrace.tla."""
from opentracing import Format


def cps(s):
    return [ord(c) for c in s]


def hexd(n):
    """Hexadecimal digits without leading zeros."""
    return [] if not n else [int(c, 16) for c in '%x' % n]


def num(d):
    n = 0
    for x in d:
        n = n * 16 + x
    return n


def text(c):
    return ''.join(chr(x) for x in c)


FMT = dict(text=Format.TEXT_MAP, http=Format.HTTP_HEADERS, binary=Format.BINARY, zipkin='zipkin-span-format', b3='b3')


class Obj(object):
    pass


class Attrs(object):
    """A zipkin carrier with attributes."""
    def __init__(self, d):
        self.__dict__.update(d)


class CodecDriver(object):
    def __init__(self, tname='uber-trace-id', prefix='uberctx-', dname='jaeger-debug-id', wide=False):
        from jaeger_client import ConstSampler, Tracer
        from jaeger_client.codecs import B3Codec
        from jaeger_client.reporter import NullReporter
        self.tracer = Tracer('svc', NullReporter(), ConstSampler(True), trace_id_header=tname, baggage_header_prefix=prefix,
                             debug_id_header=dname, generate_128bit_trace_id=wide,
                             extra_codecs={'b3': B3Codec(generate_128bit_trace_id=wide)})
        self.cfg = dict(tname=cps(tname), prefix=cps(prefix), dname=cps(dname), bname=cps('jaeger-baggage'), wide=wide)
        self.ev = []

    def trace(self):
        return dict(cfg=self.cfg, ev=self.ev)

    # -- views ---------------------------------------------------------------
    def view(self, fmt, carrier):
        if fmt == 'binary':
            return list(bytes(carrier))
        if fmt == 'zipkin':
            get = carrier.get if isinstance(carrier, dict) else lambda k: getattr(carrier, k, None)
            fl = get('traceflags')
            return dict(tid=hexd(get('trace_id')), sid=hexd(get('span_id')), pid=hexd(get('parent_id')),
                        fl=999 if fl is None else fl)
        return [self.item(k, v) for k, v in carrier.items()]

    def item(self, k, v):
        if isinstance(v, str):
            return dict(k=cps(k), v=cps(v), t='s')
        if isinstance(v, list) and len(v) == 1 and isinstance(v[0], str):
            return dict(k=cps(k), v=cps(v[0]), t='l')
        return dict(k=cps(k), v=[], t='n' if v is None else 'x')

    def ctx(self, x):
        has = bool(x.has_trace)
        return dict(tid=hexd(x.trace_id), sid=hexd(x.span_id), pid=hexd(x.parent_id), fl=999 if x.flags is None else x.flags,
                    bag=[[cps(k), cps(v)] for k, v in x.baggage.items()], dbg=cps(x.debug_id or ''), has=has)

    # -- operations -----------------------------------------------------------
    def make(self, c):
        from jaeger_client import SpanContext
        # baggage that the application set as bytes is its text elsewhere
        enc = (lambda x: text(x).encode('utf-8')) if c.get('bytes') else text
        return SpanContext(trace_id=num(c['tid']), span_id=num(c['sid']), parent_id=num(c['pid']) or None, flags=c['fl'],
                           baggage={enc(k): enc(v) for k, v in c['bag']})

    def inject(self, fmt, c, carrier, as_span=False):
        before = self.view(fmt, carrier)
        x = self.make(c)
        if as_span:
            span = self.tracer.start_span('x', child_of=x)
            x = span
            c = dict(tid=hexd(span.trace_id), sid=hexd(span.span_id), pid=hexd(span.parent_id), fl=span.flags, bag=c['bag'])
        raised = ''
        try:
            self.tracer.inject(x, FMT[fmt], carrier)
        except Exception as e:
            raised = type(e).__name__
        after = before if raised else self.view(fmt, carrier)
        self.ev.append(dict(k='inject', fmt=fmt, ctx=dict(tid=c['tid'], sid=c['sid'], pid=c['pid'], fl=c['fl'], bag=c['bag']),
                            before=before, after=after, raised=raised))
        return carrier

    def extract(self, fmt, carrier):
        raised, res = '', []
        view = self.view(fmt, carrier)
        try:
            x = self.tracer.extract(FMT[fmt], carrier)
            if x is not None:
                res = [self.ctx(x)]
        except Exception as e:
            raised = type(e).__name__
        self.ev.append(dict(k='extract', fmt=fmt, carrier=view, raised=raised, res=res))
        return raised, res

    def wrong(self, what, fmt, carrier, arg=None):
        raised = ''
        try:
            if what == 'inject':
                self.tracer.inject(arg, fmt, carrier)
            else:
                self.tracer.extract(fmt, carrier)
        except Exception as e:
            raised = type(e).__name__
        self.ev.append(dict(k='wrong', what=what, raised=raised))


# -- random inputs -----------------------------------------------------------------
CHARS = 'abcxyz0189-._~/ %=,;:&+"\'\\éßñ世界😀\u0301\x00\x7f\n\t@#?'
KEYS = 'abcdefghijklmnopqrstuvwxyz0123456789-._é世'


def rnd_id(rng, wide=False):
    bits = rng.choice([1, 4, 8, 31, 32, 33, 53, 60, 61, 63, 64] + ([65, 68, 96, 100, 124, 127, 128] * 2 if wide else []))
    n = rng.getrandbits(bits) | (1 << (bits - 1))
    if rng.random() < 0.2:
        n = (1 << bits) - 1
    if rng.random() < 0.15:
        n = 1 << (bits - 1)
    if wide and rng.random() < 0.2:
        n = (rng.getrandbits(64) << 64) or 1 << 64           # low half zero
    return hexd(n)


def rnd_ctx(rng, bag=True):
    keys = set()
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 6]) if bag else 0):
        keys.add(''.join(rng.choice(KEYS) for _ in range(rng.choice([1, 1, 2, 5, 12]))))
    return dict(tid=rnd_id(rng, rng.random() < 0.6), sid=rnd_id(rng), pid=rnd_id(rng) if rng.random() < 0.6 else [],
                fl=rng.choice([0, 1, 1, 2, 3, 3, 5, 8, 128, 255]),
                bag=[[cps(k), cps(''.join(rng.choice(CHARS) for _ in range(rng.choice([0, 1, 3, 10, 40]))))] for k in sorted(keys)])

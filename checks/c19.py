"""C19 extraction of any carrier: a context with ids in range, nothing, or the documented rejection."""
from . import codec_common as cc
from harness.codec_driver import CodecDriver, rnd_ctx, Attrs, Obj

JUNK = ['', '0', '00', ':', '::', ':::', '::::', '1:1:1', '1:1:1:1:1', '1:1:1:', ':1:1:1', '1::1:1', '1:1::1', '0:1:0:1', '1:0:0:1',
        '1:1:0:0', '1:1:0:100', '1:1:0:ff', 'g:1:1:1', '-1:1:1:1', '1:-1:1:1', '1:1:-1:1', '1:1:1:-1', '+1:1:1:1', ' 1:1:1:1 ',
        '1_0:1:1:1', '0x1:1:1:1', 'é:1:1:1', '١:1:1:1', '%31:1:1:1', '1%3A1%3A0%3A1', '%', '%zz:1:1:1', '%ff%fe',
        'f' * 32 + ':1:1:1', '1' + '0' * 32 + ':1:1:1', '0' * 40 + '1:1:1:1', '1:' + 'f' * 16 + ':0:1', '1:1' + '0' * 16 + ':0:1',
        '1:1:1' + '0' * 16 + ':1', '1:1:1:1' + '0' * 8, 'F:A:b:1', '1:1:1:1\n', '\x00', '1,1,1,1', '1:1:0:1;2', 'A' * 3000]
NONSTR = [None, 5, [], ['1:2:0:1'], ['1:2:0:1', '3:4:0:1'], ['x'], [5], {}, True, 1.5]


def mutate(rng, s):
    s = list(s)
    for _ in range(rng.choice([1, 1, 2, 3])):
        i = rng.randrange(len(s) + 1)
        r = rng.random()
        if r < 0.35:
            s.insert(i, rng.choice('0123456789abcdefABCDEFg:: -+_x%\x00é'))
        elif r < 0.7 and s:
            del s[i % len(s)]
        elif s:
            s[i % len(s)] = rng.choice('0f:g- %1')
    return ''.join(s)


def run(c):
    cc.phase_a(c)
    traces = []
    for fmt in cc.FMTS:
        traces += cc.from_spec(c, fmt, c.pick(300, 3000))
    rng = c.rng
    for cfg in cc.CFGS[:c.pick(2, 5)]:
        d = CodecDriver(**cfg)
        t = cfg.get('tname', 'uber-trace-id').lower().replace('_', '-')
        p = cfg.get('prefix', 'uberctx-').lower().replace('_', '-')
        for fmt in ('text', 'http'):
            for v in JUNK:
                d.extract(fmt, {t: v})
                d.extract(fmt, {p + 'k': 'v', t: v, 'jaeger-debug-id': 'q'})
            for v in NONSTR:
                d.extract(fmt, {t: v})
            for _ in range(c.pick(250, 6000)):
                x = rnd_ctx(rng)
                s = '%s:%s:%s:%x' % tuple([''.join('%x' % q for q in x[f]) or '0' for f in ('tid', 'sid', 'pid')] + [x['fl']])
                d.extract(fmt, {t: mutate(rng, s)})
            for v in JUNK:                       # in the other headers
                d.extract(fmt, {p + 'k': v})
                d.extract(fmt, {'jaeger-baggage': v, 'jaeger-debug-id': v})
        for v in [j for j in JUNK if ':' not in j] + ['1', 'f' * 16, 'f' * 17, 'f' * 32, 'f' * 33, '-1', '0x1', '1g'] + NONSTR:
            for h in ('X-B3-TraceId', 'X-B3-SpanId', 'X-B3-ParentSpanId', 'X-B3-Sampled', 'X-B3-Flags'):
                carrier = {'X-B3-TraceId': 'a', 'X-B3-SpanId': 'b', 'X-B3-ParentSpanId': 'c', 'X-B3-Sampled': '1'}
                carrier[h] = v
                d.extract('b3', carrier)
                d.extract('b3', {h: v})
                del carrier[h]
                d.extract('b3', carrier)
        for _ in range(c.pick(400, 8000)):
            x = rnd_ctx(rng)
            b = bytearray()
            d.tracer.inject(d.make(x), cc.FMT['binary'], b)
            r = rng.random()
            if r < 0.4:
                b = b[:rng.randrange(len(b) + 1)]
            elif r < 0.6:
                b[33:37] = bytes(rng.choice([[0, 0, 0, 9], [255] * 4, [0, 0, 1, 0], [0] * 4]))
            elif r < 0.8 and len(b) > 45:
                for _ in range(rng.choice([1, 2, 4])):
                    b[rng.randrange(37, len(b))] = rng.choice([0, 1, 127, 128, 192, 195, 237, 244, 255])
            else:
                b = bytearray(rng.getrandbits(8) for _ in range(rng.choice([0, 1, 36, 37, 40, 41, 45, 60])))
            d.extract('binary', b)
        d.extract('zipkin', {})
        for z in ({'trace_id': 0}, {'trace_id': 5, 'span_id': 6, 'parent_id': None, 'traceflags': 1}, {'trace_id': 5}):
            d.extract('zipkin', z)
            if len(z) == 4:
                d.extract('zipkin', Attrs(z))
        whole = dict(trace_id=5, span_id=6, parent_id=7, traceflags=1)
        for k in whole:
            d.wrong('extract', 'zipkin-span-format', Attrs({q: v for q, v in whole.items() if q != k}))
        d.extract('zipkin', Attrs(whole))
        for fmt in (cc.Format.TEXT_MAP, cc.Format.HTTP_HEADERS, cc.Format.BINARY, 'b3'):
            for bad in (5, None, 'text', [1]):
                d.wrong('extract', fmt, bad)
                d.wrong('inject', fmt, bad, arg=d.make(rnd_ctx(rng)))
        d.wrong('extract', 'zipkin-span-format', Obj())
        for bad in (5, None, 'x', Obj()):
            d.wrong('inject', 'zipkin-span-format', bad, arg=d.make(rnd_ctx(rng)))
            d.wrong('inject', cc.Format.TEXT_MAP, {}, arg=bad)
            d.wrong('inject', 'nosuch', {}, arg=d.make(rnd_ctx(rng)))
            d.wrong('extract', 'nosuch', {})
        traces += cc.split(d)
    c.validate('CodecTrace', traces, clauses={'extract_raised', 'extract_accepts', 'extract_rejects', 'extract_invents',
                                              'extract_misses', 'extract_ids', 'wrong_type', 'type'})

"""C20 header names, letter case, ad-hoc baggage and debug headers of the text formats."""
from urllib.parse import quote

from . import codec_common as cc
from harness.codec_driver import CodecDriver, rnd_ctx, CHARS, KEYS


def case(rng, s):
    return ''.join(ch.upper() if ord(ch) < 128 and rng.random() < 0.5 else ch for ch in s)


def run(c):
    cc.phase_a(c, fmts=['text', 'http'], mutants=[('http', 'noquote')])
    rng = c.rng
    traces = []
    for cfg in cc.CFGS:
        d = CodecDriver(**cfg)
        t, p, g = (cfg.get(k, v).lower().replace('_', '-') for k, v in
                   (('tname', 'uber-trace-id'), ('prefix', 'uberctx-'), ('dname', 'jaeger-debug-id')))

        def val():
            s = ''.join(rng.choice(CHARS) for _ in range(rng.choice([0, 1, 3, 12])))
            return quote(s, safe=rng.choice(['', '/ ~'])) if rng.random() < 0.5 else s

        def key():
            k = ''.join(rng.choice(KEYS) for _ in range(rng.choice([0, 1, 3])))
            if rng.random() < 0.2:      # the names themselves, whole and in parts
                k = rng.choice(['', k]) + rng.choice([t, p, g, p[:-1], '-', 'jaeger-baggage']) + k
            return k
        for _ in range(c.pick(250, 6000)):
            items = []
            if rng.random() < 0.5:
                x = rnd_ctx(rng)
                items.append((case(rng, t), '%s:%s:%s:%x' % tuple(
                    [''.join('%x' % q for q in x[f]) or '0' for f in ('tid', 'sid', 'pid')] + [x['fl']])))
            for _ in range(rng.choice([0, 1, 2, 3])):
                items.append((case(rng, p + key()), val()))
            if rng.random() < 0.5:
                items.append((case(rng, g), rng.choice(['', 'id', 'a%20b', 'x%2Fy', val()])))
            if rng.random() < 0.5:
                items.append((rng.choice(['jaeger-baggage', 'Jaeger-Baggage', 'JAEGER-BAGGAGE']), rng.choice(
                    ['', 'k=v', 'k=v,l=w', ' k=v , L=w,', 'k==v', '=', 'k=', '=v', 'k', ',,', 'k=v,k=w', 'k = v', 'a=1,b', 'k=%41',
                     ','.join('%s=%s' % (key(), val()) for _ in range(3))])))
            if rng.random() < 0.3:
                items.append((rng.choice(['uber-trace', t + 'x', 'x' + t, p[:-1], 'jaeger-debug', 'baggage', t.replace('-', '_') + '_',
                                          '']), rng.choice(['1:1:0:1', 'x=y', ''])))
            rng.shuffle(items)
            carrier = dict(items)
            for fmt in ('text', 'http'):
                d.extract(fmt, carrier)
        for _ in range(c.pick(40, 400)):
            for fmt in ('text', 'http'):
                d.inject(fmt, rnd_ctx(rng), {'Other': 'x', 'uber-trace': 'y'})
        traces += cc.split(d)
    c.validate('CodecTrace', traces, clauses={'inject_keys', 'inject_baggage', 'inject_raised', 'extract_raised', 'extract_baggage',
                                              'extract_debug', 'extract_ids', 'extract_invents', 'extract_misses', 'extract_rejects',
                                              'type'})

"""C18 a context survives inject and extract in every format."""
from . import codec_common as cc
from harness.codec_driver import CodecDriver, rnd_ctx


def run(c):
    cc.phase_a(c, mutants=[('binary', 'low64'), ('http', 'noquote')])
    traces = []
    for fmt in cc.FMTS:
        traces += cc.from_spec(c, fmt, c.pick(300, 4000))
    rng = c.rng
    for cfg in cc.CFGS:
        d = CodecDriver(**cfg)
        for _ in range(c.pick(120, 2500)):
            x = dict(rnd_ctx(rng), bytes=rng.random() < 0.1)
            for fmt in cc.FMTS:
                carrier = bytearray() if fmt == 'binary' else {}
                if fmt in ('text', 'http', 'zipkin') and rng.random() < 0.3:
                    carrier = {'Other': 'v', 'accept': 'x'}
                d.inject(fmt, x, carrier, as_span=rng.random() < 0.3)
                if fmt == 'binary' and rng.random() < 0.2:
                    carrier += b'rest'
                d.extract(fmt, carrier)
                if fmt == 'b3' and rng.random() < 0.5:
                    d.extract(fmt, {k.lower() if rng.random() < 0.5 else k.upper(): v for k, v in carrier.items()})
        traces += cc.split(d)
    c.validate('CodecTrace', traces, clauses={'inject_raised', 'inject_keys', 'inject_ids', 'inject_baggage', 'inject_flags',
                                              'inject_width', 'extract_raised', 'extract_rejects', 'extract_misses',
                                              'extract_ids', 'extract_flags', 'extract_baggage', 'b3_debug', 'type'})

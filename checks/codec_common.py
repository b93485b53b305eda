"""Shared by the properties of the carriers."""
from harness.codec_driver import CodecDriver, cps, text, rnd_ctx, FMT  # noqa
from opentracing import Format

FMTS = ['text', 'http', 'binary', 'zipkin', 'b3']
CFGS = [dict(), dict(wide=True), dict(tname='Trace_ID', prefix='CTX_', dname='Debug_Id'),
        dict(tname='x', prefix='x-bag-', dname='y', wide=True), dict(tname='UBER-trace-ID', prefix='uberctx-', dname='JAEGER_debug_id')]


def phase_a(c, fmts=FMTS, mutants=()):
    for f in fmts:
        c.model('CodecDesign', dict(Fmt=f, Bug='', Emitting=False), invariants=['RoundTrip', 'Sound'], name='design ' + f)
    for f, bug in mutants:
        c.model('CodecDesign', dict(Fmt=f, Bug=bug, Emitting=False), invariants=['RoundTrip'], expect='RoundTrip',
                name='mutant %s %s' % (f, bug))


def wire_carrier(fmt, w):
    if fmt == 'binary':
        return bytearray(w)
    return {text(i['k']): text(i['v']) for i in w}


def from_spec(c, fmt, cap):
    """Contexts and carriers, whole and damaged, that TLC enumerates, through the real codec."""
    cmds = c.generate('CodecDesign', dict(Fmt=fmt, Bug='', Emitting=True), invariants=['Emit'], name='carriers ' + fmt,
                      simulate=cap * 2, depth=5)
    if len(cmds) > cap:
        cmds = c.rng.sample(cmds, cap)
    d = CodecDriver(tname='Tr_Id', prefix='C_', dname='d')
    for x in cmds:
        if x['dmg'] == 'no':
            carrier = d.inject(fmt, x['ctx'], bytearray() if fmt == 'binary' else {})
            d.extract(fmt, carrier)
        if fmt != 'zipkin':
            d.extract(fmt, wire_carrier(fmt, x['wire']))
    return split(d)


def split(d, n=40):
    """One trace per few events: the events are independent."""
    return [dict(cfg=d.cfg, ev=d.ev[i:i + n]) for i in range(0, len(d.ev), n)]

"""C05 faults: a failed send or an unencodable span costs only its own batch, and every datagram
is exactly one batch."""
from . import reporter_common as rc


def run(c):
    rc.phase_a(c)
    n = c.pick(900, 9000)
    traces = rc.random_traces(c, n, modes=('udp',), poison=True, length=(6, 20))
    traces += rc.random_traces(c, n // 3, modes=('udp', 'sync'), fates=['sock', 'exc', 'ok', 'sock', 'fut'],
                               poison=True, length=(4, 12))
    c.validate('ReporterTrace', traces)

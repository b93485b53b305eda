"""C02 the buffer: bounded, first in first out, batches of at most B spans, reporting never raises."""
from . import reporter_common as rc

CLAUSES = {'batch_size', 'order', 'overlap', 'overfull', 'drop_not_full', 'raises', 'gauge', 'type'}


def run(c):
    rc.phase_a(c)
    traces = rc.generated(c)
    traces += rc.random_traces(c, c.pick(500, 6000), poison=True)
    c.validate('ReporterTrace', traces, clauses=CLAUSES)
    th = [rc.threaded_trace(c, q, b, n, threads=t) for q, b, n, t in
          c.pick([(5, 3, 40, 3), (2, 2, 30, 2)], [(5, 3, 80, 3), (100, 10, 200, 4), (2, 2, 60, 2)] * 4)]
    c.validate('ReporterTrace', th, clauses=CLAUSES, name='application threads')

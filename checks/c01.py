"""C01 span accounting: every reported span is sent once or dropped, and counted once as such."""
from . import reporter_common as rc

CLAUSES = {'dup_or_alien', 'drop_count', 'count', 'count_kind', 'count_missing', 'spurious_err', 'lost', 'total',
           'bad_metric', 'type'}


def run(c):
    rc.phase_a(c)
    traces = rc.generated(c)
    traces += rc.random_traces(c, c.pick(500, 6000), poison=True)
    c.validate('ReporterTrace', traces, clauses=CLAUSES)
    th = [rc.threaded_trace(c, q, b, n, threads=t) for q, b, n, t in
          c.pick([(5, 3, 40, 3), (100, 10, 60, 4), (2, 2, 30, 2)],
                 [(5, 3, 80, 3), (100, 10, 200, 4), (2, 2, 60, 2), (10, 10, 200, 8), (4, 1, 50, 4)] * 4)]
    c.validate('ReporterTrace', th, clauses=CLAUSES, name='application threads')

"""C04 close: everything accepted before is sent, and the future completes."""
from . import reporter_common as rc

CLAUSES = {'close_lost', 'close_hang', 'close_early', 'close_exc', 'close_twice', 'close_raises',
           'accept_after_close', 'lost', 'type'}


def run(c):
    rc.phase_a(c)
    traces = rc.generated(c)
    traces += rc.random_traces(c, c.pick(700, 8000), poison=True, length=(3, 14))
    c.validate('ReporterTrace', traces, clauses=CLAUSES)
    th = [rc.threaded_trace(c, q, b, n, threads=t, close_threads=k) for q, b, n, t, k in
          c.pick([(5, 3, 40, 3, 1), (2, 2, 30, 2, 2)], [(5, 3, 80, 3, 1), (100, 10, 200, 4, 2), (2, 2, 60, 2, 3)] * 4)]
    c.validate('ReporterTrace', th, clauses=CLAUSES, name='application threads')

"""C03 timeliness: a full batch is sent at once, a partial one when the flush interval is over."""
from . import reporter_common as rc

CLAUSES = {'early_flush', 'late_flush', 'stuck_full', 'type'}


def run(c):
    rc.phase_a(c)
    traces = rc.generated(c)
    traces += rc.random_traces(c, c.pick(700, 8000), poison=False)
    c.validate('ReporterTrace', traces, clauses=CLAUSES)

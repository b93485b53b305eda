"""C16 the counters of the tracer are exact."""
from . import tracer_common as tc


def run(c):
    tc.run(c, {'met_' + k for k in ('ss', 'sn', 'ts', 'tn', 'js', 'jn', 'fin')},
           ['parents', 'debug'], ('start', 'finish', 'remote', 'tag'), invariants=['Counts', 'ReportedOnce'],
           mutants=[('refinish', 'tags', 'ReportedOnce')])

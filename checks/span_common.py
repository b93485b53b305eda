"""Concurrent operations on one span, for C08 and C09."""
from harness import span_sched
from harness.span_sched import op
from harness.core import Raw


def phase_a(c, mutants):
    procs = c.pick({1, 2, 3, 5}, {1, 2, 3, 4, 5})
    c.model('SpanConc', dict(Procs=procs, Bug=''), spec='Spec',
            invariants=['ReportedOnce', 'ReportedWithFinalEnd', 'NothingLost'], properties=['EndFixed', 'Terminates'],
            name='design of a shared span', must_take=['Acquire', 'Test', 'Set', 'Report', 'ReadBag', 'WriteBag'])
    for bug, x in mutants:
        c.model('SpanConc', dict(Procs={1, 2, 3, 4}, Bug=bug), spec='Spec', invariants=[x], expect=x,
                name='mutant ' + bug)


def explore(c, programs, per, clauses, name):
    traces = []
    for p in programs:
        for opc in (False, True):
            traces += span_sched.explore(p, per, c.rng, opc)
    for t in traces:
        t['info'] = repr(t['info'])
    c.extra[name] = len(traces)
    c.validate('SpanLin', traces, clauses=clauses | {'deadlock', 'exception', 'type'}, name=name)

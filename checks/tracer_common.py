"""Shared by the properties of the (sequential) tracer."""
from harness.tracer_driver import Driver, long_cmds, random_cmds

INV = ['ReportedOnce', 'FinishedHasEnd', 'Counts', 'AskedOnce', 'ParentInTrace', 'DistinctIds']
PROPS = ['BaggageIsolated', 'CtxImmutable', 'IdentityFixed', 'Inherits', 'UnsampledSilent', 'ThreadsApart']
BASE = dict(MaxSpans=2, MaxCtxs=1, Depth=3, One=False, Thr=False, Bug='')
SIZES = dict(parents=(2, 3, 3, 3), tags=(2, 4, 2, 5), scopes=(3, 4, 3, 5), baggage=(2, 5, 3, 6), debug=(2, 3, 2, 4))


def phase_a(c, focuses, invariants, properties, mutants):
    for f in focuses:
        ms, d, tms, td = SIZES[f]
        ms, d = c.pick((ms, d), (tms, td))
        for one, thr in ((False, f in ('tags', 'debug')), (True, False)):
            c.model('Tracer', dict(BASE, Focus=f, Depth=d, MaxSpans=ms, One=one, Thr=thr), invariants=invariants,
                    properties=properties, spec='Spec', view='View', name='design ' + f, timeout=800)
    for bug, f, x in mutants:
        c.model('Tracer', dict(BASE, Focus=f, Depth=4, Bug=bug, MaxSpans=3), spec='Spec', view='View', expect=x,
                invariants=[x] if x in INV else [], properties=[x] if x in PROPS else [], name='mutant ' + bug)


def generated(c, focuses, cap):
    res = []
    for f in focuses:
        for one, thr in ((False, True), (True, False)):
            g = c.generate('Tracer', dict(BASE, Focus=f, Depth=9, MaxSpans=5, MaxCtxs=3, One=one, Thr=thr),
                           simulate=c.pick(40, 400), depth=12, spec='Spec', name='commands ' + f)
            if len(g) > cap:
                g = c.rng.sample(g, cap)
            for i, cmds in enumerate(g):
                for e in cmds:
                    e['var'] = c.rng.randint(0, 7)
                res.append(Driver(threads=2, one=one, thr=thr, wide=bool(i & 1), rng=c.rng).run(cmds))
    return res


def random_traces(c, n, focus=(), length=(8, 30)):
    res = []
    rng = c.rng
    for _ in range(n):
        d = Driver(threads=2, one=rng.random() < 0.3, thr=rng.random() < 0.5, wide=rng.random() < 0.5, rng=rng)
        res.append(d.run(random_cmds(rng, rng.randint(*length), d.cfg, focus=focus)))
    return res


def run(c, clauses, focuses, focus, invariants=INV, properties=PROPS, mutants=()):
    phase_a(c, focuses, invariants, properties, mutants)
    traces = generated(c, focuses, c.pick(200, 2500))
    traces += random_traces(c, c.pick(350, 5000), focus=focus)
    for kind in ('tags', 'logs', 'bag', 'refs', 'nest'):
        for _ in range(c.pick(1, 6)):
            d = Driver(threads=2, one=c.rng.random() < 0.3, thr=c.rng.random() < 0.5, wide=c.rng.random() < 0.5, rng=c.rng)
            traces.append(d.run(long_cmds(c.rng, kind, c.pick(70, 200))))
    c.validate('TracerTrace', traces, clauses=clauses | {'raised', 'type', 'spans', 'ctxs'})

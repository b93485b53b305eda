"""C38 traces across services."""
from harness import hop_driver as d

INVS = ['Tree', 'Decided', 'Down', 'Caused']


def run(c):
    base = dict(Svcs={1, 2}, Len0=c.pick(6, 7), MaxSpans=3, MaxMsgs=1, Keys={'a'}, Rich=False, Bug='')
    c.model('HopDesign', base, spec='Spec', view='View', invariants=INVS, name='design')
    for bug, x in (('resample', 'Decided'), ('late', 'Down'), ('alias', 'Down'), ('hop', 'Caused')):
        c.model('HopDesign', dict(base, Bug=bug), spec='Spec', view='View', expect=x, invariants=[x], name='mutant ' + bug)
    rng, ts = c.rng, []
    for n, length, spans, msgs, runs in c.pick([(3, 14, 6, 4, 60), (4, 30, 14, 10, 30)], [(2, 10, 5, 3, 600), (3, 16, 8, 5, 600), (5, 40, 20, 14, 300)]):
        cmds = c.generate('HopDesign', dict(base, Svcs=set(range(1, n + 1)), Len0=length, MaxSpans=spans, MaxMsgs=msgs, Keys={'a', 'b'}, Rich=True),
                          simulate=runs, depth=2 * length + 1)
        for h in rng.sample(cmds, min(len(cmds), c.pick(350, 6000))):
            ts.append(d.Hop(n, rng.random() < 0.3, rng).run(h + d.again(h, n, rng)))
    c.validate('HopTrace', ts)

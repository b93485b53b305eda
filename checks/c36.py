"""C36 several tracers in one process."""
from harness import pair_driver as d


def run(c):
    base = dict(N=2, Len0=c.pick(8, 10), MaxSpans=2, MaxCars=1, Small=True, Bug='')
    c.model('PairDesign', base, spec='Spec', view='Hidden', invariants=['Own', 'Joined'], properties=['Apart'], name='design')
    for bug in ('scopes', 'counters', 'close'):
        c.model('PairDesign', dict(base, Bug=bug), spec='Spec', view='Hidden', expect='Apart', invariants=[], properties=['Apart'], name='mutant ' + bug)
    rng, ts = c.rng, []
    cmds = c.generate('PairDesign', dict(base, N=3, Len0=16, MaxSpans=6, MaxCars=4, Small=False), simulate=c.pick(100, 1500), depth=17)
    cmds = rng.sample(cmds, min(len(cmds), c.pick(900, 15000)))
    for h in cmds:
        ts.append(d.Pair(d.configs(rng, 3), rng.random() < 0.7).run(h, rng))
    c.validate('PairTrace', ts)

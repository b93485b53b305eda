"""C23 guaranteed lower bound and the adaptive sampler."""
from harness import samp_driver as sd
from checks.samp_common import cmds


def run(c):
    S = dict(MaxOps=1, Depth=c.pick(4, 5), OpNames={'a', 'b', 'c'})
    c.model('SampDesign', dict(S, Bug=''), invariants=['Bounded', 'Sound', 'LowerBound'], properties=['Remembers'], spec='Spec', view='View')
    c.model('SampDesign', dict(S, Bug='forget', Depth=4), properties=['Remembers'], expect='Remembers', spec='Spec', view='View', name='mutant forget')
    c.model('SampDesign', dict(S, Bug='unbounded', Depth=4), invariants=['Bounded'], expect='Bounded', spec='Spec', view='View', name='mutant unbounded')
    rng = c.rng
    traces = []
    for i in range(c.pick(150, 2000)):
        p, lb = rng.choice(sd.PROBS), rng.choice(sd.EXACT)
        traces.append(sd.SampDriver(dict(kind='guar', p=p, lb=lb), q=rng.choice([0, 1, 2, 3]), rng=rng).run(
            cmds(rng, 40, [p, 0.5], upd=lambda g: dict(p=g.choice([p, 0.5, 0.0, 1.0]), lb=g.choice([lb, 0.5, 2.0])))))
    for i in range(c.pick(60, 800)):    # bursts: the credit is spent by sampled asks exactly once each
        lb = rng.choice([3.0, 4.0, 8.0])
        burst = []
        for _ in range(30):
            burst.append(['ask', sd.hexd(rng.choice([1, 2**62 + 5, 2**64 - 1])), 'a'])
            if rng.random() < 0.1:
                burst.append(sd.random_tick(rng))
        traces.append(sd.SampDriver(dict(kind='guar', p=rng.choice([0.125, 0.25]), lb=lb), q=rng.choice([2, 3]), rng=rng).run(burst))
    for i in range(c.pick(250, 4000)):
        def upd(g):
            if g.random() < 0.25:
                return dict(ok=False, json=sd.bad_adapt(g))
            return sd.random_adapt(g)
        traces.append(sd.SampDriver(sd.random_adapt(rng), q=rng.choice([0, 1, 2, 3]), max_ops=rng.choice([0, 1, 2, 3, 10]), rng=rng).run(
            cmds(rng, 50, [0.5, 0.1], ops=('a', 'b', 'c', 'd', 'e', ''), upd=upd)))
    c.validate('SampTrace', traces)

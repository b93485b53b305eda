"""C24 strategies from the agent."""
from harness import samp_driver as sd
from checks.samp_common import cmds, translate

INITS = [dict(kind='prob', p=0.5), dict(kind='rate', r=0.5), dict(kind='const', yes=False), dict(kind='const', yes=True),
         dict(kind='prob', p=0.001), dict(kind='rate', r=2.0)]


def run(c):
    S = dict(MaxOps=1, Depth=c.pick(4, 5), OpNames={'a', 'b'})
    c.model('SampDesign', dict(S, Bug=''), invariants=['Bounded', 'Sound', 'LowerBound'], spec='Spec', view='View',
            properties=['InvalidKeeps', 'NoRefill', 'Remembers'])
    for bug, x in (('halfway', 'InvalidKeeps'), ('refill', 'NoRefill'), ('forget', 'Remembers')):
        c.model('SampDesign', dict(S, Bug=bug, Depth=4), properties=[x], expect=x, spec='Spec', view='View', name='mutant ' + bug)
    g = c.generate('SampDesign', dict(S, Bug='', Depth=12), spec='Spec', simulate=c.pick(150, 1500), depth=14)
    rng = c.rng
    traces = []
    for h in g:
        for init in INITS[:2]:
            traces.append(sd.SampDriver(init, remote=True, max_ops=1, rng=rng).run(translate(h)))
    for b in sd.INVALID:             # every invalid strategy against every kind of sampler
        for first in (None, dict(kind='prob', p=0.5), dict(kind='rate', r=2.0), sd.random_adapt(rng)):
            h = [['resp', first]] if first else []
            h += [['ask', [1], 'a'], ['resp', dict(kind='invalid', body=b)]] + cmds(rng, 8, [0.5], ops=('a', 'b', 'z'))
            traces.append(sd.SampDriver(INITS[0], remote=True, rng=rng).run(h))
    for i in range(c.pick(400, 5000)):
        traces.append(sd.SampDriver(rng.choice(INITS), q=rng.choice([0, 1, 2, 3]), remote=True, max_ops=rng.choice([1, 2, 3, 10]), rng=rng).run(
            cmds(rng, 40, [0.5, 0.1, 0.001], ops=('a', 'b', 'c', 'z', ''), resp=sd.random_resp)))
    for i in range(c.pick(60, 600)):     # what a new strategy leaves out has its default, whatever it was before
        lb, ops = rng.choice([(2.0, sd.DEFAULT_R), (sd.DEFAULT_R, 2.0)]), ('a', 'b', 'c', 'd', 'e')
        h = [['resp', dict(sd.random_adapt(rng, ops, [0.0, 1.0, sd.DEFAULT_P]), lb=x, d=rng.choice([0.0, 1.0, sd.DEFAULT_P]), omit=rng.choice(sd.OMIT))]
             for x in lb]
        for _ in range(20):
            h += [['ask', sd.random_tid(rng, sd.DEFAULT_P), rng.choice(ops)], ['tick', rng.choice([4, 1024, 2048])]]
        traces.append(sd.SampDriver(rng.choice(INITS), remote=True, max_ops=rng.choice([3, 10]), rng=rng).run(h))
    for r in ([dict(kind='prob', p=p) for p in sd.PROBS] + [dict(kind='rate', r=r) for r in (0, 1, 2, 10, 499)]
              + [dict(kind='invalid', what=w) for w in sd.BAD_THRIFT]):
        for junk in (False, True):
            traces.append(sd.SampDriver(INITS[0], q=4, rng=rng).run([['parse', dict(r, junk=junk)]] + cmds(rng, 12, [r.get('p', 0.5)])))
    c.validate('SampTrace', traces)
    ts = []
    lo, hi = [1], [9] + [0] * 15
    A = dict(kind='adapt', lb=0.5, d=0.5, ops=[('a', 0.0), ('b', 1.0)])
    A2 = dict(kind='adapt', lb=2.0, d=1.0, ops=[('a', 1.0), ('b', 0.0), ('c', 0.5)])
    bad = dict(kind='invalid', body='{"operationSampling": {"perOperationStrategies": [{"operation": "a", "probabilisticSampling": '
               '{"samplingRate": 1.0}}, {"operation": "b", "probabilisticSampling": {"samplingRate": 3}}]}}')
    asks = [('ask', hi, 'a'), ('ask', hi, 'b')]
    for init, progs in ((A, (asks, [('resp', A2)])), (A, (asks, asks, [('resp', A2)])), (A, (asks, [('resp', bad)])),
                        (dict(kind='rate', r=2.0), ([('ask', lo, 'a')] * 2, [('resp', dict(kind='rate', r=0.5))], [('ask', lo, 'b')])),
                        (dict(kind='prob', p=0.0), ([('ask', lo, 'a')] * 2, [('resp', A)])),
                        (A, ([('ask', hi, 'x')], [('ask', hi, 'y')], [('ask', hi, 'x')]))):
        for opc in (False, True):
            ts += sd.explore(init, progs, c.pick(30, 600), rng, opc, True, q=3)
    c.validate('SampLin', ts, name='threads on a remote sampler')

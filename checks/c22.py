"""C22 rate limiting."""
from harness import samp_driver as sd
from checks.samp_common import cmds


def run(c):
    B = dict(Cost=2, Rate=1, Cap=4, Horizon=c.pick(6, 8), Steps={1, 5})
    c.model('RateDesign', dict(B, Bug=''), invariants=['Window', 'Fed', 'Range0'], constraint='Small')
    for bug, x in (('nocap', 'Window'), ('nolock', 'Window'), ('negative', 'Fed'), ('penalty', 'Fed')):
        c.model('RateDesign', dict(B, Bug=bug, Horizon=6), invariants=[x], expect=x, constraint='Small', name='mutant ' + bug)
    rng = c.rng
    traces = []
    for i in range(c.pick(400, 6000)):
        rates = sd.EXACT if rng.random() < 0.75 else sd.EXACT + sd.LOOSE
        upd = (lambda g: dict(r=g.choice(rates))) if rng.random() < 0.6 else None
        h = cmds(rng, 40, [], upd=upd)
        for _ in range(rng.choice([0, 3])):
            h.insert(rng.randrange(len(h)), ['eq', rng.choice([dict(kind='rate', r=rng.choice(rates[:3])), dict(kind='prob', p=0.5)])])
        traces.append(sd.SampDriver(dict(kind='rate', r=rng.choice(rates)), q=rng.choice([0, 1, 2, 3]), remote=False, rng=rng).run(h))
    for i in range(c.pick(60, 600)):      # the same behind a remote sampler
        traces.append(sd.SampDriver(dict(kind='rate', r=rng.choice(sd.EXACT)), q=rng.choice([0, 1, 2, 3]), remote=True, rng=rng).run(
            cmds(rng, 40, [], resp=lambda g: dict(kind='rate', r=g.choice([0.0, 0.5, 2.0, 4.0])))))
    c.validate('SampTrace', traces)
    ts = []
    a = ('ask', [1], 'x')
    for r, q, progs in ((2.0, 2, ([a], [a])), (2.0, 3, ([a, a], [a, a])), (4.0, 3, ([a, a], [a], [a, a])),
                        (16.0, 1, ([a, a], [a, a], [a, a])), (0.5, 3, ([a], [a]))):
        for opc in (False, True):
            ts += sd.explore(dict(kind='rate', r=r), progs, c.pick(120, 1200), rng, opc, False, q=q)
    c.validate('SampLin', ts, name='threads on one rate limiter')

"""C21 the probabilistic (and constant) decision."""
from harness import samp_driver as sd
from checks.samp_common import cmds


def run(c):
    inv = ['Share', 'Monotone', 'LowBits', 'Extremes']
    c.model('ProbDesign', dict(Bug=''), invariants=inv)
    for bug, x in (('le', 'Share'), ('high', 'LowBits')):
        c.model('ProbDesign', dict(Bug=bug), invariants=[x], expect=x, name='mutant ' + bug)
    rng = c.rng
    traces = []
    for p in sd.PROBS + [rng.random() for _ in range(c.pick(20, 300))] + [rng.random() * 2.0 ** -rng.randint(1, 70) for _ in range(c.pick(20, 300))]:
        for remote in (False, True):
            traces.append(sd.SampDriver(dict(kind='prob', p=p), remote=remote, rng=rng).run(cmds(rng, 40, [p, p, 0.5], ('', 'a', 'op'))))
    for yes in (True, False):
        traces.append(sd.SampDriver(dict(kind='const', yes=yes), rng=rng).run(cmds(rng, 30, [0.5])))
    # rates outside of [0, 1] are refused
    from jaeger_client import ProbabilisticSampler
    ev = []
    for p in [-1e-300, -0.5, -1, 1.0000000000000002, 2, float('inf'), float('nan'), float('-inf'), 0.0, 1.0, 0, 1, 0.3]:
        try:
            ProbabilisticSampler(p)
            ok = True
        except Exception:
            ok = False
        ev.append(dict(k='ctor', valid=0 <= p <= 1, accepted=ok))
    t = sd.SampDriver(dict(kind='const', yes=True)).run([])
    t['ev'] = ev
    traces.append(t)
    c.validate('SampTrace', traces)

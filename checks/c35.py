"""C35 closing a tracer."""
from harness import life_driver as d

USES = {'span', 'debug', 'wait1', 'wait8', 'close', 'rush', 'giveup'}
KINDS = [('config', True, True), ('config', False, True), ('config', True, False), ('config', False, False),
         ('parts', True, True), ('composite', True, True), ('parts', False, True), ('composite', False, False)]


def run(c):
    base = dict(Spans=c.pick(2, 3), Polls=2, Closes=2, Bug='')
    c.model('Life', base, spec='Spec', invariants=['Silent', 'DoneMeansSent'], properties=['Completes'], name='design')
    for bug, x in (('throttler', 'Silent'), ('early', 'DoneMeansSent'), ('once', 'Completes')):
        c.model('Life', dict(base, Bug=bug), spec='Spec', expect=x, invariants=[x] if x != 'Completes' else [],
                properties=[x] if x == 'Completes' else [], name='mutant ' + bug)
    rng, ts = c.rng, []
    cmds = c.generate('LifeGen', dict(Uses=USES, Len0=c.pick(4, 5), MaxCloses=2))
    if not c.thorough:
        cmds = rng.sample(cmds, min(len(cmds), 180))
    cmds += c.generate('LifeGen', dict(Uses=USES | {'wait3', 'wait40'}, Len0=12, MaxCloses=3), simulate=c.pick(120, 1500), depth=13)
    for i, h in enumerate(cmds):
        kind = KINDS[i % len(KINDS)]
        ts.append(d.Life(*kind, answers=rng.choice(['good', 'good', 'bad', 'fail', 'none'])).run(h, rng))
    for kind in KINDS:
        # (a composite reporter needs a running event loop for this, see C07)
        for caller in ('asyncio', 'hasty', 'own', 'leaving') + (('plain', 'threads', 'starting') if kind[0] != 'composite' else ()):
            for spans, closes in c.pick([(4, 1), (0, 2)], [(0, 1), (1, 1), (4, 2), (90, 3)]):
                ts.append(d.Life(*kind, answers='none').run_real(spans, caller, closes))
    c.validate('LifeTrace', ts)

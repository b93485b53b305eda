"""C37 exceptions that leave blocks of spans."""
from harness import exc_driver as d


def run(c):
    base = dict(Len0=c.pick(6, 8), MaxSpans=2, MaxBlocks=3, Excs={1}, Bug='')
    inv = ['Once', 'OnlySampled', 'Told', 'Restored', 'Unwinds']
    c.model('ExcDesign', base, spec='Spec', view='Hidden', invariants=inv, name='design')
    for bug, x in (('finishfirst', 'Told'), ('swallow', 'Told'), ('two', 'Unwinds')):
        c.model('ExcDesign', dict(base, Bug=bug), spec='Spec', view='Hidden', invariants=[x], expect=x, name='mutant ' + bug)
    rng, ts = c.rng, []
    cmds = c.generate('ExcDesign', dict(base, Len0=14, MaxSpans=5, MaxBlocks=5, Excs={1, 2, 3}), simulate=c.pick(150, 1500), depth=40)
    cmds = rng.sample(cmds, min(len(cmds), c.pick(600, 12000)))
    cmds += rng.sample(c.generate('ExcDesign', dict(base, Len0=4), name='short'), c.pick(250, 1500))
    for h in cmds:
        ts.append(d.Blocks([rng.randrange(len(d.MAKE)) for _ in range(3)], rng.choice([None, 10, 70]), rng.choice([None, 30, 200]), rng).run(h))
    for h in [h for h in cmds if any(e['k'] not in ('enter', 'leave', 'finish') for e in h)][:c.pick(40, 200)]:
        # tracebacks that exceed the default limit
        ts.append(d.Blocks([rng.randrange(len(d.MAKE)) for _ in range(3)], None, None, rng, depth=90).run(h))
    c.validate('ExcTrace', ts)

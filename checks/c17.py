"""C17 ids."""
from harness import ids_driver as d


def run(c):
    S = dict(TraceBits=3, SpanBits=2, MaxSpans=3)
    c.model('IdsDesign', dict(S, Bug=''), invariants=['NonZero', 'Width', 'Fresh', 'NotDerived'], view='View')
    for bug, x in (('zero', 'NonZero'), ('wide', 'Width'), ('same', 'NotDerived')):
        c.model('IdsDesign', dict(S, Bug=bug), invariants=[x], expect=x, view='View', name='mutant ' + bug)
    g = c.generate('IdsDesign', dict(S, Bug='', MaxSpans=4, SpanBits=3, TraceBits=4), simulate=c.pick(200, 1000), depth=40)
    rng = c.rng
    traces = []
    for h in g:
        for wide in (False, True):
            traces.append(d.run(wide, h))
            n = rng.randint(1, 10)
            traces.append(d.run(wide, h, script=[rng.choice([0, 0, 1, 1 << 63, 1 << 64, (1 << 128) - 1, (1 << 127), 1 << 65, 255])
                                                 for _ in range(n)]))
    for wide in (False, True):
        for i in range(c.pick(6, 60)):      # several tracers, created shortly after another or in different processes
            n = c.pick(300, 1000)
            cmds = [['root']] + [['root'] if rng.random() < 0.6 else ['child', rng.randrange(1, n)] for _ in range(n)]
            traces.append(d.run(wide, cmds, now=1.6e9 + rng.random() * 1e6, pid=rng.randrange(1, 4000000), tracers=rng.choice([1, 2, 4, 8])))
    c.validate('IdsTrace', traces)

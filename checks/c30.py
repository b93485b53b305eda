"""C30 metrics factories."""
from harness import misc_driver as d


def run(c):
    inv = ['NeverRaises', 'Exact']
    c.model('MetrDesign', dict(Threads={1, 2, 3}, Bug=''), invariants=inv)
    for bug, x in (('nolock', 'NeverRaises'), ('order', 'NeverRaises'), ('name', 'Exact')):
        c.model('MetrDesign', dict(Threads={1, 2}, Bug=bug), invariants=[x], expect=x, name='mutant ' + bug)
    rng = c.rng
    ts = [d.metr_random(rng, kind) for kind in ('legacy', 'prometheus', 'none', 'legacy', 'prometheus') for _ in range(c.pick(150, 3000))]
    c.validate('MetrTrace', ts)
    ts = []
    ab, ba = dict(a='1', b='2'), dict(b='2', a='1')
    for specs in (([('x', ab)], [('x', ab)]), ([('x', ab)], [('x', ba)]), ([('x', ab), ('y', {})], [('y', {}), ('x', dict(a='1', b='3'))]),
                  ([('x', dict(ac='1'))], [('xa', dict(c='1'))], [('x', dict(ac='1'))])):
        for opc in (False, True):
            ts += d.metr_explore(specs, c.pick(80, 1000), rng, opc, label=rng.choice(['', 'svc']))
    c.validate('MetrTrace', ts, name='threads on one factory')

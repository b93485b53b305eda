"""C09 concurrent updates of one span: nothing is lost, mixed up or torn."""
from . import span_common as sc
from .span_common import op


def run(c):
    sc.phase_a(c, [('nobaglock', 'NothingLost')])
    tag = lambda k, v: op('tag', k=k, v=v)          # noqa
    bag = lambda k, v: op('bag', k=k, v=v)          # noqa
    log = lambda v: op('log', f=[['event', v], ['n', 'l:7']])  # noqa
    progs = [
        [[bag('a', '1')], [bag('b', '2')]],
        [[bag('a', '1'), op('getbag', k='b')], [bag('b', '2'), op('getbag', k='a')]],
        [[bag('a', '1')], [bag('a', '2'), op('getbag', k='a')], [op('child')]],
        [[tag('x', 'l:1'), tag('y', 's:v')], [tag('z', 'b:true')], [log('s:e')]],
        [[log('s:p'), log('s:q')], [log('s:r')], [op('setop', v='n')]],
        [[op('encode')], [tag('x', 'l:1'), log('s:e')]],
        [[op('encode'), op('encode')], [tag('x', 's:1'), tag('y', 's:2'), log('s:e'), op('setop', v='m')]],
        [[op('child'), op('child')], [bag('a', '1'), bag('b', '2')]],
        [[op('setop', v='m'), tag('x', 's:1')], [op('setop', v='n'), op('finish', ft=[4])], [bag('a', 'z')]],
        [[bag('a', '1'), bag('b', '3')], [bag('c', '2'), bag('a', '4')], [op('getbag', k='a'), op('getbag', k='b')]],
    ]
    if c.thorough:
        for _ in range(30):
            pool = [tag('x', 'l:1'), tag('y', 's:v'), bag('a', '1'), bag('b', '2'), bag('a', '3'), log('s:e'), log('s:f'),
                    op('setop', v='n'), op('setop', v='m'), op('getbag', k='a'), op('child'), op('encode')]
            progs.append([[dict(o) for o in c.rng.sample(pool, c.rng.randint(1, 3))] for _ in range(c.rng.choice([2, 3]))])
    sc.explore(c, progs, c.pick(80, 800),
               {'lost_tags', 'lost_logs', 'lost_baggage', 'lost_op', 'result_getbag', 'result_encode', 'result_child'},
               'concurrent updates')

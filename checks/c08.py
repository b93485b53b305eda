"""C08 a sampled span is reported exactly once, by the first finish, with that end time."""
from . import tracer_common as tc
from . import span_common as sc
from .span_common import op


def run(c):
    tc.run(c, {'own_fin', 'own_en', 'other_fin', 'other_en', 'reported', 'met_fin', 'new_fin', 'new_en'},
           ['scopes'], ('finish', 'finish', 'close'), properties=['IdentityFixed', 'UnsampledSilent'],
           mutants=[('refinish', 'scopes', 'ReportedOnce')])
    sc.phase_a(c, [('nofinishlock', 'ReportedOnce')])
    f = [op('finish', ft=[i]) for i in range(9)]
    t = op('tag', k='a', v='l:1')
    progs = [[[f[3]], [f[5]]], [[f[3]], [f[5]], [f[7]]], [[t, f[3]], [f[5], f[6]]],
             [[f[3]], [op('bag', k='b', v='x'), f[4]]], [[op('log', f=[['event', 's:x']]), f[3]], [f[5]], [f[7], f[8]]],
             [[op('setop', v='q'), f[2]], [op('encode'), f[6]]]]
    sc.explore(c, progs, c.pick(120, 2000),
               {'report_alien', 'report_twice', 'report_end', 'report_missing', 'end_time', 'finished', 'reports'},
               'concurrent finish')

"""C10 what a span records: everything while sampled, nothing otherwise; sampling.priority."""
from . import tracer_common as tc


def run(c):
    tc.run(c, {'own_fl', 'own_tags', 'own_logs', 'own_op', 'new_op', 'new_st', 'own_st', 'other_tags', 'other_logs',
               'other_fl', 'other_op', 'other_st', 'new_logs', 'throttler_calls', 'throttler_op', 'new_tags', 'new_fl',
               'result'},
           ['tags'], ('tag', 'log', 'error', 'setop', 'isrpc'), properties=['UnsampledSilent', 'IdentityFixed'],
           mutants=[('priority', 'tags', 'UnsampledSilent')])

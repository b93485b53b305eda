"""C14 debug ids: a carrier with only a debug id starts a debug trace, if the throttler allows it."""
from . import tracer_common as tc


def run(c):
    tc.run(c, {'new_fl', 'new_tags', 'new_bag', 'sampler_calls', 'throttler_calls', 'throttler_op', 'ctx_dbg', 'ctx_tr', 'own_fl',
               'own_tags'},
           ['debug'], ('mkctx', 'start', 'tag'), invariants=['AskedOnce'], properties=['Inherits', 'CtxImmutable'],
           mutants=[('resample', 'debug', 'AskedOnce')])

"""C11 baggage: inherited by copy, isolated, carried by contexts, logged on the span."""
from . import tracer_common as tc


def run(c):
    tc.run(c, {'own_bag', 'other_bag', 'new_bag', 'ctx_bag', 'result', 'own_logs'},
           ['baggage', 'parents'], ('bag', 'capture', 'carry', 'start', 'getbag'),
           properties=['BaggageIsolated', 'CtxImmutable'], mutants=[('sharebag', 'baggage', 'BaggageIsolated')])

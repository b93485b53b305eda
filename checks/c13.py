"""C13 sampling is decided once per trace, at its root, and inherited."""
from . import tracer_common as tc


def run(c):
    tc.run(c, {'new_fl', 'new_tags', 'sampler_calls', 'other_fl', 'ctx_fl', 'own_fl'},
           ['parents', 'tags'], ('start', 'remote', 'carry'), invariants=['AskedOnce'],
           properties=['Inherits', 'IdentityFixed'], mutants=[('resample', 'parents', 'AskedOnce')])

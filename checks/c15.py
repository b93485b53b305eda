"""C15 the active span is per thread, nests, and becomes the default parent."""
from . import tracer_common as tc


def run(c):
    tc.run(c, {'active', 'own_fin', 'other_fin', 'own_en', 'other_en', 'reported', 'new_pid', 'new_tid'},
           ['scopes'], ('activate', 'close', 'start'), properties=['ThreadsApart'],
           mutants=[('crossthread', 'scopes', 'ThreadsApart')])

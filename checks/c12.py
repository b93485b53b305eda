"""C12 identity: trace, span and parent ids of new spans follow from their parent; references are kept."""
from . import tracer_common as tc


def run(c):
    tc.run(c, {'new_tid', 'new_sid', 'new_pid', 'new_refs', 'bad_id', 'own_tid', 'own_sid', 'own_pid', 'own_refs',
               'other_tid', 'other_sid', 'other_pid', 'other_refs', 'ctx_tid', 'ctx_sid', 'ctx_pid', 'ctx_tr'},
           ['parents', 'scopes'], ('start', 'remote', 'mkctx', 'capture', 'carry', 'activate'),
           invariants=['ParentInTrace', 'DistinctIds'], properties=['IdentityFixed'],
           mutants=[('newid', 'parents', 'ParentInTrace')])

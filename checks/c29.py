"""C29 the global tracer is initialized once."""
from harness import misc_driver as d


def run(c):
    inv = ['Once', 'Installed', 'Told']
    c.model('InitDesign', dict(Threads={1, 2, 3}, Bug=''), invariants=inv)
    for bug, x in (('nolock', 'Once'), ('late', 'Once'), ('install', 'Once')):
        c.model('InitDesign', dict(Threads={1, 2}, Bug=bug), invariants=[x], expect=x, name='mutant ' + bug)
    ts = []
    for progs in ((['init', 'ask'],), (['ask', 'init', 'init', 'ask'],), (['init'], ['init']), (['init', 'ask'], ['ask', 'init']),
                  (['ask', 'ask', 'init'], ['init', 'ask']), (['init'], ['init'], ['ask', 'ask']), (['init'], ['init'], ['init'])):
        for opc in (False, True):
            ts += d.init_explore(progs, c.pick(60, 800), c.rng, opc)
    c.validate('InitTrace', ts)

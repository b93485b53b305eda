"""C06 what the agent receives is what the application recorded."""
from harness.wire_driver import WireDriver, random_span, spec_span, VALUES, TB

TAGSETS = [None, {}, {'a': 1, 'b': 'é' * 2000, 'c': True, 'd': 1.25, 'ip': '1.2.3.4', 'hostname': 'h', 'big': 2 ** 64},
           {'ip': '9.9.9.9'}, {'hostname': 'q', 'tb': TB, 'none': None, 'neg': -2 ** 63}]


def run(c):
    c.model('WireDesign', dict(Bug=''), invariants=['OnWire', 'SameId'])
    for bug, x in (('nosign', 'OnWire'), ('nohigh', 'SameId'), ('long', 'OnWire')):
        c.model('WireDesign', dict(Bug=bug), invariants=[x], expect=x, name='mutant ' + bug)
    cmds = c.generate('WireDesign', dict(Bug=''), invariants=['Emit'])
    rng = c.rng
    traces = []
    if not c.thorough:
        cmds = rng.sample(cmds, min(len(cmds), 160))
    for at in range(0, len(cmds), 20):
        d = WireDriver(rng, wide=True, batch=5)
        traces.append(d.run([[spec_span(x) for x in cmds[at:at + 20]]]))
    small = [v for v in VALUES if not (isinstance(v, str) and len(v) > 60)]
    for i in range(c.pick(60, 600)):
        d = WireDriver(rng, maxlen=rng.choice([1024, 1024, 1, 5, 10, 2000]), maxtb=rng.choice([4096, 20, 100]),
                       tags=TAGSETS[i % len(TAGSETS)], wide=rng.random() < 0.5, throttler=rng.random() < 0.3,
                       service=rng.choice(['svc', 'é service', 'x' * 300]), batch=rng.choice([1, 2, 5]))
        groups = [[random_span(VALUES if rng.random() < 0.2 else small) for _ in range(rng.choice([1, 2, 3, 6]))] for _ in range(3)]
        traces.append(d.run(groups))
    # spans with very many tags, logs and references; very many spans
    tiny = [v for v in small if not (isinstance(v, str) and len(v) > 9)]
    for _ in range(c.pick(1, 8)):
        traces.append(WireDriver(rng, wide=True, batch=1).run([[random_span(tiny, big=c.pick(150, 250))], [random_span(tiny, big=c.pick(100, 250))]]))
        traces.append(WireDriver(rng, batch=95).run([[random_span([1, 'x']) for _ in range(95)]]))
    c.validate('WireTrace', traces, chunk=100)

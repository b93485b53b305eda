"""C07 local and composite reporters."""
from harness.core import Raw
from harness.fan_driver import FanDriver, mem_traces

SHAPES = [['mem', 'log', 'stub'], ['stub', 'stub', 'stub'], ['null', ['stub', 'log'], 'mem'], ['log', 'log'], ['mem'], [],
          [['stub'], ['stub', ['mem', 'stub']]], ['null', 'mem'], ['stub'], ['log', 'mem', 'null', 'stub', 'stub']]


def run(c):
    for n in (1, 2, 3):
        c.model('Fan', dict(Leaves=set(range(1, n + 1)), Spans={1, 2}, Bug=''), spec='Spec', invariants=['SameCalls', 'DoneMeansAll'],
                properties=['Completes'], view='View', name='design, %d leaves' % n)
    for bug, x in (('skip', 'SameCalls'), ('first', 'DoneMeansAll'), ('nolock', 'Completes')):
        c.model('Fan', dict(Leaves={1, 2, 3}, Spans={1}, Bug=bug), spec='Spec', expect=x, view='View',
                invariants=[x] if x != 'Completes' else [], properties=[x] if x == 'Completes' else [], name='mutant ' + bug)
    cmds = c.generate('Fan', dict(Leaves={1, 2, 3}, Spans={1, 2, 3}, Bug=''), spec='Spec', simulate=c.pick(150, 1500), depth=30)
    rng = c.rng
    traces = []
    for h in cmds:
        for mode in ('loop', rng.choice(['main', 'thread'])):
            traces.append(FanDriver(['stub', ['stub', 'mem'], 'stub', 'log'], mode).run(
                [x if x[0] != 'complete' else ['complete', {1: 1, 2: 2, 3: 4}[x[1]], 1] for x in h]))
    for i in range(c.pick(250, 3000)):
        shape = SHAPES[i % len(SHAPES)]
        flat = str(shape).replace('[', '').replace(']', '').replace("'", '').replace(' ', '').split(',')
        stubs = [j + 1 for j, k in enumerate(flat) if k == 'stub']
        h, n, closes, mode = [], 0, 0, rng.choice(['loop', 'loop', 'main', 'thread'])
        for _ in range(rng.randint(3, 16)):
            o = rng.choice(['report', 'report', 'process', 'close', 'complete', 'complete', 'giveup'])
            if o == 'complete':
                if not (stubs and closes):
                    continue
                h.append([o, rng.choice(stubs), rng.randint(1, closes), rng.choice([0, 0, 0, 1, 2])])
            elif o == 'giveup':
                if closes and mode == 'loop':
                    h.append([o, rng.randint(1, closes)])
            elif o == 'close':
                closes += 1
                h.append([o, 0])
            else:
                n += 1
                h.append([o, n])
        if h:
            traces.append(FanDriver(shape, mode).run(h))
    for n in c.pick([150, 2500], [150, 2500, 20000]):
        traces.append(FanDriver(['mem', ['stub']], 'loop').run([['report', 1], ['bulk', n], ['report', 2]]))
    c.validate('FanTrace', traces)
    progs = [(['report', 'report'], ['report', 'get']), (['report', 'get', 'report'], ['get', 'report', 'get']),
             (['report'], ['report'], ['get', 'get'])]
    ts = []
    for p in progs:
        for opc in (False, True):
            ts += mem_traces(rng, p, c.pick(150, 1500), opc)
    c.validate('MemLin', ts, name='threads on the in-memory reporter')

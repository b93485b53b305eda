"""C31 errors are logged once per interval."""
from harness import misc_driver as d


def run(c):
    inv = ['AtMostOnce', 'Late', 'Heard']
    S = dict(Threads={1, 2}, I=2, MaxT=7, MaxErrors=5)
    c.model('ErrDesign', dict(S, Bug=''), invariants=inv, view='View' if False else None)
    for bug, x in (('nolock', 'AtMostOnce'), ('push', 'Heard')):
        c.model('ErrDesign', dict(S, Bug=bug), invariants=[x], expect=x, name='mutant ' + bug)
    rng = c.rng
    ts = []
    for h in c.generate('ErrDesign', dict(S, Bug='', Threads={1}, MaxT=14, MaxErrors=6), simulate=c.pick(300, 3000), depth=40):
        ts += d.err_run(rng.choice([15, 1, 0.5, 60]), 2, [(t, 1) for t in h])
    for i in range(c.pick(300, 5000)):
        t, rounds = 0, []
        for _ in range(12):
            t += rng.choice([0, 1, 3, 4, 5, 8, 9])
            rounds.append((t, rng.randint(1, 3)))
        ts += d.err_run(rng.choice([None, 15, 1, 0.5, 60]), 4, rounds, logger=rng.random() < 0.9)
    for minutes, units in ((None, 900), (15, 900), (1, 60), (2, 8), (None, 3600)):
        for a in (-1, 0, 1):
            for b in (-1, 0, 1, 2):
                t1, t2 = units + a, 2 * units + a + b
                ts += d.err_run(minutes, units, [(1, 1), (t1, 2), (t1 + 1, 1), (t2, 1), (t2 + 1, 2), (t2 + units, 1), (t2 + units + 2, 1)])
    for rounds in ([(5, 1)], [(5, 2)], [(4, 1), (9, 1)], [(2, 1)], [(5, 1), (6, 1)], [(5, 1), (10, 2)]):
        for threads in (2, 3):
            for opc in (False, True):
                ts += d.err_run(15, 4, rounds, rng=rng, threads=threads, opcodes=opc, budget=c.pick(40, 400))
    c.validate('ErrTrace', ts)

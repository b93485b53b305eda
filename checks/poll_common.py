"""Shared by C25 and C27: the polling lifecycle."""
from harness import poll_driver as pd


def random_cmds(rng, kind, I, n):
    ticks = int(I * pd.TICKS)
    res = []
    if kind == 'throttler' and rng.random() < 0.7:
        res.append(['client', rng.randrange(1, 1000)])
    for _ in range(n):
        r = rng.random()
        if r < 0.45:
            res.append(['adv', rng.choice([0, 1, ticks // 4, ticks // 2, ticks, ticks - 1, ticks + 1, 2 * ticks, 3 * ticks, rng.randrange(4 * ticks)])])
        elif r < 0.65:
            res.append(['ask', rng.choice('abc')])
        elif r < 0.9:
            res.append(['answer', rng.randrange(8), rng.choice(sorted(pd.SAMP_ANSWERS if kind == 'sampler' else pd.THROT_ANSWERS))])
        elif r < 0.93:
            res.append(['client', rng.randrange(1, 1000)])
        elif r < 0.96:
            res += [['close'], ['adv', rng.choice([0, 1, ticks, 3 * ticks])], ['close'], ['adv', 3 * ticks]]
            break
    return res


def run(c, kind):
    throt = kind == 'throttler'
    S = dict(I=2, Horizon=c.pick(6, 8), NeedsOps=throt, Ops={'a', 'b'} if throt else {'a'})
    inv = ['FirstInTime', 'Spacing', 'NotAfterClose', 'NeverEmpty'] + (['AskedInTime'] if throt else ['Current'])
    c.model('Poll', dict(S, Bug=''), invariants=inv, view='View', constraint=None)
    for bug, x in (('norecheck', 'NotAfterClose'), ('nocheck', 'NotAfterClose')) + (
            (('empty', 'NeverEmpty'), ('late', 'AskedInTime')) if throt else (('late', 'FirstInTime'), ('noimmediate', 'FirstInTime'))):
        c.model('Poll', dict(S, Horizon=6, Bug=bug), invariants=[x], expect=x, view='View', name='mutant ' + bug)
    g = c.generate('Poll', dict(S, Horizon=14, Bug=''), simulate=c.pick(1500, 8000), depth=40)
    rng = c.rng
    traces = []
    for h in g:
        I = rng.choice([1.0, 4.0, 60.0])
        unit = int(I * pd.TICKS) // 2
        cmds = [['adv', unit] if x[0] == 'adv' else x for x in h]
        traces.append(pd.PollDriver(kind, I, q=rng.choice([0.0, 0.25, 0.5, 0.75, 1023 / 1024.])).run(cmds))
    for i in range(c.pick(250, 4000)):
        I = rng.choice([0.5, 1.0, 2.0, 5.0, 60.0])
        traces.append(pd.PollDriver(kind, I, q=rng.choice([0.0, 0.25, 0.5, 1023 / 1024., rng.random]), loop=rng.random() < 0.93,
                                    direct=rng.random() < 0.3).run(random_cmds(rng, kind, I, rng.choice([10, 20, 30]))))
    for n in c.pick([150], [150, 700]):
        traces.append(pd.PollDriver(kind, 2.0, q=0.5).run([['ask', 'op%d' % i] for i in range(n)] + [['adv', 2 * pd.TICKS]] * 3))
    for I in (2.0, 60.0):
        n = 40
        d = pd.delays(kind, I, n, rng)
        traces.append(dict(cfg=dict(kind=kind, I=int(I * pd.TICKS), loop=True), ev=[dict(k='spread', n=n, delays=d)]))
    for opc in (False, True):
        traces += pd.close_race(kind, c.pick(150, 1500), rng, opc)
    c.validate('PollTrace', traces)

"""Shared by C21 to C24."""
from harness import samp_driver as sd


def cmds(rng, n, probs, ops=('a', 'b', 'c', 'd'), resp=None, upd=None, times=True):
    res = []
    for _ in range(n):
        r = rng.random()
        if r < 0.55:
            res.append(['ask', sd.random_tid(rng, rng.choice(probs) if probs else None), rng.choice(ops)])
        elif r < 0.8 and times:
            res.append(sd.random_tick(rng))
        elif resp:
            res.append(['resp', resp(rng)])
        elif upd:
            res.append(['upd', upd(rng)])
    return res


def translate(h):
    """Commands printed by SampDesign."""
    out = []
    for x in h:
        if x[0] == 'ask':
            out.append(['ask', x[1], x[2]])
        elif x[0] == 'tick':
            out.append(['tick', x[1]])
        else:
            e = x[1]
            k = e['kind']
            if k == 'prob':
                out.append(['resp', dict(kind=k, p=float(e['p']['tok']))])
            elif k == 'rate':
                out.append(['resp', dict(kind=k, r=float(e['r']['tok']))])
            elif k == 'adapt':
                out.append(['resp', dict(kind=k, lb=float(e['lb']['tok']), d=float(e['def']['tok']),
                                         ops=[(o['op'], float(o['p']['tok'])) for o in e['ops']])])
            elif k == 'invalid':
                out.append(['resp', dict(kind=k, body='{}')])
            else:
                out.append(['resp', dict(kind=k, body='{')])
    return out

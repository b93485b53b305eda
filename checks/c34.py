"""C34 crossdock services."""
from harness import cross_driver as d


def run(c):
    rng = c.rng
    ts = []
    for kind in ('JoinTraceRequest', 'StartTraceRequest', 'TraceResponse'):
        for i in range(c.pick(200, 3000)):
            ts.append(d.message(rng, kind, rng.random() < 0.2))
    for i in range(c.pick(60, 1000)):
        reqs = []
        for _ in range(rng.randint(1, 4)):
            b = dict(operation=rng.choice(['op', 'a b', 'é']))
            for k, vs in (('type', ['remote', 'const']), ('count', [0, 1, 2, 7]), ('tags', [{}, {'k': 'v'}, {'a': 'é', 'b': '', 'c': 'x y'}])):
                if rng.random() < 0.8:
                    b[k] = rng.choice(vs)
            reqs.append((b, rng.random() < 0.5))
        ts.append(d.traces(reqs))
    for i in range(c.pick(30, 300)):
        reqs = [dict(operation=rng.choice(['op', 'a b', 'é']), type=rng.choice(['remote', 'const']), count=rng.choice([0, 1, 3, 25]),
                     tags=rng.choice([{}, {'k': 'v'}, {'a': 'é', 'b': '', 'c': 'x y'}])) for _ in range(rng.randint(1, 4))]
        ts.append(d.service(rng.choice([None, 'localhost:1234', 'agent', '10.0.0.1:6831', 'a:b']), reqs))
    for t in (None, '', 'a:1', 'localhost:1234', 'agent', ':5', 'a:', 'a:b', 'a:1:2', '10.0.0.1:6831', 'x:-', ':'):
        ts.append(d.address(t))
    c.validate('CrossTrace', ts)

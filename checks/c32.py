"""C32 the channel to the agent."""
from harness import misc_driver as d

TEXTS = ['svc', 'a b', 'a+b&c=d', 'x/y?z#w', 'sérvice', '日本', '', '%41', "q'\"<>;:@", '\U0001f600', '100%', 'a=b=c', '+', '&', 'GET /api/{id}', '\n\t']


def run(c):
    rng = c.rng
    ts = []
    for s in TEXTS:
        ts.append(d.agent_run([['sampling', s, None], ['credits', s, 'id-1', ['op'], None], ['credits', 'svc', s, [], 3], ['credits', 'svc', 7, [s, s + 'x', 'op'], None]]))
    for i in range(c.pick(300, 5000)):
        cmds = []
        for _ in range(rng.randint(3, 14)):
            r = rng.random()
            t = rng.choice([None, None, 3, 60, 7])
            if r < 0.15:
                cmds.append(['sampling', rng.choice(TEXTS), t])
            elif r < 0.3:
                cmds.append(['credits', rng.choice(TEXTS), rng.choice([1, 'u-1', '2 3']), [rng.choice(TEXTS) for _ in range(rng.randint(0, 4))], t])
            elif r < 0.65:
                cmds.append(['write', rng.choice([bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 5, 40]))), b' ', b'\n\0'])])
            elif r < 0.85:
                cmds += [['write', rng.choice([b'x', b' ', b'\0'])], ['flush', rng.random() < 0.25]]
            elif r < 0.93:
                cmds.append(['discard'])
            else:
                cmds.append(['app'])
        if rng.random() < 0.3:
            cmds.append(['close'])
        ts.append(d.agent_run(cmds, rng.choice(['127.0.0.1', 'agent.local', '::1', 'localhost']), tuple(rng.sample(range(1000, 60000), 3)),
                              rng.choice(['inet', 'inet', 'inet6', 'inet6', 'unknown', 'empty']), rng.random() < 0.3))
    for n in c.pick([120, 600], [70, 120, 270, 600, 1200]):
        ts.append(d.agent_run([['credits', 'svc', 3, ['op%d' % i for i in range(n)], None], ['sampling', 's' * n, None],
                               ['write', b'x' * (n * 90)], ['write', b'y'], ['flush', False]]))
    c.validate('AgentTrace', ts)

"""C33 local addresses."""
import itertools

from harness import misc_driver as d

NAMES = ['eth0', 'eth1', 'eth2', 'en0', 'en1', 'en2', 'wlan0', 'wlan1', 'wlan2']


def run(c):
    rng = c.rng
    ts = []
    addr = {n: '10.0.%d.%d' % (i, 200 + i) for i, n in enumerate(NAMES)}
    sets = [()] + [(n,) for n in NAMES] + list(itertools.combinations(NAMES, 2)) + [tuple(NAMES), ('eth3', 'lo', 'docker0'), ('eth', 'en')]
    for named in (None, '127.0.0.1', '127.0.1.1', '192.168.3.4', '12.7.0.1', '1.127.0.0'):
        for s in sets:
            for out in (None, '172.16.5.6'):
                tags = rng.choice([{}, {}, {}, {'ip': '1.2.3.4'}, {'hostname': 'given'}, {'ip': None, 'hostname': None}, {'a': 'b'}])
                ts.append(d.addr_run(rng.choice(['myhost', 'h-1.example']), named, rng.choice(['127.0.0.1', '127.0.0.1', '10.9.9.9']),
                                     {n: addr.get(n, '10.1.1.1') for n in s}, out, tags))
    for name, named, local, out, s in itertools.product(('myhost', None), (None, '127.0.0.1', '9.8.7.6'), (None, '127.0.0.1', '10.9.9.9'),
                                                        (None, False, '172.16.5.6'), ((), ('en1', 'wlan0'))):
        ts.append(d.addr_run(name, named, local, {n: addr[n] for n in s}, out, rng.choice([{}, {}, {'ip': '1.2.3.4'}, {'hostname': 'given'}])))
    c.validate('AddrTrace', ts)

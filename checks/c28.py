"""C28 configuration."""
from harness import conf_driver as d


def run(c):
    rng = c.rng
    traces = []
    for conf, envs, validate in d.single_confs():
        traces.append(d.build(conf, 'param', envs, validate))
    for i in range(c.pick(150, 4000)):
        traces.append(d.build(d.random_conf(rng), rng.choice(['param', 'param', 'param', None, '']), d.random_env(rng), rng.random() < 0.5,
                              rng.random() < 0.3))
    c.validate('ConfTrace', traces)

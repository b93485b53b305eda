"""C25 the remote sampler polls the agent."""
from checks import poll_common


def run(c):
    poll_common.run(c, 'sampler')

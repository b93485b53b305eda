"""C27 the throttler polls the agent."""
from checks import poll_common


def run(c):
    poll_common.run(c, 'throttler')

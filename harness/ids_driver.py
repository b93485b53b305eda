"""Ids of the spans of tracers, for spec/IdsTrace.tla."""
import contextlib
import os
import random

from . import env
from .codec_driver import hexd


@contextlib.contextmanager
def draws(script):
    """The first numbers that random generators draw are the given ones (cut to the width)."""
    script = list(script)
    old = random.Random.getrandbits, random.SystemRandom.getrandbits

    def patched(real):
        def getrandbits(self, k):
            return script.pop(0) & ((1 << k) - 1) if script else real(self, k)
        return getrandbits
    random.Random.getrandbits, random.SystemRandom.getrandbits = patched(old[0]), patched(old[1])
    try:
        yield
    finally:
        del random.Random.getrandbits
        random.SystemRandom.getrandbits = old[1]
        if getattr(random.Random, 'getrandbits', None) is not old[0]:
            random.Random.getrandbits = old[0]


@contextlib.contextmanager
def process(pid):
    old = os.getpid
    os.getpid = lambda: pid
    try:
        yield
    finally:
        os.getpid = old


def make(wide, one_per_rpc=False, throttler=None):
    from jaeger_client import ConstSampler, Tracer
    from jaeger_client.reporter import InMemoryReporter
    return Tracer('svc', InMemoryReporter(), ConstSampler(True), generate_128bit_trace_id=wide, one_span_per_rpc=one_per_rpc,
                  throttler=throttler)


class Throttler(object):
    ids = None

    def set_client_id(self, i):
        self.ids = i

    def is_allowed(self, op):
        return True

    def close(self):
        pass


def run(wide, cmds, script=None, now=1e9, pid=77, tracers=1, step=1e-6):
    """cmds: root | child i, on the tracers in turn."""
    ev = []
    clock = [now]
    with env.virtual_clock(lambda: clock[0]):
        ts = []
        for i in range(tracers):
            with process(pid + i % 2):
                ts.append(make(wide))
            clock[0] += step * (i % 2)
        spans = []
        with draws(script or []):
            for n, c in enumerate(cmds):
                e = dict(k='span', root=c[0] == 'root', fair=not script, raised='', trace=[], span=[])
                e['from'] = []
                try:
                    if c[0] == 'root':
                        s = ts[n % tracers].start_span('r', ignore_active_span=True)
                    else:
                        p = spans[(c[1] - 1) % len(spans)]
                        e['from'] = hexd(p.trace_id)
                        s = ts[n % tracers].start_span('c', child_of=p)
                    e['trace'], e['span'] = hexd(s.trace_id), hexd(s.span_id)
                    spans.append(s)
                except Exception as x:
                    e['raised'] = repr(x)[:200]
                ev.append(e)
        # ids that applications draw themselves, as was once usual
        for t in ts:
            e = dict(k='drawn', raised='', id=[])
            try:
                e['id'] = hexd(t.random_id())
            except Exception as x:
                e['raised'] = repr(x)[:200]
            ev.append(e)
    if not script and len(spans) > 60:
        roots = [s for s, e in zip(spans, ev) if e['root']]
        ev.append(dict(k='batch', width=32 if wide else 16, ids=[hexd(s.trace_id) for s in roots]))
        ev.append(dict(k='batch', width=16, ids=[hexd(s.span_id) for s in spans]))
    return dict(cfg=dict(wide=wide), ev=ev)

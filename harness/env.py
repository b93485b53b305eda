"""Process-wide instrumentation that is installed before jaeger_client is
imported: a switchable virtual clock and scheduler-aware locks for the code
under test.  Both are pass-through unless a driver turns them on."""
import logging
import os
import sys
import threading
import time
import warnings

from . import core

_real = dict(time=time.time, monotonic=time.monotonic, perf_counter=time.perf_counter, sleep=time.sleep,
             time_ns=time.time_ns, monotonic_ns=time.monotonic_ns)
_clock = [None]          # None: real time, otherwise a callable returning seconds


def _now():
    c = _clock[0]
    return _real['time']() if c is None else c()


def _mono():
    c = _clock[0]
    return _real['monotonic']() if c is None else c()


class virtual_clock(object):
    """with virtual_clock(fn): time.time() == time.monotonic() == fn()"""
    def __init__(self, fn):
        self.fn = fn

    def __enter__(self):
        self.old = _clock[0]
        _clock[0] = self.fn
        return self

    def __exit__(self, *a):
        _clock[0] = self.old


class swapped(object):
    """with swapped((module, name, new), ...): module.name is new, also where jaeger_client imported the name itself"""
    def __init__(self, *triples):
        self.triples = triples

    def __enter__(self):
        self.undo = []
        for obj, name, new in self.triples:
            old = getattr(obj, name)
            setattr(obj, name, new)
            self.undo.append((obj, name, old))
            for m in [m for n, m in list(sys.modules.items()) if n.split('.')[0] == 'jaeger_client' and '.thrift_gen' not in n]:
                for k, v in list(vars(m).items()):
                    if v is old:
                        setattr(m, k, new)
                        self.undo.append((m, k, old))
        return self

    def __exit__(self, *a):
        for obj, name, old in reversed(self.undo):
            setattr(obj, name, old)


PKG = None


def _lock_factory(real, kind):
    def factory(*a, **kw):
        f = sys._getframe(1)
        if PKG and f.f_code.co_filename.startswith(PKG):
            from . import sched
            return sched.CoopLock(real(*a, **kw), kind)
        return real(*a, **kw)
    factory.__name__ = kind
    return factory


class _Capture(logging.Handler):
    def __init__(self):
        super(_Capture, self).__init__(logging.ERROR)
        self.records = []

    def emit(self, record):
        text = record.getMessage()
        if record.exc_info and record.exc_info[1] is not None:
            text += ' | %r' % (record.exc_info[1],)
        self.records.append(text)


_capture = _Capture()


def loop_errors():
    """Errors that tornado or asyncio logged since the last call: exceptions that
    escaped from callbacks and coroutines of the event loop."""
    r = list(_capture.records)
    del _capture.records[:]
    return r


def install():
    global PKG
    import asyncio  # noqa: F401  bind the real clock in the standard library first
    import selectors  # noqa: F401
    import concurrent.futures  # noqa: F401
    import tornado.ioloop  # noqa: F401
    import tornado.queues  # noqa: F401
    PKG = os.path.join(os.path.realpath(core.REPO), 'jaeger_client') + os.sep
    time.time = _now
    time.monotonic = _mono
    time.perf_counter = _mono
    time.time_ns = lambda: int(_now() * 1e9)
    time.monotonic_ns = lambda: int(_mono() * 1e9)
    threading.Lock = _lock_factory(threading.Lock, 'Lock')
    threading.RLock = _lock_factory(threading.RLock, 'RLock')
    warnings.simplefilter('ignore')
    for k in ('JAEGER_AGENT_HOST', 'JAEGER_AGENT_PORT', 'JAEGER_TAGS', 'JAEGER_TRACEID_128BIT',
              'JAEGER_SERVICE_NAME', 'http_proxy', 'https_proxy', 'HTTP_PROXY', 'HTTPS_PROXY'):
        os.environ.pop(k, None)
    logging.lastResort = None
    logging.getLogger().handlers[:] = [logging.NullHandler()]
    for name in ('tornado.application', 'asyncio'):
        lg = logging.getLogger(name)
        lg.addHandler(_capture)
        lg.propagate = False
    import jaeger_client
    got = os.path.realpath(jaeger_client.__file__)
    if not got.startswith(PKG):
        raise core.MachineryError('jaeger_client was imported from ' + got)

"""Shared by C01..C05: the remote reporter."""
import threading
import time

from harness import core, env
from harness.reporter_driver import Driver, random_cmds, metrics_factory, Log, FakeSocket, fake_sockets, wire_id

MODEL = {
    'C01': dict(invariants=['Conservation'], mutants=[]),
    'C02': dict(invariants=['Bounded', 'OnlyDropWhenFull', 'InOrder'], mutants=[]),
    'C03': dict(invariants=['Bounded'], properties=['EverySpanSettles'],
                mutants=[('stoploses', 'EverySpanSettles', True)]),
    'C04': dict(invariants=['CloseFlushes'], properties=['CloseCompletes'],
                mutants=[('secondstop', 'CloseCompletes', True), ('stopnowait', 'CloseCompletes', False),
                         ('ackone', 'CloseCompletes', True)]),
    'C05': dict(invariants=['Conservation'], properties=['EverySpanSettles'],
                mutants=[('stoploses', 'EverySpanSettles', True)]),
}
ACTIONS = ('Report', 'CloseCall', 'LoopReport', 'LoopClose', 'ConsumerGet', 'FlushTimeout', 'Submit', 'SendOk',
           'SendFail', 'CloseComplete')


def phase_a(c):
    n = c.pick(3, 5)
    base = dict(NSpans=n, NCloses=2, Q=2, B=2, Flush=True, Bug='')
    m = MODEL[c.prop]
    for flush in (True, False):
        for q, b in c.pick([(2, 2)], [(2, 2), (3, 2), (1, 1), (3, 3)]):
            c.model('Reporter', dict(base, Flush=flush, Q=q, B=b), invariants=m['invariants'],
                    properties=m.get('properties', ()), spec='Spec',
                    must_take=[a for a in ACTIONS if flush or a != 'FlushTimeout'] if (q, b) == (2, 2) else (),
                    name='design')
    for bug, prop, flush in m['mutants']:
        c.model('Reporter', dict(base, NSpans=3, Flush=flush, Bug=bug), properties=[prop], spec='Spec', expect=prop,
                name='mutant ' + bug)
    # the monitor accepts everything that the design does, and rejects a mutated design
    c.model('ReporterObs', dict(base, NSpans=c.pick(3, 4)), invariants=['Accepted', 'AllSettled'], spec='OSpec',
            name='design observed by the monitor')
    c.model('ReporterObs', dict(base, NSpans=3, Bug='stoploses'), invariants=['Accepted'], spec='OSpec',
            expect='Accepted', name='mutant observed by the monitor')


def generated(c):
    """Command sequences that TLC enumerates from the design."""
    res = []
    for q, b, flush in c.pick([(2, 2, True), (3, 2, False), (1, 1, True)],
                              [(2, 2, True), (3, 2, True), (3, 2, False), (1, 1, True), (2, 1, False), (3, 3, True)]):
        depth = c.pick(4, 6)
        seqs = c.generate('ReporterGen', dict(NSpans=c.pick(6, 8), NCloses=2, Q=q, B=b, Flush=flush, Bug='', Depth=depth,
                                              MaxBurst=q + b + 1 if not c.thorough else 3), spec='GSpec',
                          name='commands Q=%d B=%d' % (q, b), timeout=800)
        cap = c.pick(1200, 8000)
        if len(seqs) > cap:
            seqs = c.rng.sample(seqs, cap)
        for s in seqs:
            res.append(Driver(q, b, 8 if flush else 0, 'async', rng=c.rng).run(s))
    return res + large_traces(c)


def large_traces(c):
    """Buffers and batches far above the default sizes."""
    rng, res = c.rng, []
    for Q, B, n in c.pick([(1100, 60, 1200)], [(1100, 60, 1200), (300, 300, 900), (2500, 100, 2700), (1500, 7, 1600)]):
        burst = rng.randint(25, 40)
        cmds = ['r%d' % burst] * (n // burst) + ['w9', 'o', 'r30', 'o', 'f', 'r5']
        res.append(Driver(Q, B, rng.choice([0, 8]), 'async', rng=rng).run(cmds))
    return res


def random_traces(c, n, modes=('async', 'sync', 'udp'), poison=False, fates=None, length=(6, 24)):
    rng = c.rng
    res = []
    for i in range(n):
        mode = modes[i % len(modes)]
        B = rng.choice([1, 2, 3, 3, 4])
        Q = B + rng.choice([0, 0, 1, 2, 5])
        F = rng.choice([0, 4, 8])
        fate_set = fates or (['ok', 'ok', 'sock', 'exc', 'fut'] if mode == 'sync' else ['ok', 'ok', 'sock', 'exc'])
        if mode == 'udp':
            fate_set = [x for x in fate_set if x != 'fut']
        bad = {}

        def is_poison(i, bad=bad):
            if i not in bad:
                bad[i] = rng.choice([None, None, None, None, None, 'name', 'surrogate', 'tagkey', 'big'])
            return bad[i]
        d = Driver(Q, B, F, mode, fate=lambda: rng.choice(fate_set),
                   poison=is_poison if poison and mode == 'udp' else None, rng=rng)
        res.append(d.run(random_cmds(rng, F, rng.randint(*length), mode, closes=rng.choice([0, 1, 2, 3]))))
    return res


def threaded_trace(c, Q, B, nspans, threads=3, how='udp', close_threads=1):
    """A synchronous application: the sender runs its own loop in a thread, spans
    are finished by several threads, real time."""
    from jaeger_client import ConstSampler, Tracer
    from jaeger_client.reporter import Reporter
    from jaeger_client.local_agent_net import LocalAgentSender
    from harness import compact
    rng = c.rng
    env.loop_errors()
    log = Log()
    fate = {}

    def sink(sock, data, peer):
        try:
            ids = [wire_id(s) for s in compact.batch_of(data)[2][1]]
        except Exception as e:
            log.add('garbage', why=repr(e)[:200])
            return len(data)
        log.add('send', ids=ids)
        r = fate.get(ids[0], 'ok') if ids else 'ok'
        log.add('result', r=r)
        if r != 'ok':
            raise OSError(111, 'refused')
        return len(data)

    for i in range(nspans + 1):
        if rng.random() < 0.2:
            fate[i] = 'err'
    with fake_sockets(sink):
        ch = LocalAgentSender('127.0.0.1', 5778, 6831)
    loop = ch.io_loop
    rep = Reporter(channel=ch, queue_capacity=Q, batch_size=B, flush_interval=0.02,
                   metrics_factory=metrics_factory(log))
    tracer = Tracer('svc', rep, ConstSampler(True), metrics_factory=None)
    counter = [0]

    def app():
        while True:
            with log.lock:
                if counter[0] >= nspans:
                    return
                counter[0] += 1
                i = counter[0]
            span = tracer.start_span('same' if i % 3 else 's', start_time=i)
            span.end_time = time.time()
            with log.lock:      # the order of the hand-over is the order of the log
                log.add('report', id=i, raised=False)
                e = log.ev[-1]
                try:
                    rep.report_span(span)
                except Exception:
                    e['raised'] = True
                loop.add_callback(log.add, 'seen', id=i)
            if rng.random() < 0.3:
                time.sleep(0.002)
    ts = [threading.Thread(target=app) for _ in range(threads)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    futs = []
    done = threading.Event()

    def closing(i):
        with log.lock:
            log.add('close', id=i, raised=False)
            e = log.ev[-1]
            try:
                futs.append((i, rep.close()))
            except Exception:
                e['raised'] = True
    for i in range(1, close_threads + 1):
        t = threading.Thread(target=closing, args=(i,))
        t.start()
        t.join()
    deadline = core.real_monotonic() + 20
    while futs and core.real_monotonic() < deadline and not all(f.done() for _, f in futs):
        time.sleep(0.002)
    # let the loop finish what it is doing
    for _ in range(3):
        done.clear()
        loop.add_callback(done.set)
        done.wait(5)
    with log.lock:
        for i, f in futs:
            if f.done():
                log.add('closedone', id=i, failed=f.exception() is not None)
        for e in env.loop_errors():
            log.add('loop_exc', text=e[:300])
        log.add('idle')
        log.add('end', reported=nspans)
    loop.add_callback(loop.stop)
    return dict(cfg=dict(Q=Q, B=B, F=0), ev=log.ev, info=dict(threads=threads))


def run(c, clauses, traces):
    phase_a(c)
    c.validate('ReporterTrace', traces(), clauses=clauses)

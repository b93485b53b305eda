"""C26 throttling credits."""
from harness import poll_driver as pd


def run(c):
    S = dict(Threads={1, 2}, OpNames={'a', 'b'}, One=2, MaxResp=c.pick(2, 3), MaxAsks=c.pick(3, 4))
    inv = ['Budget', 'NotWasted', 'Exact']
    c.model('CredDesign', dict(S, Bug=''), invariants=inv, view='View')
    for bug, x in (('nolock', 'Exact'), ('greedy', 'Budget'), ('forfeit', 'NotWasted'), ('halfway', 'Exact')):
        c.model('CredDesign', dict(S, Bug=bug, MaxResp=2, MaxAsks=3), invariants=[x], expect=x, view='View', name='mutant ' + bug)
    rng = c.rng
    half = pd.GRAIN // 2
    g = c.generate('CredDesign', dict(S, Bug='', MaxResp=6, MaxAsks=12, Threads={1}), simulate=c.pick(300, 3000), depth=24)
    traces = []
    for h in g:
        cmds = []
        for x in h:
            if x[0] == 'ask':
                cmds.append(['ask', x[1]])
            else:
                r = dict(kind='credit', ops=[(x[1], x[2] * half)])
                if not x[3]:
                    r = dict(kind='bad', body=pd.cred_body(r)[:-2] + ', ' + rng.choice(pd.BAD_ENTRY) + ']}')
                cmds.append(['resp', r])
        traces.append(pd.cred_run(cmds))
    for b in pd.BAD + ['{"balances": [{"operation": "a", "balance": 2}, %s]}' % e for e in pd.BAD_ENTRY] + [
            '{"balances": [%s, {"operation": "a", "balance": 2}]}' % e for e in pd.BAD_ENTRY]:
        r = dict(kind='bad', body=b)
        asks = [['ask', o] for o in 'ababab']
        traces.append(pd.cred_run([['resp', r]] + asks))
        traces.append(pd.cred_run([['ask', 'a'], ['resp', dict(kind='credit', ops=[('a', 1500), ('b', 2500)])], ['resp', r]] + asks))
    for i in range(c.pick(600, 8000)):
        traces.append(pd.cred_run([['ask', rng.choice('abc')] if rng.random() < 0.65 else ['resp', pd.random_credit(rng)]
                                   if rng.random() < 0.95 else ['fail'] for _ in range(40)]))
    c.validate('CredTrace', traces)
    ts = []
    two = dict(kind='credit', ops=[('a', 2048)])
    one = dict(kind='credit', ops=[('a', 1024), ('b', 1024)])
    bad = dict(kind='bad', body='{"balances": [{"operation": "a", "balance": 3}, {"operation": "b", "balance": "x"}]}')
    A, B = ('ask', 'a'), ('ask', 'b')
    for first, progs in (([one], ([A], [A])), ([two], ([A, A], [A, A])), ([one], ([A, B], [B, A], [A])),
                         ([], ([A, A], [('resp', two)], [A])), ([one], ([A, A], [('resp', one)])), ([], ([A, B, A], [('resp', bad)])),
                         ([], ([('resp', one)], [('resp', two)], [A, A]))):
        for opc in (False, True):
            ts += pd.cred_explore(first, progs, c.pick(100, 1000), rng, opc)
    c.validate('CredLin', ts, name='threads on one throttler')

"""Common machinery of the checks: environment, TLC runs, trace validation,
evidence, violations and known findings."""
import atexit
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time as _time
import traceback

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
real_time = _time.time
real_monotonic = _time.monotonic
real_sleep = _time.sleep

_scratch = None


def scratch():
    """A private scratch directory, removed at exit."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='jverif-')
        pid = os.getpid()

        def cleanup(path=_scratch):
            if os.getpid() == pid:
                shutil.rmtree(path, ignore_errors=True)
        atexit.register(cleanup)
    return _scratch


class MachineryError(Exception):
    """The check itself is broken (never reported as a violation)."""


class CodeError(Exception):
    """The code under test did something no specification allows."""


def tla(v):
    """A TLA+ literal of a Python value (for CONSTANTS in cfg files)."""
    if isinstance(v, bool):
        return 'TRUE' if v else 'FALSE'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (set, frozenset)):
        return '{%s}' % ', '.join(tla(x) for x in sorted(v, key=repr))
    raise TypeError(v)


class TLCResult(object):
    def __init__(self, out, rc, wall):
        self.out = out
        self.rc = rc
        self.wall = wall
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
        self.generated = int(m[-1][0]) if m else 0
        self.distinct = int(m[-1][1]) if m else 0
        if not m:   # simulation
            m = re.findall(r'The number of states generated: (\d+)', out)
            if m:
                self.generated = self.distinct = int(m[-1])
        self.ok = rc == 0 and 'Error:' not in out
        m = re.findall(r'The depth of the complete state graph search is (\d+)', out)
        self.depth = int(m[-1]) if m else 0

    def marks(self, tag):
        """Decoded JSON payloads printed with PrintT("@@tag " \\o ToJson(..))."""
        res = []
        pre = '"@@%s ' % tag
        for line in self.out.splitlines():
            if line.startswith(pre):
                body = line[len(pre):].rstrip()
                if body.endswith('"'):
                    body = body[:-1]
                body = body.replace('\\"', '"').replace('\\\\', '\\')
                res.append(json.loads(body))
        return res

    def coverage(self):
        """action name -> (distinct, generated) from -coverage output."""
        res = {}
        for m in re.finditer(r'^<(\w+) line .*?>: (\d+):(\d+)', self.out, re.M):
            a, d, g = m.group(1), int(m.group(2)), int(m.group(3))
            old = res.get(a, (0, 0))
            res[a] = (max(old[0], d), max(old[1], g))
        return res


_run_no = [0]


def run_tlc(module, cfg, workers=8, heap='6g', timeout=600, args=(), env=None, coverage=False,
            deadlock=False, files=None):
    """Run TLC on spec/<module>.tla with cfg text.  Returns a TLCResult."""
    _run_no[0] += 1
    d = os.path.join(scratch(), 'tlc%d' % _run_no[0])
    os.makedirs(d)
    for f in os.listdir(SPEC):
        if f.endswith('.tla'):
            os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
    for name, text in (files or {}).items():
        p = os.path.join(d, name)
        if os.path.islink(p):
            os.unlink(p)
        with open(p, 'w') as f:
            f.write(text)
    with open(os.path.join(d, 'MC.cfg'), 'w') as f:
        f.write(cfg)
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss16m', '-cp', JARS, 'tlc2.TLC',
           '-workers', str(workers), '-config', 'MC.cfg', '-metadir', os.path.join(d, 'states'),
           '-noGenerateSpecTE']
    if not deadlock:
        cmd.append('-deadlock')
    if coverage:
        cmd += ['-coverage', '1']
    cmd += list(args) + [module + '.tla']
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update(env or {})
    t0 = real_monotonic()
    try:
        p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        raise MachineryError('TLC timed out on %s after %ss' % (module, timeout))
    out = p.stdout.decode('utf-8', 'replace')
    shutil.rmtree(os.path.join(d, 'states'), ignore_errors=True)
    return TLCResult(out, p.returncode, real_monotonic() - t0)


class Check(object):
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.thorough = self.tier == 'thorough'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.rng = random.Random('%s-%d' % (prop, self.seed))
        self.t0 = real_monotonic()
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.samples = []
        self.spec_runs = []
        self.notes = []
        self.extra = {}
        self.assumptions = []
        self.violations = []
        self.known_hits = {}
        self.known = load_known(prop)

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---- phase A: the specification itself -------------------------------
    def model(self, module, consts=None, invariants=(), properties=(), spec=None, constraint=None,
              symmetry=None, view=None, expect=None, must_take=(), workers=8, timeout=500,
              deadlock=False, defs=None, args=(), extra_cfg='', name=None):
        """Model-check the specification.  expect=None: no error may be found.
        expect='X': invariant/property X must be violated (a mutated design
        has to be refuted, otherwise the property is vacuous)."""
        cfg = []
        if spec:
            cfg.append('SPECIFICATION ' + spec)
        else:
            cfg += ['INIT Init', 'NEXT Next']
        if consts:
            cfg.append('CONSTANTS')
            for k, v in consts.items():
                cfg.append('  %s = %s' % (k, v if isinstance(v, Raw) else tla(v)))
        for i in invariants:
            cfg.append('INVARIANT ' + i)
        for i in properties:
            cfg.append('PROPERTY ' + i)
        if constraint:
            cfg.append('CONSTRAINT ' + constraint)
        if symmetry:
            cfg.append('SYMMETRY ' + symmetry)
        if view:
            cfg.append('VIEW ' + view)
        cfg.append(extra_cfg)
        r = run_tlc(module, '\n'.join(cfg) + '\n', workers=workers, timeout=timeout,
                    coverage=bool(must_take), deadlock=deadlock, args=args)
        run = dict(spec=module, name=name or module, constants={k: str(v) for k, v in (consts or {}).items()},
                   invariants=list(invariants), properties=list(properties), distinct=r.distinct,
                   generated=r.generated, depth=r.depth, wall_s=round(r.wall, 1))
        if expect:
            if r.ok or not (('Invariant %s is violated' % expect) in r.out
                            or ('property %s' % expect) in r.out
                            or ('Temporal properties were violated' in r.out and expect in properties)
                            or (expect == 'Deadlock' and 'Deadlock reached' in r.out)):
                raise MachineryError('%s: the mutated specification %s does not violate %s\n%s' % (
                    self.prop, module, expect, r.out[-3000:]))
            run['refuted_mutant'] = expect
        else:
            if not r.ok:
                raise MachineryError('%s: TLC found an error in the specification %s\n%s' % (
                    self.prop, module, r.out[-2500:]))
            if must_take:
                cov = r.coverage()
                missing = [a for a in must_take if cov.get(a, (0, 0))[1] == 0]
                if missing:
                    raise MachineryError('%s: actions never taken in %s: %s' % (self.prop, module, missing))
                run['actions'] = {a: cov[a][1] for a in must_take}
            self.states += r.distinct
            self.transitions += r.generated
        self.spec_runs.append(run)
        return r

    # ---- commands generated from the specification -----------------------
    def generate(self, module, consts=None, tag='CMD', simulate=None, depth=None, constraint=None,
                 timeout=300, invariants=('Emit',), spec=None, name=None, workers=8):
        """Let TLC enumerate (or simulate) behaviours; the spec prints them."""
        cfg = ['SPECIFICATION ' + spec] if spec else ['INIT Init', 'NEXT Next']
        if consts:
            cfg.append('CONSTANTS')
            for k, v in consts.items():
                cfg.append('  %s = %s' % (k, v if isinstance(v, Raw) else tla(v)))
        for i in invariants:
            cfg.append('INVARIANT ' + i)
        if constraint:
            cfg.append('CONSTRAINT ' + constraint)
        args = []
        if simulate:
            args = ['-simulate', 'num=%d' % simulate, '-depth', str(depth), '-seed', str(self.seed * 7919 + 13)]
            workers = 1
        r = run_tlc(module, '\n'.join(cfg) + '\n', args=args, timeout=timeout, workers=workers)
        if not r.ok:
            raise MachineryError('%s: generation from %s failed\n%s' % (self.prop, module, r.out[-4000:]))
        self.states += r.distinct
        self.transitions += r.generated
        res = r.marks(tag)
        seen, uniq = set(), []
        for x in res:
            k = json.dumps(x, sort_keys=True)
            if k not in seen:
                seen.add(k)
                uniq.append(x)
        self.spec_runs.append(dict(spec=module, name=name or 'generate', behaviours=len(uniq),
                                   distinct=r.distinct, generated=r.generated,
                                   mode='simulate' if simulate else 'exhaustive',
                                   constants={k: str(v) for k, v in (consts or {}).items()}))
        uniq.sort(key=lambda x: json.dumps(x, sort_keys=True))
        return uniq

    # ---- phase B: traces of the code against the specification ------------
    def validate(self, module, traces, consts=None, clauses=None, timeout=600, chunk=4000, name=None,
                 dedupe=True, workers=8):
        """traces: list of dicts with at least 'ev' (list of events).  The spec
        prints @@END {tr, bad} for every completed path of every trace; a trace
        conforms if some path has no bad clause (in `clauses`, if given)."""
        if not traces:
            raise MachineryError('no traces for %s' % module)
        uniq, seen = [], set()
        for t in traces:
            k = json.dumps({x: y for x, y in t.items() if x != 'info'}, sort_keys=True)
            if UNREADABLE.search(k):
                t = readable(t)
            if dedupe and k in seen:
                continue
            seen.add(k)
            uniq.append(t)
        distinct = generated = 0
        rejected = []
        wall = 0
        for at in range(0, len(uniq), chunk):
            part = list(uniq[at:at + chunk])
            for _ in range(4):
                res = self._validate_part(module, part, consts, timeout, workers, clauses)
                distinct += res['distinct']
                generated += res['generated']
                wall += res['wall']
                if res['crash'] is None:
                    break
                # an observation outside of the vocabulary of the specification
                i, text = res['crash']
                rejected.append((part[i], [['type', -1]], text))
                del part[i]
                if not part:
                    res = dict(ends={})
                    break
            else:
                break       # enough is rejected
            for i, t in enumerate(part):
                paths = res['ends'].get(i + 1)
                if not paths:
                    raise MachineryError('%s: trace %d was not completed by %s' % (self.prop, i, module))
                best = None
                for bad in paths:
                    b = [x for x in bad if clauses is None or x[0] in clauses]
                    if best is None or len(b) < len(best):
                        best = b
                if best:
                    rejected.append((t, best, None))
        self.states += distinct
        self.transitions += generated
        self.validated += len(uniq)
        self.spec_runs.append(dict(spec=module, name=name or 'trace validation', traces=len(traces),
                                   distinct_traces=len(uniq), events=sum(len(t['ev']) for t in uniq),
                                   distinct=distinct, generated=generated, wall_s=round(wall, 1),
                                   rejected=len(rejected)))
        if uniq and len(self.samples) < 6:
            for t in (uniq[0], uniq[len(uniq) // 2]):
                s = json.dumps(t)
                self.samples.append(t if len(s) < 6000 else s[:6000] + '...')
        for t, bad, text in rejected:
            bad = sorted(bad, key=lambda x: (x[1], str(x[0])))
            at = bad[0][1]
            ev = t['ev'][at - 1] if 0 < at <= len(t['ev']) else None
            # a known finding can be a clause of its own
            names = {str(b[0]) for b in bad}
            one = 'clause:' + names.pop() if len(names) == 1 else None
            self.violation('%s: clause %s at event %s: %s' % (
                name or module, ','.join(sorted({str(b[0]) for b in bad})), at, json.dumps(ev)[:1500]),
                dict(module=module, clauses=bad, event=ev, trace=t, error=text), key=t.get('key') or one)
        return rejected

    def _validate_part(self, module, part, consts, timeout, workers, clauses):
        path = os.path.join(scratch(), 'traces%d.json' % (_run_no[0] + 1))
        with open(path, 'w') as f:
            json.dump([{k: v for k, v in t.items() if k not in ('info', 'key')} for t in part], f)
        with open(path + '.c', 'w') as f:
            json.dump(sorted(clauses or []), f)
        cfg = ['INIT TInit', 'NEXT TNext', 'INVARIANT TEnd']
        if consts:
            cfg.append('CONSTANTS')
            for k, v in consts.items():
                cfg.append('  %s = %s' % (k, v if isinstance(v, Raw) else tla(v)))
        r = run_tlc(module, '\n'.join(cfg) + '\n', env={'TRACES': path, 'CLAUSES': path + '.c'}, timeout=timeout, workers=workers)
        crash = None
        if not r.ok:
            m = re.findall(r'^/\\ tr = (\d+)', r.out, re.M)
            if not m or 'TLC threw an unexpected exception' in r.out and 'OutOfMemory' in r.out:
                raise MachineryError('%s: TLC failed on %s\n%s' % (self.prop, module, r.out[-5000:]))
            crash = (int(m[-1]) - 1, r.out[-3000:])
            if os.environ.get('VERIF_DEBUG'):
                print(r.out[-4000:])
        ends = {}
        for e in r.marks('END'):
            ends.setdefault(e['tr'], []).append(e['bad'])
        os.unlink(path)
        os.unlink(path + '.c')
        return dict(crash=crash, ends=ends, distinct=r.distinct, generated=r.generated, wall=r.wall)

    # ---- verdicts ----------------------------------------------------------
    def violation(self, text, replay, key=None):
        if key is not None and key in self.known:
            self.known_hits[key] = text
            return
        self.violations.append((text, replay))

    def fail_if(self, cond, text, replay=None, key=None):
        if cond:
            self.violation(text, replay or {}, key)
        return cond

    def finish(self):
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.validated,
                   samples=self.samples[:6] or ['none'], spec_runs=self.spec_runs)
        cov.update(self.extra)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level='model_checking', coverage=cov,
                  assumptions=self.assumptions, wall_s=round(real_monotonic() - self.t0, 2),
                  violations=len(self.violations))
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, self.prop + '.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(p + '.tmp', p)
        for key in sorted(self.known):
            if key in self.known_hits:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, self.known[key]))
            else:
                print('note: known finding %s was not observed in this run' % key)
        if self.violations:
            rp = os.path.join(d, '%s.replay.json' % self.prop)
            with open(rp, 'w') as f:
                json.dump([dict(what=t, detail=r) for t, r in self.violations[:20]], f, indent=1, default=str)
            for t, _ in self.violations[:5]:
                print(t[:3000])
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            sys.stdout.flush()
            return 1
        print('ok property=%s states=%d transitions=%d traces=%d wall=%.1fs' % (
            self.prop, self.states, self.transitions, self.validated, real_monotonic() - self.t0))
        sys.stdout.flush()
        return 0


# what TLC cannot read: null and fractions
UNREADABLE = re.compile(r'null|\d[.eE]|NaN|Infinity')


def readable(x):
    """x with a string in place of everything that TLC cannot read: no specification accepts it there."""
    if isinstance(x, dict):
        return {str(k): readable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [readable(v) for v in x]
    if x is None or isinstance(x, float):
        return 'unexpected: %r' % (x,)
    return x


class Raw(str):
    """A literal TLA+ expression for a constant."""


def load_known(prop):
    """known_findings.json: {"open": [{property, key, what}], "fixed": [...]}"""
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return {}
    with open(p) as f:
        data = json.load(f)
    return {e['key']: e['what'] for e in data.get('open', []) if e['property'] == prop}


def in_repo_traceback(exc):
    """Does the traceback of exc pass through the code under test?"""
    pkg = tuple(os.path.join(os.path.realpath(REPO), d) for d in ('jaeger_client', 'crossdock'))
    while exc is not None:
        for f, _ in traceback.walk_tb(exc.__traceback__):
            if os.path.realpath(f.f_code.co_filename).startswith(pkg):
                return True
        exc = exc.__cause__ or exc.__context__
    return False


def main(prop, fn):
    c = Check(prop)
    try:
        fn(c)
    except MachineryError as e:
        print('MACHINERY ERROR: %s' % e)
        if c.violations:
            return c.finish()
        return 2
    except Exception as e:
        text = traceback.format_exc()
        if isinstance(e, CodeError) or in_repo_traceback(e):
            c.violation('the code under test raised an unexpected exception:\n' + text,
                        dict(traceback=text))
            return c.finish()
        print(text)
        if c.violations:
            return c.finish()
        return 2
    return c.finish()

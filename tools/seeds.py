"""Makes and checks the planted bugs of seeded/ (not used by any check).

  seeds.py make FILE      FILE defines SEEDS = [dict(id, property, file, old, new, needs, breaks, demo)]
  seeds.py check ID...    demo and tests with and without the patch, and the check of its property
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, 'seeded')
DEMO = '''#!/bin/bash
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
exec timeout 120 /opt/venv/bin/python -B "$(dirname "$0")/demo.py"
'''


def copy():
    d = tempfile.mkdtemp(prefix='seed-')
    r = os.path.join(d, 'repo')
    shutil.copytree('/repo', r, symlinks=True)
    return d, r


def make(path):
    ns = {}
    exec(open(path).read(), ns)
    ids = []
    for s in ns['SEEDS']:
        d, r = copy()
        for f, old, new in s.get('edits') or [(s['file'], s['old'], s['new'])]:
            p = os.path.join(r, 'jaeger_client', f)
            t = open(p).read()
            assert t.count(old) == 1, (s['id'], f, t.count(old))
            open(p, 'w').write(t.replace(old, new))
        diff = subprocess.check_output(['git', '-C', r, 'diff'])
        out = os.path.join(SEEDED, s['id'])
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, 'patch.diff'), 'wb').write(diff)
        open(os.path.join(out, 'demo.sh'), 'w').write(DEMO)
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        open(os.path.join(out, 'demo.py'), 'w').write(s['demo'].lstrip('\n'))
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']),
                  open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        shutil.rmtree(d)
        ids.append(s['id'])
    return ids


def check(i, run_check=True):
    out = os.path.join(SEEDED, i)
    prop = json.load(open(os.path.join(out, 'meta.json')))['property']
    d, r = copy()
    try:
        a = subprocess.run(['bash', os.path.join(out, 'demo.sh')], cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        subprocess.check_call(['git', '-C', r, 'apply', os.path.join(out, 'patch.diff')])
        b = subprocess.run(['bash', os.path.join(out, 'demo.sh')], cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=60', '--benchmark-skip',
                        '-o', 'junit_family=xunit2', '--junitxml=' + os.path.join(d, 'j.xml'), 'tests'], cwd=r,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1',
                                                                               LC_ALL='C.UTF-8', PYTHONHASHSEED='0'))
        subprocess.run(['/usr/bin/python3', '/opt/vp/results.py', os.path.join(d, 'o.json'), 'junit:' + os.path.join(d, 'j.xml')],
                       stdout=subprocess.PIPE)
        res = json.load(open(os.path.join(d, 'o.json')))
        base = json.load(open('/opt/vp/BASELINE.json'))
        failed = sorted(set(base['stable']) - set(res['passed']))
        line = '%-28s %s demo %d/%d tests-failed %s' % (i, prop, a.returncode, b.returncode, failed[:2])
        ok = a.returncode == 0 and b.returncode != 0 and not failed
        if run_check and ok:
            e = dict(os.environ, VERIF_REPO=r, VERIF_TIER='quick', VERIF_SEED='1')
            p = subprocess.run(['/opt/venv/bin/python', '-B', 'run.py', prop], cwd=ROOT, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT)
            o = p.stdout.decode()
            line += ' check rc %d %s' % (p.returncode, 'CAUGHT' if 'VIOLATION property=%s' % prop in o else 'MISSED')
            line += '  | ' + o.splitlines()[0][:110]
        if not ok:
            line += '  INVALID'
            line += '\n' + a.stdout.decode()[-300:] if a.returncode else ''
        return line
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == 'make':
        for f in args:
            ids = make(f)
            print(ids)
        args = ids
    nocheck = '-n' in args
    args = [a for a in args if a != '-n']
    if not args:
        args = sorted(os.listdir(SEEDED))
    with ThreadPoolExecutor(2) as ex:
        for line in ex.map(lambda i: check(i, not nocheck), args):
            print(line, flush=True)

"""Nothing has to be built: checks that the tools are there and that every
specification parses."""
import os
import subprocess
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
spec = os.path.join(ROOT, 'spec')
mods = sorted(f for f in os.listdir(spec) if f.endswith('.tla'))
p = subprocess.run(['java', '-cp', JARS, 'tla2sany.SANY'] + mods, cwd=spec, stdout=subprocess.PIPE,
                   stderr=subprocess.STDOUT)
if p.returncode:
    print(p.stdout.decode()[-4000:])
    sys.exit(1)
os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
print('%d specification modules parse' % len(mods))

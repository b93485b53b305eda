"""Run the check of one property:  python -B run.py C01"""
import importlib
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(1, REPO)
# stale bytecode of an earlier state must not stand in for the sources
sys.pycache_prefix = '/nonexistent-jverif-pycache'

if __name__ == '__main__':
    prop = sys.argv[1]
    from harness import env, core
    env.install()
    mod = importlib.import_module('checks.' + prop.lower())
    rc = core.main(prop, mod.run)
    sys.stdout.flush()
    sys.stderr.flush()
    # background daemon threads of the code under test must not delay the exit
    import atexit
    atexit._run_exitfuncs()
    os._exit(rc)

"""Entry point: run one check (all spaces of one property) or replay one violation.

The interpreter is re-executed once with a fixed hash seed and a private
byte-code cache, so that every check sees the code of /repo's current working
tree and no hash-order nondeterminism.
"""
import os
import sys
import shutil
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)


def main():
    if os.environ.get('MC_STAGE') != '2':
        scratch = tempfile.mkdtemp(prefix='mc_', dir='/tmp')
        env = dict(os.environ)
        env['MC_STAGE'] = '2'
        env['MC_SCRATCH'] = scratch
        env['PYTHONHASHSEED'] = '0'
        env['PYTHONPYCACHEPREFIX'] = os.path.join(scratch, 'pyc')
        env.pop('PYTHONDONTWRITEBYTECODE', None)
        env['PYTHONPATH'] = ''
        env['TZ'] = 'UTC'
        env['LC_ALL'] = 'C.UTF-8'
        env['HOME'] = scratch          # no user configuration file is read
        import subprocess
        try:
            rc = subprocess.call([sys.executable, os.path.abspath(__file__)] + sys.argv[1:], env=env)
        finally:
            if scratch.startswith('/tmp/mc_'):
                shutil.rmtree(scratch, ignore_errors=True)
        sys.exit(rc if rc in (0, 1) else 2)
    sys.path[:] = [p for p in sys.path if p not in ('', HERE)]
    sys.path.insert(0, os.environ.get('MC_REPO', '/repo'))
    sys.path.insert(0, ROOT)
    from mc import core
    sys.exit(core.main(sys.argv[1:]))


main()

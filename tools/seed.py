"""Authoring aid for planted bugs (not used by any check).

  seed.py new SPEC.py ...   a spec file defines NAME PROP NEEDS BREAKS EDITS=[(file, old, new)] DEMO
  seed.py verify NAME ...   build, tests and demo in a scratch copy, with and without the patch
  seed.py check NAME ...    run the property's quick check against the patched scratch copy
"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(V, 'seeded')
BASE = subprocess.check_output(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], text=True).split()[0]

def scratch(name):
    d = '/tmp/seed_%s' % name
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d, symlinks=True)
    return d

def new(spec):
    ns = {}
    exec(open(spec).read(), ns)
    d = scratch(ns['NAME'])
    for f, old, rep in ns['EDITS']:
        p = os.path.join(d, f)
        s = open(p).read()
        assert s.count(old) == 1, (ns['NAME'], f, s.count(old), old)
        base = subprocess.check_output(['git', '-C', '/repo', 'show', BASE + ':' + f], text=True)
        newl = set(rep.split('\n'))
        if not any(l in base.split('\n') for l in old.split('\n') if l not in newl):
            print('WARNING', ns['NAME'], 'changes only lines added by our commits' )
        open(p, 'w').write(s.replace(old, rep))
    out = os.path.join(SEED, ns['NAME'])
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, 'patch.diff'), 'w').write(subprocess.check_output(['git', '-C', d, 'diff'], text=True))
    open(os.path.join(out, 'demo.py'), 'w').write('import os, sys\nsys.path.insert(0, os.getcwd())\nimport logging\nlogging.disable(logging.CRITICAL)\n' + ns['DEMO'].lstrip('\n'))
    open(os.path.join(out, 'demo.sh'), 'w').write('#!/bin/sh\nPYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(out, 'demo.sh'), 0o755)
    json.dump({'property': ns['PROP'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(os.path.join(out, 'meta.json'), 'w'), indent=1)
    shutil.rmtree(d)
    return ns['NAME']

def demo(name, d):
    t = tempfile.mkdtemp()
    for f in os.listdir(os.path.join(SEED, name)):
        if f not in ('patch.diff', 'meta.json'):
            shutil.copy(os.path.join(SEED, name, f), t)
    r = subprocess.run(['sh', os.path.join(t, 'demo.sh')], cwd=d, capture_output=True, text=True)
    shutil.rmtree(t)
    return r.returncode, (r.stdout + r.stderr)[-400:]

def verify(name, tests=True):
    d = scratch(name)
    a = demo(name, d)
    subprocess.check_call(['git', '-C', d, 'apply', os.path.join(SEED, name, 'patch.diff')])
    b = demo(name, d)
    miss = None
    if tests:
        s = open('/opt/vp/test.sh').read().replace('cd /repo', 'cd ' + d)
        out = '/tmp/seed_%s.json' % name
        subprocess.run(['bash', '-c', s, 'x', out], capture_output=True)
        o = json.load(open(out)); os.remove(out)
        st = json.load(open('/opt/vp/BASELINE.json'))['stable']
        miss = sorted(set(st) - set(o.get('passed', [])))
    shutil.rmtree(d)
    ok = a[0] == 0 and b[0] != 0 and not miss
    print(name, 'OK' if ok else 'BAD', 'unpatched', a, 'patched', b, 'tests lost', miss, flush=True)

def check(name, tier='quick'):
    d = scratch(name)
    subprocess.check_call(['git', '-C', d, 'apply', os.path.join(SEED, name, 'patch.diff')])
    prop = json.load(open(os.path.join(SEED, name, 'meta.json')))['property']
    env = dict(os.environ, MC_REPO=d)
    r = subprocess.run([os.path.join(V, 'run'), prop, tier], env=env, capture_output=True, text=True, cwd=V)
    v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
    i = r.stdout.find('VIOLATION')
    print(name, prop, 'CAUGHT' if r.returncode == 1 and v else 'MISSED', r.returncode, r.stdout[max(0, i - 300):i + 200] if os.environ.get('V') else '', flush=True)
    shutil.rmtree(d)

if __name__ == '__main__':
    for a in sys.argv[2:]:
        if sys.argv[1] == 'new':
            n = new(a); verify(n); check(n)
        else:
            {'verify': verify, 'check': check}[sys.argv[1]](a)

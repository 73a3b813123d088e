"""Bounded exhaustive exploration engine shared by all checks.

A check is a module checks/cNN.py that defines

    PROP      property id
    LEVEL     evidence level
    spaces(tier) -> list of Space

A Space enumerates a *finite* set of cases (JSON-able values) completely and
decides each of them against a reference model.  Cases are distributed over
forked worker processes by index; nothing is sampled.
"""
import hashlib
import importlib
import json
import mmap
import os
import pickle
import resource
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MC_REPO', '/repo')
SCRATCH = os.environ.get('MC_SCRATCH') or tempfile.mkdtemp(prefix='mc_', dir='/tmp')


class CaseTimeout(BaseException):
    pass


class Violation(Exception):
    """Raised (or returned) by Space.run when the property does not hold."""

    def __init__(self, msg, finding=None, kind=None, case=None):
        Exception.__init__(self, msg)
        self.msg = msg
        self.finding = finding
        self.kind = kind
        self.case = case    # a more precise case than the one being run


class Cx(object):
    """Coverage collector of one worker."""

    def __init__(self):
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.evaluations = 0
        self.nontrivial = 0
        self.traces = 0
        self.counts = {}
        self.samples = []

    def state(self, key):
        self.states.add(hash(key))

    def trans(self, n=1):
        self.transitions += n

    def outcome(self, key):
        self.outcomes.add(hash(key))

    def trace(self, n=1):
        self.traces += n

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n


class Space(object):
    name = 'space'
    bound = ''            # human readable description of alphabet and bound
    timeout = 20.0        # seconds one case may take
    max_violations = 30   # per worker, before the space is abandoned

    def __init__(self, name=None, bound=None):
        if name:
            self.name = name
        if bound:
            self.bound = bound

    def cases(self):
        raise NotImplementedError

    def setup(self):
        """Called once in every worker before the first case."""

    def run(self, case, cx):
        raise NotImplementedError

    def weight(self, case):
        return len(json.dumps(case))


class FnSpace(Space):
    def __init__(self, name, bound, cases, run, setup=None, timeout=None):
        Space.__init__(self, name, bound)
        self._cases = cases
        self._run = run
        self._setup = setup
        if timeout:
            self.timeout = timeout

    def cases(self):
        return self._cases()

    def setup(self):
        if self._setup:
            self._setup()

    def run(self, case, cx):
        return self._run(case, cx)


def known_findings(prop):
    """id -> text of the findings listed as open for this property."""
    path = os.path.join(ROOT, 'KNOWN_FINDINGS.json')
    out = {}
    if os.path.exists(path):
        with open(path) as f:
            for e in json.load(f)['findings']:
                if e.get('status') == 'known' and e['property'] == prop:
                    out[e['id']] = e['what']
    return out


def guarded(space, case, cx):
    """Run one case; return None or a Violation."""
    def onalarm(sig, frame):
        raise CaseTimeout()
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, space.timeout, 1.0)
    try:
        try:
            v = space.run(case, cx)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except CaseTimeout:
        v = Violation('did not terminate within %g s' % space.timeout, kind='hang')
    except Violation as e:
        v = e
    except RecursionError as e:
        v = Violation('RecursionError escaped: ' + str(e)[:100], kind='RecursionError')
    except MemoryError as e:
        v = Violation('MemoryError escaped', kind='hang')
    except Exception as e:
        # an exception raised by the code under test that the harness did not expect
        tb = traceback.extract_tb(e.__traceback__)
        if not any(f.filename.startswith(REPO + os.sep) for f in tb):
            raise
        v = Violation('%s escaped from the implementation: %s\n%s' % (
            type(e).__name__, str(e)[:300], ''.join(traceback.format_list(tb[-4:]))), kind='raise-' + type(e).__name__)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    return v


def quiet():
    """Send the noise plasTeX prints to /dev/null (worker processes only)."""
    import logging
    logging.disable(logging.CRITICAL)
    n = os.open('/dev/null', os.O_WRONLY)
    os.dup2(n, 1)
    os.dup2(n, 2)


def worker(mod, spaces, w, n, seed, outdir, flag, deadline, known):
    quiet()
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    wd = os.path.join(SCRATCH, 'w%d' % w)
    os.makedirs(wd, exist_ok=True)
    os.chdir(wd)
    results = []
    for si, space in enumerate(spaces):
        cx = Cx()
        res = {'space': space.name, 'cx': cx, 'violations': [], 'known': {}, 'complete': True, 'cases': 0,
               'error': None}
        t0 = time.time()
        try:
            space.setup()
            hangs = 0
            i = -1
            for i, case in enumerate(space.cases()):
                if (i + seed) % n != w:
                    continue
                if flag[si]:
                    res['complete'] = False
                    break
                if time.time() > deadline:
                    res['complete'] = False
                    res['capped'] = 'time'
                    break
                cx.evaluations += 1
                v = guarded(space, case, cx)
                if v is None:
                    if len(cx.samples) < 2 and w == 0:
                        cx.samples.append(case)
                    continue
                if v.finding is not None and v.finding in known:
                    k = res['known'].setdefault(v.finding, [0, case, v.msg])
                    k[0] += 1
                    continue
                res['violations'].append((space.name, v.case or case, v.msg, v.kind or v.finding or 'mismatch'))
                if v.kind == 'hang':
                    hangs += 1
                if len(res['violations']) >= space.max_violations or hangs >= 2:
                    flag[si] = 1
                    res['complete'] = False
                    break
            res['cases'] = i + 1
        except Exception:
            res['error'] = traceback.format_exc()
            res['complete'] = False
        res['t'] = time.time() - t0
        results.append(res)
    with open(os.path.join(outdir, 'r%d' % w), 'wb') as f:
        pickle.dump(results, f)


def load(prop):
    return importlib.import_module('checks.' + prop.lower())


def replay(prop, path, verbose=True):
    with open(path) as f:
        data = json.load(f)
    mod = load(prop)
    tier = data.get('tier', 'quick')
    spaces = {s.name: s for s in mod.spaces(tier)}
    space = spaces.get(data['space'])
    if space is None:
        spaces = {s.name: s for s in mod.spaces('thorough')}
        space = spaces[data['space']]
    sys.stdout.flush()
    keep = os.dup(1)
    quiet()
    wd = os.path.join(SCRATCH, 'replay')
    os.makedirs(wd, exist_ok=True)
    os.chdir(wd)
    space.setup()
    v = guarded(space, data['case'], Cx())
    os.dup2(keep, 1)
    if v is None:
        print('replay: property holds on this case')
        return 0
    if v.finding is not None and v.finding in known_findings(prop):
        print('KNOWN-FINDING: property=%s %s' % (prop, v.msg))
        return 0
    print('replay: VIOLATED space=%s\ncase: %s\n%s' % (space.name, json.dumps(data['case'], ensure_ascii=True), v.msg))
    return 1


def main(argv):
    prop = argv[0]
    if len(argv) > 2 and argv[1] == '--replay':
        return replay(prop, os.path.abspath(argv[2]))
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    only = os.environ.get('MC_SPACES')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    mod = load(prop)
    spaces = mod.spaces(tier)
    if only:
        spaces = [s for s in spaces if s.name in only.split(',')]
    known = known_findings(prop)
    n = int(os.environ.get('MC_WORKERS', '8'))
    limit = float(os.environ.get('MC_LIMIT', '700' if tier == 'quick' else '14400'))
    deadline = t0 + limit
    outdir = os.path.join(SCRATCH, 'out')
    os.makedirs(outdir, exist_ok=True)
    flag = mmap.mmap(-1, max(1, len(spaces)))
    pids = []
    sys.stdout.flush()
    for w in range(n):
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                worker(mod, spaces, w, n, seed, outdir, flag, deadline, known)
                code = 0
            except BaseException:
                with open(os.path.join(outdir, 'e%d' % w), 'w') as f:
                    f.write(traceback.format_exc())
            finally:
                os._exit(code)
        pids.append(pid)
    bad = []
    for w, pid in enumerate(pids):
        _, st = os.waitpid(pid, 0)
        if st != 0:
            bad.append((w, st))
    results = []
    for w in range(n):
        p = os.path.join(outdir, 'r%d' % w)
        if os.path.exists(p):
            with open(p, 'rb') as f:
                results.append(pickle.load(f))
        else:
            e = os.path.join(outdir, 'e%d' % w)
            msg = open(e).read() if os.path.exists(e) else 'worker %d died (status %s)' % (w, bad)
            print(msg)
    # ---- merge
    states, outcomes = set(), set()
    transitions = evaluations = traces = 0
    samples, viols, counts, perspace, knownhits, errors = [], [], {}, [], {}, []
    exhaustive = len(results) == n
    for si, sp in enumerate(spaces):
        rs = [r[si] for r in results]
        st, oc = set(), set()
        for r in rs:
            c = r['cx']
            st |= c.states
            oc |= c.outcomes
            transitions += c.transitions
            evaluations += c.evaluations
            traces += c.traces
            for k, v in c.counts.items():
                counts[k] = counts.get(k, 0) + v
            samples += [{'space': sp.name, 'case': s} for s in c.samples]
            viols += r['violations']
            if r['error']:
                errors.append(r['error'])
            for k, (cnt, case, msg) in r['known'].items():
                kk = knownhits.setdefault(k, [0, case, msg])
                kk[0] += cnt
            if not r['complete']:
                exhaustive = False
        states |= {hash((si, x)) for x in st}
        outcomes |= {hash((si, x)) for x in oc}
        perspace.append({'space': sp.name, 'bound': sp.bound, 'cases': sum(r['cx'].evaluations for r in rs),
                         'states': len(st), 'distinct_outcomes': len(oc),
                         'transitions': sum(r['cx'].transitions for r in rs),
                         'complete': all(r['complete'] for r in rs),
                         'cpu_s': round(sum(r.get('t', 0) for r in rs), 1)})
    # ---- report
    confirmed, unconfirmed = [], 0
    rdir = os.path.join(ROOT, 'replays')
    viols.sort(key=lambda v: (len(json.dumps(v[1])), json.dumps(v[1], sort_keys=True)))
    bykind, order = {}, []
    for v in viols:
        k = (v[0], v[3])
        bykind.setdefault(k, []).append(v)
    # round robin over kinds so that distinct failures are all confirmed
    while any(bykind.values()):
        for k in list(bykind):
            if bykind[k]:
                order.append(bykind[k].pop(0))
    tconf = time.time()
    for v in order:
        if len(confirmed) >= 4 or unconfirmed >= 12 or (confirmed and time.time() - tconf > 60):
            break
        os.makedirs(rdir, exist_ok=True)
        data = {'property': prop, 'tier': tier, 'space': v[0], 'case': v[1], 'message': v[2]}
        h = hashlib.sha1(json.dumps(data, sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(rdir, '%s-%s.json' % (prop, h))
        with open(path, 'w') as f:
            json.dump(data, f, indent=1)
        env = dict(os.environ)
        env['MC_SCRATCH'] = os.path.join(SCRATCH, 'rp' + h)
        os.makedirs(env['MC_SCRATCH'], exist_ok=True)
        try:
            p = subprocess.run([sys.executable, os.path.join(ROOT, 'mc', 'run.py'), prop, '--replay', path],
                               env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = 1
        if rc == 1:
            confirmed.append((v, path))
        elif rc == 0:
            unconfirmed += 1
            if os.environ.get('MC_DEBUG'):
                print('unconfirmed', v[0], v[2][:1500])
            os.unlink(path)
        else:
            errors.append('replay of %s failed: %s' % (path, p.stderr.decode('utf8', 'replace')[-2000:]))
    for k, (cnt, case, msg) in sorted(knownhits.items()):
        print('KNOWN-FINDING: property=%s %s [%s, %d cases, e.g. %s]' % (
            prop, known[k], k, cnt, json.dumps(case)[:200]))
    for v, path in confirmed:
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('  space=%s case=%s' % (v[0], json.dumps(v[1])[:600]))
        print('  ' + v[2].replace('\n', '\n  ')[:1500])
    if unconfirmed:
        print('note: %d candidate(s) did not reproduce in a fresh process (history dependent) and are not '
              'violations of this property' % unconfirmed)
    wall = round(time.time() - t0, 2)
    level = getattr(mod, 'LEVEL', 'model_checking')
    cov = {'evaluations': evaluations, 'distinct_nontrivial': len(outcomes),
           'rule': getattr(mod, 'RULE', 'every case of every listed finite space is executed once; non-trivial = '
                                        'distinct observed outcome of the implementation'),
           'samples': samples[:12], 'exhaustive': bool(exhaustive and not errors),
           'states': len(states), 'transitions': transitions, 'traces_validated_against_impl': traces,
           'spaces': perspace, 'counts': counts,
           'known_findings_hit': {k: v[0] for k, v in knownhits.items()},
           'unconfirmed_candidates': unconfirmed}
    ev = {'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': level,
          'coverage': cov, 'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])), 'wall_s': wall,
          'violations': len(confirmed)}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for s in perspace:
        print('space %-22s cases=%-8d states=%-8d transitions=%-9d outcomes=%-8d %s cpu=%ss' % (
            s['space'], s['cases'], s['states'], s['transitions'], s['distinct_outcomes'],
            'complete' if s['complete'] else 'INCOMPLETE', s['cpu_s']))
    print('%s %s: %d cases, %d states, %d transitions, %d implementation traces, %d violation(s), %.1f s' % (
        prop, tier, evaluations, len(states), transitions, traces, len(confirmed), wall))
    if confirmed:
        return 1
    if errors or len(results) != n:
        for e in errors[:3]:
            print('ERROR', e)
        return 2
    return 0

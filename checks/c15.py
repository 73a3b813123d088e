"""C15: the filename generator against a reference generator working on the template's syntax tree."""
import itertools

from mc import plas
from mc.core import FnSpace, Violation
from plasTeX.Filenames import Filenames

PROP = 'C15'
LEVEL = 'model_checking'
RULE = ('a case is (template tree, spelling, forbidden characters, reserved names, extension, request sequence); '
        'distinct_nontrivial counts distinct issued-name sequences')
ASSUMPTIONS = [
    'variables adjacent to an underscore or word character are written ${name} (as string.Template requires)',
    'variable values are strings; no candidate is the empty string; the substitute contains no forbidden character',
    'after a reported error the caller starts the next request from a clean namespace',
]

# A template is {'static': [parts...], 'pre': parts, 'alts': [parts...], 'post': parts}; parts is a list of strings
# (text) and [var, width] pairs.


def spell(parts, style):
    out = ''
    for i, p in enumerate(parts):
        if isinstance(p, str):
            out += p
            continue
        v, w = p
        nxt = parts[i + 1] if i + 1 < len(parts) else ''
        # `style` decides for variables followed by nothing word-like
        brace = style == 1 or (isinstance(nxt, str) and nxt[:1] and (nxt[0].isalnum() or nxt[0] in '_(') and w is None)
        if brace and style == 1:
            out += '${ %s }' % v
        elif brace:
            out += '${%s}' % v
        else:
            out += '$' + v
        if w is not None:
            out += ('( %d )' if style == 1 else '(%d)') % w
    return out


def template(t, style):
    names = [spell(s, style) for s in t['static']]
    if t['alts']:
        sep = [', ', ' , ', ','][style]
        lb, rb = ['[', '[ ', '['][style], [']', ' ]', ']'][style]
        pre = list(t['pre'])
        names.append(spell(pre + ([''] if pre else []), style) + lb + sep.join(spell(a, style) for a in t['alts']) + rb +
                     spell(t['post'], style))
    return ' '.join(names)


class Model(object):
    def __init__(self, t, bad, sub, reserved, ext, init):
        self.static = [list(s) for s in t['static']]
        if t['alts']:
            self.alts = [list(t['pre']) + list(a) + list(t['post']) for a in t['alts']]
        else:
            self.alts = [self.static.pop()] if self.static else []
        self.bad, self.sub, self.ext, self.init = bad, sub, ext, dict(init)
        self.taken = set(reserved)
        self.num = 1

    def clean(self, v):
        return ''.join(self.sub if c in self.bad else c for c in v)

    def cand(self, parts, ns):
        out, hasnum = '', False
        for p in parts:
            if isinstance(p, str):
                out += p
            elif p[0] == 'num':
                hasnum = True
                out += str(self.num).rjust(p[1] or 0, '0')
            else:
                if p[0] not in ns:
                    return None, False
                v = ns[p[0]]
                if p[1] is not None:
                    v = ' '.join(v.split()[:p[1]])
                out += self.clean(v)
        base = out.rsplit('/', 1)[-1]
        if '.' not in base.lstrip('.'):
            out += self.ext
        return out, hasnum

    def request(self, binding):
        ns = dict(self.init)
        ns.update(binding)
        while self.static:
            name, hasnum = self.cand(self.static.pop(0), ns)
            if name is None:
                continue
            if hasnum:
                self.num += 1
            if name not in self.taken:
                self.taken.add(name)
                return name
        for _ in range(60):
            progress = False
            for a in self.alts:
                name, hasnum = self.cand(a, ns)
                if name is None:
                    continue
                if hasnum:
                    self.num += 1
                    progress = True
                if name not in self.taken:
                    self.taken.add(name)
                    return name
            if not progress:
                return None
        raise AssertionError('model bound')

    def key(self):
        return (len(self.static), self.num, tuple(sorted(self.taken)))


INIT = {'jobname': 'job'}


def run(case, cx):
    ti, style, bad, sub, reserved, ext, reqs = case
    t = ti
    spec = template(t, style)
    m = Model(t, bad, sub, reserved, ext, INIT)
    f = Filenames(spec, (bad, sub) if bad else None, dict(INIT), ext, {r: None for r in reserved} if reserved else None)
    got, exp = [], []
    failed = False
    for b in reqs:
        if failed:
            f.variables.clear()
            f.variables.update(INIT)
        f.variables.update(b)
        e = m.request(b)
        exp.append(e)
        cx.state(m.key())
        cx.trans()
        try:
            g = f()
            failed = False
            if not isinstance(g, str):
                return Violation('template %r request %r returned %r (names so far %r)' % (spec, b, g, got))
            if '$' in g or '{' in g:
                pass
        except ValueError:
            g = None
            failed = True
        except Exception as ex:
            return Violation('template %r, requests %r raised %s: %s' % (spec, reqs, type(ex).__name__, ex),
                             kind='raise-' + type(ex).__name__)
        got.append(g)
        if g is not None and (got.count(g) > 1 or g in reserved):
            return Violation('template %r, requests %r: name %r issued twice or reserved (%r)' % (spec, reqs, g, got))
        if g != e:
            return Violation('template %r, bad %r->%r, reserved %r, ext %r, requests %r\n expected %r\n got      %r' % (
                spec, bad, sub, reserved, ext, reqs, exp, got))
    cx.trace()
    cx.outcome(tuple(got))
    return None


V = lambda n, w=None: [n, w]
ALTS = [[V('id')], [V('title')], [V('title', 2)], ['sect', V('num')], ['sect', V('num', 3)], [V('ref'), '-', V('id')],
        ['x', V('id'), 'y'], ['const'], [V('num', 4), '-', V('title', 1)]]
STATICS = [[], [['index']], [['index'], ['toc.html']], [[V('id')]], [['s', V('num', 2)], ['index']], [['index'], [V('jobname')]],
           [['c', V('num')], ['c', V('num')], [V('title', 1)]]]
PREPOST = [([], []), (['p-'], []), ([], ['.xml']), ([V('jobname'), '-'], ['-z']), (['d/'], ['.'])]
REQ = [{}, {'id': 'a'}, {'id': 'b'}, {'title': 'One  Two Three'}, {'id': 'a', 'title': 'x:y z'}, {'ref': '1.2', 'id': 'a', 'title': 'a'}]
BADS = [('', '-'), (': ', '-'), (': .', '_')]


def mk(static, pre, alts, post):
    return {'static': static, 'pre': pre, 'alts': alts, 'post': post}


def templates(maxalts):
    for st in STATICS:
        for pp in PREPOST:
            for k in range(1, maxalts + 1):
                for a in itertools.permutations(ALTS, k):
                    yield mk(st, pp[0], list(a), pp[1])
        if st:
            yield mk(st, [], [], [])


def seqs(menu, n):
    return itertools.product(menu, repeat=n)


def main_cases(tier):
    q = tier == 'quick'
    # all templates (<= 2 alternatives) x all request sequences of length 3 over 5 bindings
    for t in templates(2):
        if t['pre'] == ['d/'] and not q:
            continue
        for r in seqs([REQ[0], REQ[1], REQ[3], REQ[4]] if q else REQ, 3):
            yield [t, 0, ': ', '-', [], '.html', list(r)]


def alts_cases(tier):
    # 3 and 4 alternatives, no static names
    q = tier == 'quick'
    for k in (3, 4):
        pool = ALTS if k == 3 else ALTS[:7 if not q else 5]
        for a in itertools.permutations(pool, k):
            for r in seqs([REQ[1], REQ[3], REQ[5]] if q else REQ, 3):
                yield [mk([['index']], [], list(a), []), 0, ' ', '-', [], '.html', list(r)]


def env_cases(tier):
    # spelling x forbidden characters x reserved names x extension
    wild = [[[V('id')], ['sect', V('num', 4)]], [[V('title', 2)], ['sect', V('num')]], [[V('id')], [V('title')]],
            [['sect', V('num', 2)], [V('id')]], [[V('title')]]]
    res = [[], ['index.html'], ['a.html', 'sect1.html', 'sect0001.html'], ['sect01.html', 'sect02.html', 'sect03.html', 'a'],
           ['sect%04d.html' % i for i in range(1, 12)]]
    for st in STATICS[:5]:
        for w in wild:
            for style in (0, 1, 2):
                for bad, sub in BADS:
                    for rv in res:
                        for ext in ('.html', ''):
                            for r in seqs([REQ[0], REQ[1], REQ[4]], 3):
                                yield [mk(st, [], w, []), style, bad, sub, rv, ext, list(r)]


def long_cases(tier):
    q = tier == 'quick'
    wild = [[[V('id')], ['sect', V('num', 4)]], [[V('id')], [V('title')], ['s', V('num')]], [[V('title', 1)], [V('id')]]]
    for w in wild:
        for menu in ([REQ[0], REQ[1]], [REQ[1], REQ[4]]):
            for r in seqs(menu, 10 if q else 12):
                yield [mk([['index']], [], w, []), 0, ' ', '-', ['sect0003.html'], '.html', list(r)]


def giveup_cases(tier):
    # many requests before and many taken names: the give-up bound may not be reached while fresh names exist
    wild = [[['sect', V('num', 4)]], [[V('id')], ['sect', V('num')]]]
    for w in wild:
        for n in list(range(0, 12)) + [98, 99, 100, 101, 102, 130]:
            for rv in ([], ['sect%04d.html' % (n + 1)], ['sect%d.html' % i for i in range(n, n + 5)],
                       ['sect%04d.html' % i for i in range(n, n + 5)]):
                yield [mk([], [], w, []), 0, '', '-', rv, '.html', [{}] * (n + 3)]
    for n in (1, 2, 3, 5):
        for w in ([[V('id')]], [['const']], [[V('title', 2)], [V('id')]]):
            for tail in ({'id': 'b'}, {'title': 'q r'}, {}):
                yield [mk([], [], w, []), 0, ' ', '-', [], '.html', [{'id': 'a'}] * n + [tail, {'id': 'c'}]]


def numbered_cases(tier):
    # two or three numbered alternatives x every set of reserved candidates
    q = tier == 'quick'
    names = ['x1.html', 'x2.html', 'x3.html', 'y1.html', 'y2.html', 'y3.html', 'a-1.html', 'a-2.html']
    wild = [[['x', V('num')], ['y', V('num')]], [['x', V('num')], ['y', V('num')], [V('id')]],
            [[V('id'), '-', V('num')], ['x', V('num')], ['y', V('num')]], [[V('id')], ['x', V('num')], ['y', V('num')]],
            [['y', V('num')], [V('id'), '-', V('num')]]]
    for w in wild:
        for st in STATICS[:2] + [[['x', V('num')]]]:
            for k in range(len(names) + 1):
                for rv in itertools.combinations(names, k):
                    for r in ([[{}] * 5] if q else []) + list(seqs([REQ[0], REQ[1]], 3 if q else 5)):
                        yield [mk(st, [], w, []), 0, '', '-', list(rv), '.html', list(r)]


VALUES = ['', ' ', 'a', 'a b', ' a  b ', 'a b c', 'a:b c', ':', 'a.b', '$x', 'a/b', '\u00e9 b']


def value_cases(tier):
    for v in VALUES:
        for v2 in VALUES[2:6]:
            for w in (None, 0, 1, 2, 5):
                for bad, sub in BADS + [('$/:', '')]:
                    for ext in ('.html', ''):
                        t = mk([], ['n'], [[V('title', w)], ['f', V('num', w)]], [])
                        yield [t, 0, bad, sub, [], ext, [{'title': v}, {'title': v2}, {}, {'title': v}]]


def spaces(tier):
    q = tier == 'quick'
    return [
        FnSpace('templates', 'static lists (7) x prefix/suffix (5) x ordered alternatives (<=2 of 9) x all request sequences of length 3',
                lambda: main_cases(tier), run),
        FnSpace('alternatives', '3-4 ordered alternatives x request sequences of length 3', lambda: alts_cases(tier), run),
        FnSpace('environment', 'spellings x forbidden characters x reserved names x extension', lambda: env_cases(tier), run),
        FnSpace('long', 'all request sequences of length %d over two bindings' % (10 if q else 12), lambda: long_cases(tier), run),
        FnSpace('giveup', 'long request histories against reserved names; errors and recovery', lambda: giveup_cases(tier), run),
        FnSpace('numbered', 'several numbered alternatives x every set of reserved candidates x request sequences',
                lambda: numbered_cases(tier), run),
        FnSpace('values', 'variable values x word limits x forbidden characters', lambda: value_cases(tier), run),
    ]

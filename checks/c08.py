r"""C08: automatic numbers.

A document is a list of operations over numbered constructs and counter
commands.  `Model` is an independent account of LaTeX's counter rules
(latex.ltx, article.cls, book.cls); every document of the listed bounded
families is given to the parser, and the number of every numbered object in
document order, the text printed by every probe and the final value of every
counter are compared with the model.
"""
import itertools

from mc import plas
from mc.core import FnSpace, Violation

PROP = 'C08'
LEVEL = 'model_checking'
RULE = ('a state is a configuration of all counters of the model; a transition is one operation of a document; '
        'distinct_nontrivial counts distinct (document family, sequence of numbers) pairs')
ASSUMPTIONS = [
    'the numbering depth is the configured sec-num-depth (default 2 in every class), as the property says',
    'footnotes are numbered per output file by plasTeX, by design, and are not in the property\'s list',
    'the numbers of enumerate items are compared as 1, 2, 3, ... at every nesting level, as the property says, not as a, b, c',
    r'\part is not among the listed objects: its counter is checked, its Roman representation is not',
    r'values outside the range of a representation (Alph of 0 or 27, roman of 0 or below) are not generated; neither are a negative chapter or section number',
    'documents LaTeX itself rejects (unknown counters, counters declared twice) are not generated',
]

LEVELS = {'part': -1, 'chapter': 0, 'section': 1, 'subsection': 2, 'subsubsection': 3, 'paragraph': 4, 'subparagraph': 5}
SECTIONS = list(LEVELS)


class Skip(Exception):
    pass


def roman(n):
    if n < 1:
        raise Skip()
    out = 'm' * (n // 1000)
    n %= 1000
    for five, ten, one, unit in (('d', 'm', 'c', 100), ('l', 'c', 'x', 10), ('v', 'x', 'i', 1)):
        d, n = divmod(n, unit)
        out += {0: '', 1: one, 2: one * 2, 3: one * 3, 4: one + five, 5: five, 6: five + one, 7: five + one * 2, 8: five + one * 3, 9: one + ten}[d]
    return out


def alph(n):
    if not 1 <= n <= 26:
        raise Skip()
    return 'abcdefghijklmnopqrstuvwxyz'[n - 1]


REPS = {'arabic': str, 'roman': roman, 'Roman': lambda n: roman(n).upper(), 'alph': alph, 'Alph': lambda n: alph(n).upper()}


class Model(object):
    """LaTeX's counters."""

    def __init__(self, cls, depth):
        self.cls = cls
        self.depth = depth
        self.val = {}
        self.kids = {}
        self.fmt = {}
        self.frames = []
        self.out = []
        self.trace = []
        self.lists = []
        for c in ('part', 'section', 'subsection', 'subsubsection', 'paragraph', 'subparagraph', 'equation', 'figure', 'table',
                  'enumi', 'enumii', 'enumiii', 'enumiv'):
            self.val[c] = 0
        chain = ['section', 'subsection', 'subsubsection', 'paragraph', 'subparagraph']
        if cls in ('book', 'report'):
            self.val['chapter'] = 0
            chain.insert(0, 'chapter')
            for c in ('equation', 'figure', 'table'):
                self.kids.setdefault('chapter', []).append(c)
                self.fmt[c] = [('ifpos', 'chapter', [('the', 'chapter'), '.']), ('rep', 'arabic', c)]
        for a, b in zip(chain, chain[1:]):
            self.kids.setdefault(a, []).append(b)
            self.fmt[b] = [('the', a), '.', ('rep', 'arabic', b)]
        self.thms = {}

    def state(self):
        return tuple(sorted(self.val.items()))

    # representations
    def the(self, c):
        return self.show(self.fmt.get(c) or [('rep', 'arabic', c)])

    def show(self, parts):
        out = ''
        for p in parts:
            if isinstance(p, str):
                out += p
            elif p[0] == 'the':
                out += self.the(p[1])
            elif p[0] == 'rep':
                out += REPS[p[1]](self.val[p[2]])
            elif p[0] == 'ifpos' and self.val[p[1]] > 0:
                out += self.show(p[2])
        return out

    # operations
    def new(self, c, within=None):
        if c in self.val or within and within not in self.val:
            raise Skip()
        self.val[c] = 0
        if within:
            self.kids.setdefault(within, []).append(c)

    def reset(self, c):
        for k in self.kids.get(c, ()):
            self.val[k] = 0
            self.reset(k)

    def step(self, c):
        self.val[c] += 1
        self.reset(c)

    def number(self, kind, c):
        self.step(c)
        self.out.append((kind, self.the(c)))

    def section(self, name, star):
        if name not in self.val:
            raise Skip()
        if star or LEVELS[name] > self.depth:
            self.out.append(('sec', None))
        else:
            self.step(name)
            self.out.append(('sec', None if name == 'part' else self.the(name)))

    def newtheorem(self, name, kind, other):
        """kind: own, shared (with theorem other), within (counter other), star"""
        if name in self.thms:
            raise Skip()
        if kind == 'star':
            self.thms[name] = None
        elif kind == 'shared':
            if other not in self.val:
                raise Skip()
            self.thms[name] = other
        else:
            self.new(name, other if kind == 'within' else None)
            self.thms[name] = name
            if kind == 'within':
                self.fmt[name] = [('the', other), '.', ('rep', 'arabic', name)]

    def theorem(self, name):
        if name not in self.thms:
            raise Skip()
        c = self.thms[name]
        if c is None:
            self.out.append(('thmenv', None))
        else:
            self.number('thmenv', c)

    def eqnarray(self, rows, star, trailing):
        if star:
            self.out += [('row', None)] * len(rows)
            return
        for r in rows:
            if r.isupper():
                self.out.append(('row', None))
            else:
                self.number('row', 'equation')
        if trailing:
            # LaTeX prints one more number, on an empty line, which plasTeX
            # drops; the counter is stepped all the same
            self.step('equation')

    def item(self, term):
        if not self.lists:
            raise Skip()
        if self.lists[-1] != 'enumerate':
            return
        if term:
            self.out.append(('item', None))
            return
        c = 'enum' + 'i ii iii iv'.split()[self.lists.count('enumerate') - 1]
        self.step(c)
        self.out.append(('item', str(self.val[c])))

    def begin(self, kind):
        self.lists.append(kind)
        if self.lists.count(kind) > 4 or len(self.lists) > 6:
            raise Skip()
        if kind == 'enumerate':
            self.val['enum' + 'i ii iii iv'.split()[self.lists.count('enumerate') - 1]] = 0

    def end(self):
        if not self.lists:
            raise Skip()
        return self.lists.pop()

    def appendix(self):
        if self.cls == 'article':
            self.val['section'] = self.val['subsection'] = 0
            self.fmt['section'] = [('rep', 'Alph', 'section')]
        else:
            self.val['chapter'] = self.val['section'] = 0
            self.fmt['chapter'] = [('rep', 'Alph', 'chapter')]


# ---- operations: (source, effect) ------------------------------------------------

def fmtsource(parts):
    out = ''
    for p in parts:
        out += p if isinstance(p, str) else r'\the%s{}' % p[1] if p[0] == 'the' else r'\%s{%s}' % (p[1], p[2])
    return out


ROWENDS = {'n': 'a&=&b', 'N': r'a&=&b\nonumber ', 'M': r'\nonumber a&=&b', 'K': r'a&=\nonumber&b\nonumber', 'P': r'a\notag&=&b', 'l': r'\lefteqn{a}&&b',
           'a': r'\begin{array}{c}x\\y\end{array}&=&b', 'A': r'\begin{array}{c}x\\y\end{array}&=&b\nonumber'}


def apply(m, op, mark=lambda kind: ''):
    """Apply one operation to the model, return its LaTeX source."""
    k = op[0]
    a = op[1:]
    if k in SECTIONS:
        star = a == ['*']
        m.section(k, star)
        return '\\%s%s{T}' % (k, '*' if star else '') + mark('sec') + ' x\n'
    if k == 'eq':
        m.number('equation', 'equation')
        return r'\begin{equation}a' + mark('equation') + '\\end{equation}\n'
    if k == 'eqn':
        rows, star, trailing = a
        m.eqnarray(rows, star, trailing)
        src = ''
        for i, r in enumerate(rows):
            src += ROWENDS[{'s': 'n', 'S': 'N', 'o': 'n'}.get(r, r)]
            if not star and not r.isupper():
                src += mark('row')
            if i < len(rows) - 1 or trailing:
                src += {'s': r'\\*', 'S': r'\\*', 'o': r'\\[2pt]'}.get(r, r'\\') + '\n'
        name = 'eqnarray*' if star else 'eqnarray'
        return '\\begin{%s}%s\\end{%s}\n' % (name, src, name)
    if k == 'eqx':
        # amsmath: no number at all
        m.out.append(('equation', None))
        return {'n': '\\begin{equation}a\\nonumber\\end{equation}\n', 's': '\\begin{equation}\\begin{split}a&b\\\\c&d\\end{split}\\nonumber\\end{equation}\n'}[a[0]]
    if k == 'eqs':
        m.number('equation', 'equation')
        return '\\begin{equation}\\begin{split}a&b\\\\c&d\\end{split}' + mark('equation') + '\\end{equation}\n'
    if k in ('fig', 'tab'):
        env = {'fig': 'figure', 'tab': 'table'}[k]
        src = ''
        star = a[1:] == ['*']
        for c in a[0]:
            if c == '*':
                m.out.append(('caption', None))
                src += '\\caption*{C}'
            else:
                m.number('caption', env)
                src += '\\caption{C}' + mark('caption') if c == 'c' else '\\caption[s]{C}' + mark('caption')
        env += '*' if star else ''
        return '\\begin{%s}%s\\end{%s}\n' % (env, src, env)
    if k == 'tabular':
        m.number('caption', 'table')
        return '\\begin{table}\\begin{tabular}{c}a\\\\b\\end{tabular}\\caption{C}' + mark('caption') + '\\end{table}\n'
    if k == 'thm':
        m.theorem(a[0])
        return '\\begin{%s}x%s\\end{%s}\n' % (a[0], mark('thmenv') if m.out[-1][1] else '', a[0])
    if k == 'thm(':
        m.theorem(a[0])
        m.frames.append(('thm', a[0], dict(m.fmt)))
        return '\\begin{%s}[o]x%s ' % (a[0], mark('thmenv') if m.out[-1][1] else '')
    if k == 'begin':
        m.begin(a[0])
        m.frames.append(('list', a[0], dict(m.fmt)))
        return '\\begin{%s}\n' % a[0]
    if k == '{':
        m.frames.append(('group', None, dict(m.fmt)))
        return '{'
    if k == 'end':
        if not m.frames:
            raise Skip()
        t, name, fmt = m.frames.pop()
        if t == 'list':
            m.end()
        m.fmt = fmt
        return '}' if t == 'group' else '\\end{%s}\n' % name
    if k == 'item':
        if not m.frames or m.frames[-1][0] != 'list':
            raise Skip()
        m.item(a == ['t'])
        return '\\item' + ('[t]' if a == ['t'] else '') + ' x' + (mark('item') if m.lists[-1] == 'enumerate' and not a else '') + '\n'
    if k == 'appendix':
        m.appendix()
        return '\\appendix\n'
    if k == 'step':
        m.val[a[0]]
        m.step(a[0])
        return '\\stepcounter{%s}' % a[0]
    if k == 'refstep':
        m.step(a[0])
        return '\\refstepcounter{%s}' % a[0]
    if k == 'set':
        m.val[a[0]]
        v = a[1]
        m.val[a[0]] = m.val[v] if isinstance(v, str) else v
        return '\\setcounter{%s}{%s}' % (a[0], '\\value{%s}' % v if isinstance(v, str) else v)
    if k == 'add':
        m.val[a[0]]
        v = a[1]
        m.val[a[0]] += m.val[v] if isinstance(v, str) else v
        return '\\addtocounter{%s}{%s}' % (a[0], '\\value{%s}' % v if isinstance(v, str) else v)
    if k == 'print':
        m.out.append(('emph', '(' + m.the(a[0]) + ')'))
        return '\\emph{(\\the%s)%s}' % (a[0], mark('emph'))
    if k == 'rep':
        m.out.append(('emph', '(' + REPS[a[0]](m.val[a[1]]) + ')'))
        return '\\emph{(\\%s{%s})%s}' % (a[0], a[1], mark('emph'))
    if k == 'newcounter':
        m.new(*a)
        return '\\newcounter{%s}' % a[0] + ('[%s]' % a[1] if len(a) > 1 else '')
    if k == 'renew':
        m.val[a[0]]
        m.fmt[a[0]] = [tuple(p) if isinstance(p, list) else p for p in a[1]]
        return '\\renewcommand{\\the%s}{%s}' % (a[0], fmtsource(m.fmt[a[0]]))
    if k == 'newthm':
        name, kind, other = a
        m.newtheorem(name, kind, other)
        return {'own': '\\newtheorem{%s}{T}', 'star': '\\newtheorem*{%s}{T}', 'shared': '\\newtheorem{%s}[%s]{T}', 'within': '\\newtheorem{%s}{T}[%s]'}[kind] % (
            (name,) if kind in ('own', 'star') else (name, other)) + '\n'
    if k == 'numberwithin':
        c, within = a
        m.val[c], m.val[within]
        for kids in m.kids.values():
            if c in kids:
                kids.remove(c)
        m.kids.setdefault(within, []).append(c)
        m.fmt[c] = [('the', within), '.', ('rep', 'arabic', c)]
        return '\\numberwithin{%s}{%s}\n' % (c, within)
    if k == 'par':
        return '\n\n'
    raise ValueError(op)


def build(case, mark=None):
    """Model and source of a document, or None if it is not a document of the family."""
    m = Model(case['cls'], case.get('depth', 2))
    states = [m.state()]
    n = [0]

    def mk(kind):
        return mark(len(m.out) - 1) if mark else ''
    try:
        pre = ''
        for op in case.get('pre', []):
            pre += apply(m, op)
        body = ''
        for op in case['ops']:
            body += apply(m, op, mk if mark else (lambda kind: ''))
            states.append(m.state())
            if any(m.val[c] < 0 for c in ('chapter', 'section', 'part', 'equation', 'figure') if c in m.val):
                return None
        for op in case.get('tail', []):
            body += apply(m, op, mk if mark else (lambda kind: ''))
            states.append(m.state())
    except Skip:
        return None
    except KeyError:
        return None
    if m.frames:
        return None
    src = '\\documentclass{%s}\n%s%s\\begin{document}\n%s\\end{document}\n' % (case['cls'], ''.join('\\usepackage{%s}\n' % p for p in case.get('pkgs', [])), pre, body)
    return m, src, states


def reftext(node):
    r = getattr(node, 'ref', None)
    if r is None:
        return None
    return (r.textContent if hasattr(r, 'textContent') else str(r)) or None


def collect(doc):
    out = []

    def walk(n):
        for c in n.childNodes or []:
            if c.nodeType != 1:
                continue
            k = c.nodeName
            if k in LEVELS:
                out.append(('sec', None if k == 'part' else reftext(c)))
            elif k == 'equation':
                out.append((k, reftext(c)))
            elif k == 'ArrayRow' and c.parentNode is not None and c.parentNode.nodeName in ('eqnarray', 'eqnarray*'):
                out.append(('row', reftext(c)))
            elif k == 'caption' or k == 'thmenv':
                out.append((k, reftext(c)))
            elif k == 'item' and c.parentNode is not None and c.parentNode.nodeName == 'enumerate':
                out.append((k, reftext(c)))
            elif k == 'emph':
                out.append((k, c.textContent.strip()))
            walk(c)
    walk(doc)
    return out


def run(case, cx):
    b = build(case)
    if b is None:
        return None
    m, src, states = b
    for s in states:
        cx.state(s)
    cx.trans(len(states) - 1)
    cx.trace()
    cfg = None
    if 'depth' in case:
        from plasTeX.Config import defaultConfig
        cfg = defaultConfig()
        cfg['document']['sec-num-depth'] = case['depth']
    try:
        doc = plas.parse(src, cfg)
        got = collect(doc)
    except Exception as e:
        return Violation('parsing raised %s: %s\n%s' % (type(e).__name__, e, src), kind='raise:' + type(e).__name__)
    want = m.out
    cx.outcome((case['fam'], tuple(want)))
    if got != want:
        i = 0
        while i < min(len(got), len(want)) and got[i] == want[i]:
            i += 1
        g = got[i] if i < len(got) else None
        w = want[i] if i < len(want) else None
        return Violation('object %d of the document: LaTeX gives %r, plasTeX %r\n%s\nwant %r\ngot  %r' % (i, w, g, src, want, got), kind='number:%s' % (w or g)[0])
    counters = doc.context.counters
    for c, v in sorted(m.val.items()):
        g = counters[c].value if c in counters else None
        if g != v:
            return Violation('counter %s ends as %r, LaTeX gives %r\n%s' % (c, g, v, src), kind='counter:' + c)
    return None


# ---- families ----------------------------------------------------------------------

def docs(fam, cls, alphabet, n, pre=(), tail=(), **kw):
    for ops in itertools.product(alphabet, repeat=n):
        case = dict(fam=fam, cls=cls, pre=list(pre), ops=[o for op in ops for o in (op if isinstance(op[0], list) else [op])], tail=list(tail))
        case.update(kw)
        if build(case) is not None:
            yield case


THMS = [['newcounter', 'za', 'section'], ['newcounter', 'zb', 'za'], ['newthm', 'thm', 'own', ''], ['newthm', 'lem', 'shared', 'thm'],
        ['newthm', 'prp', 'within', 'section'], ['newthm', 'crl', 'within', 'prp'], ['newthm', 'rem', 'star', '']]
TAIL = [['section'], ['subsection'], ['eq'], ['thm', 'thm'], ['thm', 'prp'], ['thm', 'crl'], ['fig', 'c'], ['print', 'zb']]

ENUM2 = [['begin', 'enumerate'], ['item'], ['begin', 'enumerate'], ['item'], ['end'], ['item'], ['end']]


def history(tier, cls):
    al = [['section'], ['section', '*'], ['subsection'], ['subsubsection'], ['eq'], ['eqn', 'nNn', False, False], ['eqn', 'nn', True, False], ['fig', 'c'], ['tab', 'cc'],
          ['thm', 'lem'], ['thm', 'prp'], ['thm', 'crl'], ['thm', 'rem'], ['step', 'section'], ['set', 'section', 4], ['set', 'prp', 'equation'],
          ['add', 'equation', 3], ['add', 'section', -1], ['step', 'za'], ['refstep', 'zb'], ['set', 'za', 7], ['appendix'], ENUM2,
          ['renew', 'equation', [['the', 'section'], '-', ['rep', 'roman', 'equation']]],
          ['renew', 'prp', [['rep', 'Alph', 'prp']]]]
    if cls != 'article':
        al[:1] = [['chapter'], ['chapter', '*'], ['section'], ['part'], ['step', 'chapter'], ['set', 'chapter', 2]]
    for n in ((2, 3) if tier != 'quick' else (2,)):
        yield from docs('history-' + cls, cls, al, n, THMS, TAIL)
    if tier == 'quick':
        # every third operation after a fixed alphabet of two that matter most
        core = [['section'], ['subsection'], ['eq'], ['thm', 'prp'], ['thm', 'crl'], ['set', 'section', 4], ['step', 'za'], ['appendix'], ['refstep', 'zb']]
        if cls != 'article':
            core = [['chapter'], ['section'], ['eq'], ['thm', 'prp'], ['fig', 'c'], ['set', 'chapter', 2], ['step', 'za'], ['appendix']]
        yield from docs('history-' + cls, cls, core, 3, THMS, TAIL)
        if cls == 'book':
            yield from docs('history-report', 'report', core, 2, THMS, TAIL)


def hierarchy(tier):
    """User counters za < zb < zc and za < zd."""
    pre = [['newcounter', 'za'], ['newcounter', 'zb', 'za'], ['newcounter', 'zc', 'zb'], ['newcounter', 'zd', 'za'],
           ['renew', 'zb', [['the', 'za'], '.', ['rep', 'arabic', 'zb']]], ['renew', 'zc', [['the', 'zb'], '.', ['rep', 'arabic', 'zc']]]]
    al = [['step', 'za'], ['step', 'zb'], ['step', 'zc'], ['step', 'zd'], ['refstep', 'za'], ['set', 'za', 3], ['set', 'zb', 'zc'], ['add', 'za', -2], ['add', 'zb', 'zd'], ['add', 'zc', 5]]
    tail = [['print', 'zc'], ['print', 'zd'], ['step', 'zc'], ['print', 'zc']]
    yield from docs('hierarchy', 'article', al, 3 if tier == 'quick' else 4, pre, tail)


def listdocs(tier):
    """All lists of bounded size, nested in each other."""
    items = [['item'], ['item', 't']]
    n = 8 if tier == 'quick' else 9

    def grow(seq, stack, size):
        if not stack and seq:
            yield list(seq)
        if size == 0:
            return
        opts = []
        if stack:
            opts += [['item']]
            if stack[-1] == 'enumerate':
                opts += [['item', 't'], ['set', 'enumi', 4]] if tier != 'quick' or sum(o[0] == 'set' or o == ['item', 't'] for o in seq) < 1 else []
            if seq[-1][0] == 'item':
                opts += [['end']]
        if not stack or seq[-1][0] == 'item' and len(stack) < 4:
            opts += [['begin', k] for k in ('enumerate', 'itemize')]
        for o in opts:
            st = stack + [o[1]] if o[0] == 'begin' else stack[:-1] if o[0] == 'end' else stack
            # enough room left to close everything
            if size - 1 < len(st) * 1:
                continue
            yield from grow(seq + [o], st, size - 1)
    for seq in grow([], [], n):
        case = dict(fam='lists', cls='article', ops=seq)
        if build(case) is not None:
            yield case
    # full depth
    for kinds in itertools.product(('enumerate', 'itemize', 'description'), repeat=4 if tier == 'quick' else 5):
        for where in range(len(kinds) + 1):
            ops = [['set', 'enumi', 3], ['set', 'enumii', 3], ['set', 'enumiii', 3], ['set', 'enumiv', 3]] if where == 0 else []
            for i, k in enumerate(kinds):
                ops += [['begin', k], ['item'], ['item']]
                if where == i + 1:
                    ops += [['eq'], ['thm', 'thm'], ['item']]
            for k in reversed(kinds):
                ops += [['end'], ['item']]
            ops = ops[:-1]
            ops += [['begin', 'enumerate'], ['item'], ['begin', 'enumerate'], ['item'], ['end'], ['item'], ['end']]
            case = dict(fam='listdepth', cls='article', pre=THMS, ops=ops, tail=[['print', 'enumi']])
            if build(case) is not None:
                yield case


def arrays(tier):
    rows = 'nNMKPlsSoaA'
    for n in (1, 2, 3):
        for r in itertools.product(rows if n < 3 or tier != 'quick' else 'nNMKsa', repeat=n):
            for star in (False, True):
                for trailing in (False, True):
                    for pkgs in ([],) if n > 1 or True else ([],):
                        case = dict(fam='eqnarray', cls='article', ops=[['section'], ['eq'], ['eqn', ''.join(r), star, trailing], ['eq'], ['eqn', 'nN', False, False], ['eq']])
                        if build(case) is not None:
                            yield case
    ams = [['eq'], ['eqx', 'n'], ['eqx', 's'], ['eqs'], ['eqn', 'nNs', False, False], ['eqn', 'Nn', False, False], ['eqn', 'M', True, False]]
    yield from docs('amsmath', 'book', ams, 3, [], [['chapter'], ['eq']], pkgs=['amsmath'])
    ams = [['section'], ['subsection'], ['eq'], ['eqn', 'nNs', False, False], ['appendix'], ['set', 'section', 3], ['fig', 'c'], ['thm', 'thm'],
           ['renew', 'section', ['S', ['rep', 'Roman', 'section']]], ['step', 'subsection']]
    for cls in ('article', 'book'):
        for c, w in (('equation', 'section'), ('equation', 'subsection'), ('figure', 'section'), ('thm', 'subsection'), ('thm', 'equation'), ('section', 'subsection')):
            if c != w and (c, w) != ('section', 'subsection'):
                yield from docs('numberwithin', cls, ams, 2, THMS + [['numberwithin', c, w]], [['section'], ['eq'], ['subsection'], ['eq'], ['fig', 'c'], ['thm', 'thm']], pkgs=['amsmath'])
    for env in ('fig', 'tab'):
        for caps in ('c', 'o', 'cc', 'co', 'ccc'):
            for star in ([], ['*']):
                for cls in ('article', 'book'):
                    yield dict(fam='floats', cls=cls, ops=[[env, 'c'], [env, caps] + star, ['section'], [env, 'c'], ['tabular'], [env, 'oc'], ['fig', 'c'], ['tab', 'c']])


def theorems(tier):
    names = ['ta', 'tb', 'tc']
    outer = ['section', 'subsection', 'zu']

    def decls(i, before):
        out = [('own', ''), ('star', '')]
        out += [('within', o) for o in outer + before] + [('shared', b) for b in before]
        return out
    bodies = [[['section'], ['thm', 'ta'], ['thm', 'tb'], ['thm', 'tc'], ['thm', 'tb'], ['thm', 'ta'], ['step', 'zu'], ['thm', 'tc'], ['thm', 'tb'], ['subsection'], ['thm', 'tc'], ['thm', 'ta'], ['section'], ['thm', 'tb'], ['thm', 'ta'], ['thm', 'tc']],
              [['thm', 'tc'], ['thm', 'tb'], ['thm', 'ta'], ['section'], ['thm', 'tc'], ['add', 'ta', 2], ['thm', 'tb'], ['set', 'tb', 5], ['thm', 'tc'], ['thm', 'ta'], ['section', '*'], ['thm', 'tc'], ['thm', 'tb']]]
    for d0 in decls(0, []):
        for d1 in decls(1, ['ta']):
            for d2 in decls(2, ['ta', 'tb']):
                if tier == 'quick' and 'subsection' in (d1[1], d2[1]):
                    continue
                pre = [['newcounter', 'zu']]
                share = {}
                ok = True
                for nm, d in zip(names, (d0, d1, d2)):
                    pre.append(['newthm', nm, d[0], d[1]])
                for b in bodies:
                    for cls, pkgs in (('article', []), ('book', []), ('article', ['amsthm'])):
                        case = dict(fam='theorems', cls=cls, pre=pre, pkgs=pkgs, ops=([['chapter']] if cls == 'book' else []) + b)
                        if build(case) is not None:
                            yield case
                        else:
                            # a theorem without a counter of its own: leave the commands on its counter out
                            case = dict(case, ops=[o for o in case['ops'] if o[0] not in ('add', 'set')])
                            if build(case) is not None:
                                yield case


def depths(tier):
    for cls in ('article', 'book'):
        names = [s for s in SECTIONS if s != 'part' and (cls == 'book' or s != 'chapter')]
        for depth in (-1, 0, 1, 2, 3, 4, 5, 6):
            inner = 'subsubsection'
            pre = [['newcounter', 'za', inner], ['newthm', 'thm', 'within', 'subsection'], ['newthm', 'lem', 'within', inner]]
            for ops in itertools.product(names[:5] if tier == 'quick' else names, repeat=3):
                case = dict(fam='depth', cls=cls, depth=depth, pre=pre,
                            ops=[['step', 'za']] + [o for s in ops for o in ([s], ['thm', 'thm'], ['step', 'za'])] + [['thm', 'lem'], ['subsection'], ['subsubsection'], ['thm', 'lem']])
                if tier == 'quick' and depth in (-1, 4, 6) and ops[0] != ops[1]:
                    continue
                if build(case) is not None:
                    yield case


def nesting(tier):
    """Numbered constructs inside theorems, lists and groups."""
    leaf = [['eq'], ['eqn', 'nN', False, False], ['fig', 'c'], ['thm', 'lem'], ['step', 'za'], ['set', 'equation', 3],
            ['renew', 'equation', ['E', ['rep', 'alph', 'equation']]], ['renew', 'thm', ['T', ['rep', 'Roman', 'thm']]]]
    opens = [[['thm(', 'thm']], [['thm(', 'crl']], [['begin', 'enumerate'], ['item']], [['begin', 'itemize'], ['item']], [['{']]]
    for cls in ('article', 'book'):
        head = ([['chapter']] if cls == 'book' else []) + [['section']]
        for o1 in opens:
            for o2 in opens:
                for a, b, c in itertools.product(leaf, repeat=3):
                    if tier == 'quick' and (leaf.index(a) + 3 * leaf.index(b) + 5 * leaf.index(c) + opens.index(o1) + opens.index(o2)) % 8 != (0 if cls == 'book' else 4):
                        continue
                    case = dict(fam='nesting', cls=cls, pre=THMS, ops=head + o1 + [a] + o2 + [b, ['end'], c, ['end']],
                                tail=[['eq'], ['thm', 'lem'], ['thm', 'crl'], ['begin', 'enumerate'], ['item'], ['item'], ['end']])
                    if build(case) is not None:
                        yield case


def representations(tier):
    top = 4999
    for rep in REPS:
        hi = 26 if rep in ('alph', 'Alph') else top
        for lo in range(1, hi + 1, 250):
            yield dict(rep=rep, lo=lo, hi=min(hi, lo + 249))
    # values that are reached by stepping, not set
    for rep in ('roman', 'Roman', 'arabic'):
        yield dict(rep=rep, lo=1, hi=120, step=True)


def run_rep(case, cx):
    src = '\\documentclass{article}\\newcounter{za}\\begin{document}\n'
    rng = range(case['lo'], case['hi'] + 1)
    for v in rng:
        src += '\\stepcounter{za}' if case.get('step') else '\\setcounter{za}{%d}' % v
        src += '\\emph{\\%s{za}}\\renewcommand{\\theza}{\\%s{za}}\\emph{\\theza}\n' % (case['rep'], case['rep'])
    doc = plas.parse(src + '\\end{document}')
    got = [n.textContent for n in doc.getElementsByTagName('emph')]
    want = [REPS[case['rep']](v) for v in rng for i in (0, 1)]
    cx.trans(len(want))
    cx.trace()
    for v in rng:
        cx.state(v)
        cx.outcome((case['rep'], v))
    for i, (g, w) in enumerate(itertools.zip_longest(got, want)):
        if g != w:
            return Violation('\\%s of %d: standard representation %r, plasTeX %r' % (case['rep'], case['lo'] + i // 2, w, g), kind='rep:' + case['rep'])
    # the counter object itself
    from plasTeX import Counter
    c = doc.context.counters['za']
    for v in rng:
        c.setcounter(v)
        g = getattr(c, case['rep'])
        if g != REPS[case['rep']](v):
            return Violation('Counter.%s of %d is %r' % (case['rep'], v, g), kind='rep:' + case['rep'])
    return None


def setup():
    plas.preload('plasTeX.Packages.article', 'plasTeX.Packages.book', 'plasTeX.Packages.report')


def spaces(tier):
    q = tier == 'quick'
    S = lambda name, bound, fn: FnSpace(name, bound, fn, run, setup)
    return [
        S('history-article', 'article: all sequences of %s operations (25 kinds; quick: 2, and 3 of the 9 most interacting) before a fixed tail of probes' % ('2' if q else '2 and 3'), lambda: history(tier, 'article')),
        S('history-book', 'the same in book (30 kinds; quick: 2, and 3 of 8; pairs of these in report)', lambda: history(tier, 'book')),
        S('hierarchy', 'four user counters within each other: all sequences of %d of 10 counter commands' % (3 if q else 4), lambda: hierarchy(tier)),
        S('lists', 'all nested enumerate/itemize lists of at most %d operations, and all stacks of %d lists of any kind with interruptions' % (8 if q else 9, 4 if q else 5), lambda: listdocs(tier)),
        S('rows', 'eqnarray(*) of up to 3 rows over 11 kinds of row (quick: 6 for three rows), trailing row end or not; figures and tables with 1-3 captions; all triples of 7 displays with amsmath; numberwithin', lambda: arrays(tier)),
        S('theorems', 'all declarations of three theorem environments (own, starred, shared with or numbered within earlier ones, sections and a user counter) x 2 bodies x 2 classes, and with amsthm', lambda: theorems(tier)),
        S('depth', 'sec-num-depth -1..6 x classes x all triples of sectioning commands, with counters declared within them', lambda: depths(tier)),
        S('nesting', 'every pair of nested containers (theorems, lists, groups) around all triples of 8 operations%s' % (' (one eighth of them)' if q else ''), lambda: nesting(tier)),
        FnSpace('representations', 'arabic, roman, Roman for 1..4999, alph and Alph for 1..26, through the command, through \\thecounter and on the counter object', lambda: representations(tier), run_rep, setup, timeout=120),
    ]

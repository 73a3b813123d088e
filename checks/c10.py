r"""C10: lists and tables keep their shape.

Tables and lists are generated together with the structure they describe: for a
list its items, what each of them holds (words, nested lists, tables) and its
term; for a table its rows, the words of every cell, the spans and - at every
boundary between rows and columns - which columns a rule covers.  The parsed
tree is reduced to the same form and compared, exhaustively over bounded
families of lists and tables.
"""
import itertools

from mc import plas
from mc.core import FnSpace, Violation

PROP = 'C10'
LEVEL = 'model_checking'
RULE = ('a state is the structure of a table (rows, spans, words, ruled boundaries) or of a list tree; a transition is one separator, rule, row end or item; '
        'distinct_nontrivial counts distinct structures together with the way they were written')
ASSUMPTIONS = [
    'rows all of whose cells are empty may or may not appear (the property speaks of non-empty rows); rules next to them belong to the boundary they lie in, or are dropped with them',
    'a rule between two rows may mark the bottom of the cells above or the top of those below (or both)',
    'a \\cline that covers only a part of a spanning cell may or may not mark this cell',
    'where the row below a rule has no cell, the cell above may stay without the rule',
    '\\multicolumn cells use the bars of their own specification on their right; on their left as well if it starts with one',
    'alignment, @{} material and column widths are not compared',
]

FONTS = {'bf', 'it', 'tt', 'em', 'sl', 'sc', 'bfseries', 'itshape', 'ttfamily', 'small', 'large', 'emph', 'textbf', 'textit', 'mathbf', 'Large', 'tiny', 'centering', 'raggedright'}
LISTS = ('itemize', 'enumerate', 'description', 'list', 'trivlist')
TABLES = ('tabular', 'tabular*', 'array', 'tabularx', 'longtable')
MATHENV = ('math', 'displaymath', 'equation', 'eqnarray')


class Bad(Exception):
    pass


def is_word(w):
    return len(w) == 3 and w[0] == 'w' and w[1:].isalpha()


def words_of(text):
    return [w for w in text.split() if w]


def shape(node, fonts=()):
    """Words (with the fonts around them), lists and tables below a node, in order."""
    out = []
    buf = []

    def flush(fs):
        for w in words_of(''.join(buf)):
            out.append((w, fs) if fs else w)
        del buf[:]

    def kids(nodes, fs):
        for c in nodes or []:
            if isinstance(c, str) and getattr(c, 'nodeType', 3) == 3:
                buf.append(str(c))
            else:
                flush(fs)
                walk(c, fs)
        flush(fs)

    def walk(n, fs):
        k = getattr(n, 'nodeName', None)
        if k in ('newtheorem', 'newcommand', 'newenvironment', 'label'):
            return
        if k in LISTS:
            out.append(list_shape(n, fs))
            return
        if k in TABLES:
            out.append(table_shape(n, fs))
            return
        if k in ('item', 'ArrayRow', 'ArrayCell'):
            raise Bad('%s outside of its list or table' % k)
        if n.nodeType == 1 and k in FONTS:
            fs = fs + (k,)
        if n.nodeType == 1 and n.attributes:
            for name, v in n.attributes.items():
                if k == 'multicolumn' and name in ('colspan', 'colspec'):
                    continue
                if name == 'self' and v is not None and hasattr(v, 'nodeType') and n.childNodes:
                    continue
                if hasattr(v, 'nodeType') and not isinstance(v, str):
                    kids(v.childNodes, fs)
        kids(n.childNodes, fs)
    kids(node.childNodes, fonts)
    return out


def list_shape(n, fs):
    items = []
    for c in n.childNodes:
        if c.nodeType == 3:
            if str(c).strip():
                raise Bad('text %r between the items of a %s' % (str(c), n.nodeName))
            continue
        if c.nodeName == 'item':
            t = c.attributes.get('term')
            term = None
            if t is not None:
                term = words_of(t if isinstance(t, str) else t.textContent)
            items.append((term, shape(c, fs)))
        elif shape(c):
            raise Bad('%s with text between the items of a %s' % (c.nodeName, n.nodeName))
    return (n.nodeName, items)


def solid(cell, side):
    st = cell.style
    return (st.get('border-%s-style' % side) == 'solid') or bool(st.get('border-' + side))


def table_shape(n, fs):
    rows = []
    for r in n.childNodes:
        if r.nodeType == 3 and not str(r).strip():
            continue
        if r.nodeName != 'ArrayRow':
            raise Bad('%s between the rows of a %s' % (r.nodeName, n.nodeName))
        cells = []
        for c in r.childNodes:
            if c.nodeName != 'ArrayCell':
                raise Bad('%s between the cells of a row' % c.nodeName)
            span = c.attributes.get('colspan', 1) if c.attributes else 1
            cells.append(dict(span=span, words=shape(c, fs), b={s: solid(c, s) for s in ('top', 'bottom', 'left', 'right')}))
        rows.append(cells)
    return (n.nodeName, rows)


# ---- expected structure -----------------------------------------------------------

class Cell(object):
    def __init__(self, words, span=1, left=False, right=False):
        self.words, self.span, self.left, self.right = words, span, left, right


class Table(object):
    """rows: lists of Cell; rules[i]: set of ruled columns (0-based) above row i, len(rows)+1 entries."""
    def __init__(self, name, ncols, left=False, bars=()):
        self.name, self.ncols = name, ncols
        self.left, self.bars = left, set(bars)
        self.rows = []
        self.rules = [set()]

    def rule(self, a=None, b=None):
        self.rules[-1] |= set(range(self.ncols) if a is None else range(a, b))

    def row(self, cells):
        self.rows.append(cells)
        self.rules.append(set())

    def cell(self, words, col):
        return Cell(words, 1, self.left and col == 0, col in self.bars)


def cmp_words(want, got, where):
    if len(want) != len(got):
        raise Bad('%s holds %s, expected %s' % (where, brief(got), brief(want)))
    for w, g in zip(want, got):
        if isinstance(w, Table):
            if not (isinstance(g, tuple) and g[0] in TABLES):
                raise Bad('%s holds %s where a table is expected' % (where, brief([g])))
            cmp_table(w, g, where)
        elif isinstance(w, List):
            if not (isinstance(g, tuple) and g[0] in LISTS):
                raise Bad('%s holds %s where a list is expected' % (where, brief([g])))
            cmp_list(w, g, where)
        elif w != g:
            raise Bad('%s holds %s, expected %s' % (where, brief(got), brief(want)))


def brief(l):
    return '[%s]' % ', '.join('<%s>' % x.name if isinstance(x, (Table, List)) else '<%s>' % x[0] if isinstance(x, tuple) and x and x[0] in LISTS + TABLES else repr(x) for x in l)


class List(object):
    def __init__(self, name):
        self.name = name
        self.items = []


def cmp_list(want, got, where):
    if want.name != got[0]:
        raise Bad('%s: a %s, expected %s' % (where, got[0], want.name))
    if len(want.items) != len(got[1]):
        raise Bad('%s: %s with %d items, expected %d' % (where, want.name, len(got[1]), len(want.items)))
    for i, ((t, c), (gt, gc)) in enumerate(zip(want.items, got[1])):
        w = '%s/%s item %d' % (where, want.name, i + 1)
        if t != gt:
            raise Bad('%s: term %r, expected %r' % (w, gt, t))
        cmp_words(c, gc, w)


def blank(words):
    return not words


def cmp_table(want, got, where):
    where = where + '/' + want.name
    if got[0] != want.name:
        raise Bad('%s: a %s' % (where, got[0]))
    # drop rows without any text on both sides, joining the boundaries
    rows, bounds = [], [set(want.rules[0])]
    loose = set()
    for r, rule in zip(want.rows, want.rules[1:]):
        if all(blank(c.words) for c in r):
            bounds[-1] |= rule
            loose.add(len(bounds) - 1)
        else:
            rows.append(r)
            bounds.append(set(rule))
    grows, gtop = [], [[]]
    for r in got[1]:
        col, spans = 0, []
        for c in r:
            spans.append((col, col + c['span'], c))
            col += c['span']
        if all(blank(c['words']) for c in r):
            gtop[-1] += [(a, b, 'top', c) for a, b, c in spans] + [(a, b, 'bottom', c) for a, b, c in spans]
        else:
            gtop[-1] += [(a, b, 'top', c) for a, b, c in spans]
            grows.append(r)
            gtop.append([(a, b, 'bottom', c) for a, b, c in spans])
    if len(rows) != len(grows):
        raise Bad('%s has %d rows with text, expected %d' % (where, len(grows), len(rows)))
    for i, (r, g) in enumerate(zip(rows, grows)):
        if len(r) != len(g):
            raise Bad('%s row %d has %d cells, expected %d' % (where, i + 1, len(g), len(r)))
        for j, (c, x) in enumerate(zip(r, g)):
            w = '%s row %d cell %d' % (where, i + 1, j + 1)
            if c.span != x['span']:
                raise Bad('%s spans %r, expected %r' % (w, x['span'], c.span))
            cmp_words(c.words, x['words'], w)
            for side, v in (('left', c.left), ('right', c.right)):
                if x['b'][side] != bool(v):
                    raise Bad('%s: %s border %s' % (w, side, 'missing' if v else 'not expected'))
    for i, (s, cells) in enumerate(zip(bounds, gtop)):
        marked = [(a, b) for a, b, side, c in cells if c['b'][side]]
        for col in s if i not in loose else ():
            if cells and not any(a <= col < b for a, b in marked) and any(a <= col < b for a, b, side, c in cells):
                # a spanning cell that is covered only in part may stay without it
                # and the cells above a short row may as well
                below = [b for a, b, side, c in cells if side == 'top']
                if any(set(range(a, b)) <= s for a, b, side, c in cells if a <= col < b) and not (below and col >= max(below)):
                    raise Bad('%s: no rule at column %d of boundary %d' % (where, col + 1, i))
        for a, b in marked:
            if not set(range(a, b)) & s:
                raise Bad('%s: rule at columns %d-%d of boundary %d, which has %s' % (where, a + 1, b, i, sorted(c + 1 for c in s)))


def check(src, want, cx, key, n):
    try:
        doc = plas.parse(src)
    except Exception as e:
        return Violation('parsing raised %s: %s\n%s' % (type(e).__name__, e, src), kind='raise:' + type(e).__name__)
    try:
        cmp_words(want, shape(doc), 'document')
    except Bad as e:
        return Violation('%s\n%s' % (e, src), kind=''.join(c for c in str(e) if not c.isdigit())[:60])
    cx.state(key)
    cx.outcome(key)
    cx.trans(n)
    cx.trace()
    return None


W = ['w' + a + b for a in 'abcdefghij' for b in 'abcdefghijklmnopqrstuvwxyz']


# ---- column specifications ------------------------------------------------------------

SPEC = [('l', 1), ('c', 1), ('r', 1), ('|', 0), ('p{2cm}', 1), ('@{}', 0), ('@{ x}', 0), ('*{2}{c}', 2), ('*{2}{l|}', 2), ('*{2}{|c}', 2), ('*{3}{r@{}}', 3), (' ', 0)]


def spec_bars(toks):
    """(left bar, bars behind columns, number of columns)"""
    left, bars, n = False, set(), 0
    for t in toks:
        if t == '|':
            if n:
                bars.add(n - 1)
            else:
                left = True
        elif t == '*{2}{l|}':
            bars |= {n, n + 1}
            n += 2
        elif t == '*{2}{|c}':
            if n:
                bars.add(n - 1)
            else:
                left = True
            bars.add(n)
            n += 2
        else:
            n += dict(SPEC)[t]
    return left, bars, n


def spec_cases(tier):
    for k in (1, 2, 3, 4) if tier == 'quick' else (1, 2, 3, 4, 5):
        for t in itertools.product([s for s, n in SPEC], repeat=k):
            n = spec_bars(t)[2]
            if not 1 <= n <= 5 or any(t[i] == ' ' and (i == 0 or t[i - 1] == ' ') for i in range(k)):
                continue
            if tier == 'quick' and k == 4 and (sum((7 ** j) * [s for s, n in SPEC].index(x) for j, x in enumerate(t)) % 6 or '|' not in ''.join(t)):
                continue
            if k == 5 and (sum((7 ** j) * [s for s, n in SPEC].index(x) for j, x in enumerate(t)) % 6 or '|' not in ''.join(t)):
                continue
            yield dict(spec=list(t))


def run_spec(case, cx):
    left, bars, n = spec_bars(case['spec'])
    t = Table('tabular', n, left, bars)
    it = iter(W)
    rows = []
    for r in range(2):
        ws = [next(it) for i in range(n)]
        rows.append('&'.join(ws))
        t.row([t.cell([w], i) for i, w in enumerate(ws)])
    src = '\\begin{tabular}{%s}%s\\\\ %s\\end{tabular}' % (''.join(case['spec']), rows[0], rows[1])
    return check(src, [t], cx, ('spec', left, tuple(sorted(bars)), n, tuple(case['spec'])), 2 * n)


# ---- rules and spans ---------------------------------------------------------------------

def compositions(n):
    if n == 0:
        yield ()
    for k in range(1, n + 1):
        for c in compositions(n - k):
            yield (k,) + c


def rule_sets(n, two):
    """What can stand in a boundary of a table of n columns."""
    one = [()] + [('h',)] + [((a, b),) for a in range(1, n + 1) for b in range(a, n + 1)]
    if two:
        one += [('h', 'h')] + [x + y for x in one[2:] for y in one[2:] if x[0][1] < y[0][0]] + [('h', (1, 1))]
    return one


def rules_cases(tier):
    q = tier == 'quick'
    # one spanned row below or above a boundary
    for n in (1, 2, 3, 4):
        comps = list(compositions(n))
        for a in comps:
            for b in comps:
                if q and n == 4 and len(a) != n and len(b) != n and (comps.index(a) + comps.index(b)) % 3:
                    continue
                for r in rule_sets(n, n < 4 or not q):
                    yield dict(n=n, rows=[a, b], rules=[[], list(r), []])
        for a in comps:
            for r in rule_sets(n, True):
                yield dict(n=n, rows=[a], rules=[list(r), []])
                yield dict(n=n, rows=[a], rules=[[], list(r)])
                yield dict(n=n, rows=[a, (1,) * n], rules=[list(r), [], ['h']])
                yield dict(n=n, rows=[(1,) * n, a], rules=[['h'], [], list(r)])
    # every boundary at once
    for n in (2, 3):
        sets = rule_sets(n, False)
        for rs in itertools.product(sets, repeat=3):
            for a, b in (((1,) * n, (1,) * n), ((n,), (1,) * n), ((1,) * n, (1, n - 1)), ((n - 1, 1), (1, n - 1))):
                if q and n == 3 and (sets.index(rs[0]) + 3 * sets.index(rs[1]) + 5 * sets.index(rs[2])) % 3:
                    continue
                yield dict(n=n, rows=[a, b], rules=[list(r) for r in rs])
    # short rows
    for n in (2, 3, 4):
        for k in range(1, n):
            for r in rule_sets(n, False):
                yield dict(n=n, rows=[(1,) * k, (1,) * n], rules=[[], list(r), []])
                yield dict(n=n, rows=[(1,) * n, (1,) * k], rules=[[], list(r), ['h']])


def run_rules(case, cx, env=('tabular', '{%s}')):
    n = case['n']
    it = iter(W)
    t = Table('tabular', n)
    src = '\\begin{tabular}{%s}' % ('c' * n)

    def rule(rs):
        s = ''
        for r in rs:
            if r == 'h':
                t.rule()
                s += '\\hline '
            else:
                t.rule(r[0] - 1, r[1])
                s += '\\cline{%d-%d}' % tuple(r)
        return s
    for i, comp in enumerate(case['rows']):
        src += rule(case['rules'][i])
        cells = []
        parts = []
        for k in comp:
            w = next(it)
            cells.append(Cell([w], k))
            parts.append(w if k == 1 else '\\multicolumn{%d}{c}{%s}' % (k, w))
        t.row(cells)
        src += '&'.join(parts)
        if i < len(case['rows']) - 1 or case['rules'][-1]:
            src += '\\\\'
    src += rule(case['rules'][-1]) + '\\end{tabular}'
    return check(src, [t], cx, ('rules', n, str(case['rows']), str(case['rules'])), 2 * n + len(case['rows']))


# ---- specifications of spanning cells -------------------------------------------------------

MSPEC = [('c', False, False), ('|c', True, False), ('c|', False, True), ('|l|', True, True), ('||r||', True, True), ('p{1cm}|', False, True), ('@{}c', False, False), ('l@{}|', False, True), ('|@{}l', True, False)]


def mspec_cases(tier):
    for n in (1, 2, 3):
        for spec in ('c' * n, '|' + 'c|' * n, '|'.join('c' * n), '|' + 'l' * n):
            for comp in compositions(n):
                for ms in itertools.product(range(-1, len(MSPEC)), repeat=len(comp)):
                    if any(m < 0 and k > 1 for m, k in zip(ms, comp)):
                        continue
                    if tier == 'quick' and len(comp) == 3 and sum((3 ** i) * m for i, m in enumerate(ms)) % 7:
                        continue
                    yield dict(n=n, spec=spec, comp=list(comp), ms=list(ms))


def run_mspec(case, cx):
    left, bars, n = spec_bars(case['spec'])
    it = iter(W)
    t = Table('tabular', n, left, bars)
    first = [next(it) for i in range(n)]
    t.row([t.cell([w], i) for i, w in enumerate(first)])
    parts, cells, col = [], [], 0
    for k, m in zip(case['comp'], case['ms']):
        w = next(it)
        if m < 0:
            cells.append(t.cell([w], col))
            parts.append(w)
        else:
            s, l, r = MSPEC[m]
            cells.append(Cell([w], k, l, r))
            parts.append('\\multicolumn{%d}{%s}{%s}' % (k, s, w))
        col += k
    t.row(cells)
    last = [next(it) for i in range(n)]
    t.row([t.cell([w], i) for i, w in enumerate(last)])
    src = '\\begin{tabular}{%s}%s\\\\%s\\\\%s\\end{tabular}' % (case['spec'], '&'.join(first), '&'.join(parts), '&'.join(last))
    return check(src, [t], cx, ('mspec', case['spec'], str(case['comp']), str(case['ms'])), 3 * n)


# ---- contents of cells -----------------------------------------------------------------------

def inner_table(it):
    a, b, c = next(it), next(it), next(it)
    t = Table('tabular', 2, True, {0, 1})
    t.rule()
    t.row([t.cell([a], 0), t.cell([b], 1)])
    t.row([t.cell([c], 0), t.cell([], 1)])
    return '\\begin{tabular}{|c|c|}\\hline %s&%s\\\\%s&\\end{tabular}' % (a, b, c), [t]


def inner_list(it):
    a, b = next(it), next(it)
    l = List('itemize')
    l.items = [(None, [a]), (None, [b])]
    return '\\begin{itemize}\\item %s\\item %s\\end{itemize}' % (a, b), [l]


def inner_array(it):
    a, b, c = next(it), next(it), next(it)
    t = Table('array', 2)
    t.row([Cell([a]), Cell([b])])
    t.row([Cell([c]), Cell([])])
    return '$\\begin{array}{cc}%s&%s\\\\%s&\\end{array}$' % (a, b, c), [t]


def simple(f, fonts=None):
    def g(it):
        n = f.count('%s')
        ws = [next(it) for i in range(n)]
        out = []
        for i, w in enumerate(ws):
            fo = (fonts or {}).get(i, ())
            out.append((w, fo) if fo else w)
        return f % tuple(ws), out
    return g


CONTENT = {
    'empty': simple(''), 'blank': simple(' '), 'word': simple('%s'), 'pad': simple(' %s '), 'words': simple('%s %s'), 'nl': simple('\n%s\n'), 'comment': simple('%s %% c & \\\\ \\hline\n'),
    'group': simple('{%s}'), 'egroup': simple('{}'), 'bf': simple('\\bf %s', {0: ('bf',)}), 'bfg': simple('{\\bf %s} %s', {0: ('bf',)}), 'textbf': simple('\\textbf{%s} %s', {0: ('textbf',)}),
    'bfs': simple('%s \\bfseries %s', {1: ('bfseries',)}), 'two': simple('\\small %s \\it %s', {0: ('small',), 1: ('small', 'it')}), 'bfempty': simple('\\bf'),
    'math': simple('$%s$'), 'mathscript': simple('$ %s _{ %s } $'), 'amp': simple('%s \\& %s', None), 'table': inner_table, 'array': inner_array, 'list': inner_list, 'mbox': simple('\\mbox{%s}'), 'footnote': simple('%s \\footnote{ %s }'),
    'par': simple('%s\n\n%s'), 'gtable': lambda it: (lambda r: ('{' + r[0] + '}', r[1]))(inner_table(it)), 'tablew': lambda it: (lambda r, w: (r[0] + ' ' + w, r[1] + [w]))(inner_table(it), next(it)),
    'macro': simple('\\mm{%s}'), 'minipage': simple('\\begin{minipage}{1cm}%s\\end{minipage}'), 'quote': simple('\\begin{quote}%s\\end{quote}'), 'verb': simple('\\verb|%s|'), 'display': simple('\\parbox{1cm}{%s}'),
    'parboxrow': simple('\\parbox{1cm}{%s \\\\ %s}'), 'miniprow': simple('\\begin{minipage}{1cm}%s \\\\ %s\\end{minipage}'), 'centerrow': simple('\\begin{center}%s \\\\ %s\\end{center}'),
}
CNAMES = sorted(CONTENT)
MCONTENT = ['empty', 'blank', 'word', 'pad', 'words', 'nl', 'comment', 'group', 'array', 'mbox', 'mscript', 'macro', 'mbf', 'mathrm', 'frac', 'left', 'text']
MATHC = {
    'mscript': simple(' %s _{ %s }'), 'mbf': simple('\\bf %s', {0: ('bf',)}), 'mathrm': simple('\\mathrm{ %s } %s'), 'frac': simple('\\frac{ %s }{ %s }'), 'left': simple('\\left( %s \\right)'), 'text': simple('\\mbox{$ %s $}'),
    'array': lambda it: (lambda r: (r[0].strip('$'), r[1]))(inner_array(it)),
}
ENDS = ['\\\\', '\\\\\n', '\\\\*', '\\\\[2pt]', '\\\\ [2pt]', '\\tabularnewline ', '\\\\*[1pt]\n', '\\cr ']
ENVS = {
    'tabular': ('\\begin{tabular}{%s}', '\\end{tabular}', 'tabular'), 'pos': ('\\begin{tabular}[t]{%s}', '\\end{tabular}', 'tabular'), 'star': ('\\begin{tabular*}{5cm}{%s}', '\\end{tabular*}', 'tabular*'),
    'float': ('\\begin{table}\\begin{tabular}{%s}', '\\end{tabular}\\end{table}', 'tabular'), 'center': ('\\begin{center}\\begin{tabular}{%s}', '\\end{tabular}\\end{center}', 'tabular'),
    'starpos': ('\\begin{tabular*}{5cm}[b]{%s}', '\\end{tabular*}', 'tabular*'), 'own': ('\\begin{own}{%s}', '\\end{own}', 'tabular'), 'group': ('{\\bf\\begin{tabular}{%s}', '\\end{tabular}}', 'tabular'),
}
PRE = '\\newcommand{\\mm}[1]{#1}\\newenvironment{own}[1]{\\begin{tabular}{#1}}{\\end{tabular}}'


def content_cases(tier):
    q = tier == 'quick'
    for a, b in itertools.product(CNAMES, repeat=2):
        yield dict(env='tabular', rows=[[a, b]], ends=[0], rules=0)
        yield dict(env='tabular', rows=[[a], [b]], ends=[0, 0], rules=0)
        yield dict(env='tabular', rows=[[a, b], ['word', 'word']], ends=[0, None], rules=1)
        yield dict(env='tabular', rows=[['word', a], [b, 'word']], ends=[0, 0], rules=2)
        if not q:
            for c in CNAMES:
                yield dict(env='tabular', rows=[[a, b], [c]], ends=[0, 0], rules=2)
                yield dict(env='tabular', rows=[[a, b, c]], ends=[None], rules=0)
    for a in CNAMES:
        for e in range(len(ENDS)):
            for env in sorted(ENVS):
                yield dict(env=env, rows=[['word', a], [a, 'word']], ends=[e, None], rules=2 if env == 'tabular' else 0)
                yield dict(env=env, rows=[[a, a], ['pad', 'empty'], ['bf', a]], ends=[e, e, e], rules=1)
    for a, b in itertools.product(MCONTENT, repeat=2):
        for dm in ('$', '\\['):
            yield dict(env='array', dm=dm, rows=[[a, b], ['word', a]], ends=[0, None], rules=0)
            yield dict(env='array', dm=dm, rows=[[a], [b, 'word']], ends=[0, 0], rules=1)
    for a in MCONTENT:
        for e in range(len(ENDS)):
            for dm in ('$', '\\[', 'equation'):
                yield dict(env='array', dm=dm, rows=[['word', a], [a, 'word']], ends=[e, None], rules=2)


def run_content(case, cx):
    it = iter(W)
    n = max(len(r) for r in case['rows'])
    bars = case['rules'] == 2
    spec = '|' + 'c|' * n if bars else 'c' * n
    outer = ()
    if case['env'] == 'array':
        open_, close, name = '\\begin{array}{%s}', '\\end{array}', 'array'
        d = case['dm']
        open_, close = {'$': '$', '\\[': '\\[', 'equation': '\\begin{equation}'}[d] + open_, close + {'$': '$', '\\[': '\\]', 'equation': '\\end{equation}'}[d]
    else:
        open_, close, name = ENVS[case['env']]
        if case['env'] == 'group':
            outer = ('bf',)
    t = Table(name, n, bars, range(n) if bars else ())
    src = open_ % spec

    def paint(ws):
        out = []
        for w in ws:
            if isinstance(w, (Table, List)):
                if isinstance(w, Table):
                    for r in w.rows:
                        for c in r:
                            c.words = paint(c.words)
                else:
                    w.items = [(tm, paint(c)) for tm, c in w.items]
                out.append(w)
            else:
                w, f = w if isinstance(w, tuple) else (w, ())
                out.append((w, outer + f) if outer + f else w)
        return out

    def get(name):
        if case['env'] == 'array' and name in MATHC:
            return MATHC[name](it)
        return CONTENT[name](it)
    for i, r in enumerate(case['rows']):
        if case['rules']:
            t.rule()
            src += '\\hline '
        parts, cells = [], []
        for j, name in enumerate(r):
            s, ws = get(name)
            if name == 'left':
                ws = ['('] + ws + [')']
            parts.append(s)
            c = t.cell(paint(ws), j)
            cells.append(c)
        t.row(cells)
        src += '&'.join(parts)
        if case['ends'][i] is not None:
            src += ENDS[case['ends'][i]]
    if case['rules'] and case['ends'][-1] is not None:
        t.rule()
        src += '\\hline'
    w = next(it)
    src = PRE + src + close + ' ' + w
    v = check(src, [t, w], cx, ('content', case['env'], str(case['rows']), str(case['ends']), case['rules']), 4)
    if v:
        v.kind += ':' + ','.join(sorted({x for r in case['rows'] for x in r} & {'parboxrow', 'miniprow', 'centerrow', 'par', 'verb'}))
    return v


# ---- all token sequences ---------------------------------------------------------------------

TOK = ['w', '&', '\\\\', '\\hline', '\\cline{2-3}', ' ', 'B', 'm']


def tok_cases(tier):
    depth = 6 if tier == 'quick' else 7
    for a in TOK:
        for b in TOK:
            yield dict(first=[a, b], depth=depth)
    for a in TOK:
        yield dict(first=[a], depth=1)


def tok_model(seq):
    """The table of a token sequence, or None if it is not one."""
    t = Table('tabular', 3)
    it = iter(W)
    src = ''
    row, cur, col, used, fonts, rule_ok, multi = [], [], 0, False, (), True, None
    for x in seq:
        if x == ' ':
            src += ' '
            continue
        if x in ('\\hline', '\\cline{2-3}'):
            if not rule_ok:
                return None
            t.rule(*(() if x == '\\hline' else (1, 3)))
            src += x + (' ' if x == '\\hline' else '')
            continue
        rule_ok = False
        if x == 'w':
            if multi is not None:
                return None
            w = next(it)
            cur.append((w, fonts) if fonts else w)
            src += w + ' '
        elif x == 'B':
            if fonts or multi is not None:
                return None
            fonts = ('bf',)
            src += '\\bf '
        elif x == 'm':
            if cur or fonts or multi is not None or col + 2 > 3:
                return None
            w = next(it)
            cur.append(w)
            multi = 2
            src += '\\multicolumn{2}{c}{%s}' % w
        elif x == '&':
            row.append(Cell(cur, multi or 1))
            col += multi or 1
            if col >= 3:
                return None
            cur, fonts, multi = [], (), None
            src += '&'
        else:
            row.append(Cell(cur, multi or 1))
            t.row(row)
            row, cur, col, fonts, multi, rule_ok = [], [], 0, (), None, True
            src += '\\\\'
    if not rule_ok:
        row.append(Cell(cur, multi or 1))
        t.row(row)
    return t, '\\begin{tabular}{ccc}%s\\end{tabular}' % src


def run_tok(case, cx):
    bad = []

    def grow(seq):
        if bad:
            return
        if len(seq) >= len(case['first']):
            m = tok_model(seq)
            if m is None:
                return
            t, src = m
            cx.count('tables')
            v = check(src, [t], cx, ('tok', tuple(seq)), len(seq))
            if v:
                v.msg = v.msg
                bad.append(v)
                return
        if len(seq) < case['depth']:
            for x in [case['first'][len(seq)]] if len(seq) < len(case['first']) else TOK:
                if x == ' ' and (seq and seq[-1] in (' ', 'w', '\\hline')):
                    continue
                grow(seq + [x])
    grow([])
    return bad[0] if bad else None


# ---- lists ------------------------------------------------------------------------------------

KINDS = ['itemize', 'enumerate', 'description']


def trees(items, depth):
    """All lists (as tuples of items, an item is a tuple of sublists) with so many items in total."""
    if items == 0:
        yield ()
        return
    # first item takes k items in its sublists
    for k in range(items):
        for subs in forests(k, depth - 1):
            for rest in trees(items - 1 - k, depth):
                yield (subs,) + rest


def forests(items, depth):
    if items == 0:
        yield ()
        return
    if depth == 0:
        return
    for k in range(1, items + 1):
        for a in trees(k, depth):
            for rest in forests(items - k, depth):
                yield (a,) + rest


def tree_cases(tier):
    n = 5 if tier == 'quick' else 6
    for items in range(1, n + 1):
        for t in trees(items, 4):
            for style in range(6):
                for kinds in range(3):
                    if tier == 'quick' and items == 5 and (style + kinds) % 3:
                        continue
                    yield dict(tree=t, style=style, kinds=kinds)


def emit_list(tree, kinds, style, it, depth):
    kind = KINDS[(kinds + depth) % 3]
    l = List(kind)
    src = '\\begin{%s}\n' % kind
    for j, subs in enumerate(tree):
        term = None
        src += '\\item'
        if kind == 'description' or style == 5 and j % 2:
            term = next(it)
            src += '[%s]' % term
        content = []
        src += ' '
        if style != 1 or not subs:
            w = next(it)
            content.append(w)
            src += w
            if style == 2:
                w = next(it)
                content.append(w)
                src += '\n\n' + w
        src += '\n' if style != 3 else '\n\n'
        for k, s in enumerate(subs):
            a, b = emit_list(s, kinds, style, it, depth + 1)
            src += a
            content.append(b)
            if style in (0, 4, 5):
                w = next(it)
                content.append(w)
                src += w + '\n'
            elif style == 3:
                src += '\n'
        l.items.append(([term] if term else None, content))
    return src + '\\end{%s}\n' % kind, l


def run_tree(case, cx):
    it = iter(W)
    src, l = emit_list(case['tree'], case['kinds'], case['style'], it, 0)
    w = next(it)
    if case['style'] == 4:
        src = '\\begin{quote}%s\\end{quote}' % src
    return check(src + ' ' + w, [l, w], cx, ('tree', str(case['tree']), case['style'], case['kinds']), str(case['tree']).count('('))


def blocks():
    def nested(kind):
        def g(it):
            a, b = next(it), next(it)
            l = List(kind)
            l.items = [(None, [a]), (None, [b])]
            return '\\begin{%s}\\item %s\\item %s\\end{%s}' % (kind, a, b, kind), [l]
        return g

    def nested_desc(it):
        a, b = next(it), next(it)
        l = List('description')
        l.items = [([a], [b])]
        return '\\begin{description}\\item[%s] %s\\end{description}' % (a, b), [l]

    def in_env(env, arg=''):
        def g(it):
            s, l = nested('itemize')(it)
            w = next(it)
            return '\\begin{%s}%s%s %s\\end{%s}' % (env, arg, s, w, env), l + [w]
        return g

    def in_cell(it):
        s, l = nested('itemize')(it)
        w = next(it)
        t = Table('tabular', 2)
        t.row([Cell(l), Cell([w])])
        return '\\begin{tabular}{p{1cm}c}%s&%s\\end{tabular}' % (s, w), [t]

    def in_arg(it):
        s, l = nested('enumerate')(it)
        return '\\footnote{%s}' % s, l
    return {
        'none': simple(''), 'word': simple('%s'), 'two': simple('%s %s'), 'par': simple('%s\n\n%s'), 'parcmd': simple('%s\\par %s'), 'onlypar': simple('\n\n%s'), 'group': simple('{%s}'), 'bf': simple('\\bf %s', {0: ('bf',)}),
        'bfg': simple('{\\bf %s}%s', {0: ('bf',)}), 'emph': simple('\\emph{%s}', {0: ('emph',)}), 'quote': simple('\\begin{quote}%s\\end{quote}'), 'center': simple('\\begin{center}%s\\end{center}'), 'math': simple('$%s$'),
        'display': simple('\\[ %s \\]'), 'eq': simple('\\begin{equation}%s\\end{equation}'), 'verb': simple('\\verb|%s|'), 'verbatim': simple('\\begin{verbatim}\n%s\n\\end{verbatim}\n'), 'footnote': simple('%s \\footnote{ %s }'),
        'mini': simple('\\begin{minipage}{2cm}%s\\end{minipage}'), 'parbox': simple('\\parbox{2cm}{%s}'), 'label': simple('\\label{x}%s'), 'comment': simple('%s %% \\item \n'), 'table': inner_table, 'array': inner_array, 'br': simple('%s\\\\%s'),
        'itemize': nested('itemize'), 'enumerate': nested('enumerate'), 'description': nested_desc, 'inquote': in_env('quote'), 'inmini': in_env('minipage', '{3cm}'), 'incell': in_cell, 'infoot': in_arg, 'gitem': lambda it: (lambda r: ('{' + r[0] + '}', r[1]))(nested('itemize')(it)),
        'thm': simple('\\begin{thm}%s\\end{thm}'), 'macro': simple('\\mm{%s}'), 'figure': simple('\\begin{figure}%s\\end{figure}'), 'verse': simple('\\begin{verse}%s\\end{verse}'), 'flush': simple('\\begin{flushleft}%s\\end{flushleft}'), 'ownlist': lambda it: (lambda r: (r[0].replace('{itemize}', '{ownl}'), r[1]))(nested('itemize')(it)),
    }


BLOCKS = blocks()
BNAMES = sorted(BLOCKS)
LPRE = '\\newtheorem{thm}{T}\\newcommand{\\mm}[1]{#1}\\newenvironment{ownl}{\\begin{itemize}}{\\end{itemize}}'
LTERM = [None, 'word', 'group', 'bf', 'empty', 'bracket']


def strip(l, f):
    """Fonts are compared in table cells only: the declarations of an item last to the end of its list in LaTeX."""
    return l


def item_cases(tier):
    q = tier == 'quick'
    for kind in ('itemize', 'enumerate', 'description', 'trivlist', 'list'):
        for a, b in itertools.product(BNAMES, repeat=2):
            if q and kind in ('trivlist', 'list', 'enumerate') and (BNAMES.index(a) + BNAMES.index(b)) % 4:
                continue
            yield dict(kind=kind, items=[[None, [a, b]], [None, ['word']]], sep=' ')
            yield dict(kind=kind, items=[[None, [a]], ['word', [b]]], sep='\n')
            if not q or kind == 'itemize':
                yield dict(kind=kind, items=[['word', [a, b]], [None, ['none']], [None, [b]]], sep='\n\n')
        for t in ('word', 'group', 'bf', 'empty', 'bracket', 'math', 'emph', 'two', 'comma'):
            for a in BNAMES:
                yield dict(kind=kind, items=[[t, [a]], [t, ['word']]], sep=' ')
    if not q:
        for a, b, c in itertools.product(BNAMES, repeat=3):
            yield dict(kind='itemize', items=[[None, [a, b, c]], [None, ['word']]], sep='\n')


TERMS = {'word': ('%s', 1), 'group': ('{%s}', 1), 'bf': ('\\bf %s', 1), 'empty': ('', 0), 'bracket': ('{ [ %s ] }', 1), 'math': ('$%s$', 1), 'emph': ('\\emph{%s}', 1), 'two': ('%s %s', 2), 'comma': ('%s, %s', 2)}


def unfont(ws):
    out = []
    for w in ws:
        if isinstance(w, List):
            w.items = [(t, unfont(c)) for t, c in w.items]
        elif isinstance(w, Table):
            for r in w.rows:
                for c in r:
                    c.words = unfont(c.words)
        elif isinstance(w, tuple) and w[0] not in LISTS + TABLES:
            w = w[0]
        elif isinstance(w, tuple) and w[0] in LISTS:
            w = (w[0], [(t, unfont(c)) for t, c in w[1]])
        elif isinstance(w, tuple):
            w = (w[0], [[dict(c, words=unfont(c['words'])) for c in r] for r in w[1]])
        out.append(w)
    return out


def run_items(case, cx):
    it = iter(W)
    kind = case['kind']
    l = List(kind)
    src = '\\begin{%s}%s' % (kind, '{x}{}' if kind == 'list' else '') + case['sep']
    for term, bs in case['items']:
        src += '\\item'
        t = None
        if term is not None:
            f, n = TERMS[term]
            ws = [next(it) for i in range(n)]
            src += '[%s]' % (f % tuple(ws))
            t = ['[', ws[0], ']'] if term == 'bracket' else [ws[0] + ',', ws[1]] if term == 'comma' else ws
        content = []
        for b in bs:
            s, ws = BLOCKS[b](it)
            src += ' ' + s
            content += ws
        src += case['sep']
        l.items.append((t, content))
    w = next(it)
    src = LPRE + src + '\\end{%s} ' % kind + w
    want = unfont([l, w])
    try:
        doc = plas.parse(src)
        got = unfont(shape(doc))
    except Bad as e:
        return Violation('%s\n%s' % (e, src), kind=str(e)[:50])
    except Exception as e:
        return Violation('parsing raised %s: %s\n%s' % (type(e).__name__, e, src), kind='raise:' + type(e).__name__)
    try:
        cmp_words(want, got, 'document')
    except Bad as e:
        return Violation('%s\n%s' % (e, src), kind=''.join(c for c in str(e) if not c.isdigit())[:40] + ':' + ','.join(b for t, bs in case['items'] for b in bs))
    key = ('items', kind, str(case['items']), case['sep'])
    cx.state(key)
    cx.outcome(key)
    cx.trans(len(case['items']))
    cx.trace()
    return None


def setup():
    pass


def spaces(tier):
    q = tier == 'quick'
    return [
        FnSpace('colspec', 'column specifications of up to %d tokens and 5 columns over l c r | p{} @{} *{n}{} and blanks, two rows' % (4 if q else 5), lambda: spec_cases(tier), run_spec, setup),
        FnSpace('rules', 'tables of 1-4 columns and 1-2 rows: every way to span the columns x every set of \\hline/\\cline at the boundaries; short rows', lambda: rules_cases(tier), run_rules, setup),
        FnSpace('multicolumn', 'rows of 1-3 columns: every way to span them x specifications of the spanning cells x bars of the table', lambda: mspec_cases(tier), run_mspec, setup),
        FnSpace('cells', 'pairs of cell contents (groups, declarations, math, nested tables and lists, boxes, ...) side by side and in adjacent rows x row ends x environments', lambda: content_cases(tier), run_content, setup),
        FnSpace('tokens', 'all sequences of up to %d tokens over word & \\\\ \\hline \\cline blank \\bf \\multicolumn' % (6 if q else 7), lambda: tok_cases(tier), run_tok, setup, 600 if not q else 200),
        FnSpace('trees', 'all list trees of up to %d items and depth 4 x kinds x ways of writing the items' % (5 if q else 6), lambda: tree_cases(tier), run_tree, setup),
        FnSpace('items', 'pairs of blocks in items of every kind of list x terms', lambda: item_cases(tier), run_items, setup),
    ]

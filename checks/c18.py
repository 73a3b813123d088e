r"""C18: the index lists every entry exactly once, under its key, in collation order.

Sequences of \index entries are enumerated over an alphabet of keys and formats;
the tree of the generated index, its page references, letter groups and columns
are compared with those computed from the entries.
"""
import itertools
import unicodedata

from pyuca.collator import Collator_10_0_0

from mc import plas
from mc.core import FnSpace, Violation

PROP = 'C18'
LEVEL = 'model_checking'
RULE = ('a state is a set of merged index lines with their page lists; a transition is one \\index entry; '
        'distinct_nontrivial counts distinct (entries, surroundings, number of columns)')
ASSUMPTIONS = [
    'keys are compared by the text they sort by, their displayed text and their markup; the collation is the Unicode collation of pyuca, which plasTeX uses when it is installed (it is here)',
    'keys differ from each other by more than the blanks and the normalization form of their characters',
    'the initial of a key is the base letter of the first character of its sort key (\u00e9: E, \u00e6: A, \u00df: S)',
    'the page references of |see and |seealso entries count as references of their line',
    'one \\printindex or theindex per document',
]

collate = Collator_10_0_0().sort_key

# name: (source of a level, sort text, displayed text, markup)
K = {}


def key(src, sort, disp=None, marks=()):
    K[src] = (sort, disp if disp is not None else sort, tuple(marks))


for w in ('a', 'A', 'b', 'B', 'ab', 'Ab', 'AB', 'a b', 'abc', 'e', 'z', 'Z', '1', '12', '2', '9a', '-', '+x', '(', '.a', 'Zebra', '\u00e9', '\u00c9', '\u00e9a', 'ea', '\u00e6', 'af', '\u00df', 'sz', '\u00f8', 'p', '\u00f1', 'n', '=', '<', '*', '?', '/', "a'"[:1] + 'a', 'a-b', 'a.b', 'a,b', 'o', '10'):
    key(w, w)
for s, t in (('\\_', '_'), ('\\_x', '_x'), ('\\&', '&'), ('\\#', '#'), ('\\%', '%'), ('\\$', '$'), ("\\'e", '\u00e9'), ("\\'{E}", '\u00c9'), ('\\"o', '\u00f6'), ('\\`a', '\u00e0'), ('\\o ', '\u00f8'), ('{a}', 'a'), ('\\~n', '\u00f1')):
    key(s, t, t, [s[1:].rstrip(' xeEoan{}') or s[1:].strip()] if len(s) > 2 and s[1] != '_' else [s[1]])
K['{a}'] = ('a', 'a', ('bgroup',))
key('a@b', 'a', 'b')
key('b@a', 'b', 'a')
key('a@a', 'a', 'a')
key('a@A', 'a', 'A')
key('z@a', 'z', 'a')
key('1@z', '1', 'z')
key('alpha@$\\alpha$', 'alpha', '\u03b1', ['math', 'alpha'])
key('a@\\textbf{a}', 'a', 'a', ['textbf'])
key('a@\\emph{a}', 'a', 'a', ['emph'])
key('\\textbf{a}', 'a', 'a', ['textbf'])
key('a@\\textbf{b}', 'a', 'b', ['textbf'])
key('a@{\\bf a}', 'a', 'a', ['bgroup', 'bf'])
key('"!x', '!x')
key('a"!b', 'a!b')
key('a"@b', 'a@b')
key('a"|b', 'a|b')
key('""', '"')
key('"@@"@', '@', '@')
key('x@"|', 'x', '|')
key('bang@"!', 'bang', '!')
key('q@\\verb*x*'[:2] + 'r', 'q', 'r')
key('\u00e9@e', '\u00e9', 'e')
key('zz@\u00c4rger', 'zz', '\u00c4rger')

FORMATS = {'': None, '|textbf': 'textbf', '|emph': 'emph', '|see{b}': 'see', '|seealso{zz}': 'seealso', '|see{b"!c}': 'see', '|see{b!c}': 'see', '|seealso{a@b}': 'seealso', '|textit': 'textit', '|(': '(', '|)': ')', '|see{x, y}': 'see'}


def entry(levels, fmt=''):
    return '!'.join(levels) + fmt


def path(levels):
    return tuple(K[l] for l in levels)


class Model(object):
    def __init__(self, entries):
        """entries: (levels, format) in document order"""
        self.lines = {}
        for i, (levels, fmt) in enumerate(entries):
            p = path(levels)
            for n in range(1, len(p) + 1):
                self.lines.setdefault(p[:n], [])
            self.lines[p].append((i, fmt))


def marks(node):
    out = []
    for n in node.childNodes or []:
        if n.nodeType == 1:
            out.append(n.nodeName.split('::')[-1])
            out += marks(n)
    return out


def line_of(item):
    return (item.sortkey if isinstance(item.sortkey, str) else item.sortkey.textContent, item.key.textContent, tuple(marks(item.key)))


def read_tree(node, prefix, out, v):
    """Depth-first walk of the index; checks the order of siblings."""
    last = None
    seen = set()
    for item in node:
        if item.nodeName != 'Index':
            v.append('the index contains %r' % item.nodeName)
            continue
        me = line_of(item)
        k = collate(me[0])
        if last is not None and k < last[0]:
            v.append('%r comes behind %r' % (me, last[1]))
        last = (k, me)
        if me in seen:
            v.append('%r is listed twice' % (prefix + (me,),))
        seen.add(me)
        if item.parentNode is not node:
            v.append('the parent of the line %r is wrong' % (me,))
        out.append((prefix + (me,), item))
        read_tree(item, prefix + (me,), out, v)


def initial(sort):
    if not sort:
        return 'Symbols'
    if sort[0] == '_':
        return '_ (Underscore)'
    c = {'\u00e6': 'A', '\u00df': 'S', '\u00f8': 'O', '\u00e5': 'A'}.get(sort[0]) or unicodedata.normalize('NFD', sort[0])[0].upper()
    return c if 'A' <= c <= 'Z' else 'Symbols'


def judge(doc, entries, cols, src, cx):
    def bad(msg, kind):
        return Violation(msg + '\n' + src, kind=kind)
    idx = doc.getElementsByTagName(['printindex', 'theindex'])
    if len(idx) != 1:
        return bad('%d indexes' % len(idx), 'count')
    idx = idx[0]
    nodes = doc.getElementsByTagName('index')
    if len(nodes) != len(entries):
        return bad('%d \\index nodes for %d entries' % (len(nodes), len(entries)), 'count')
    m = Model(entries)
    v, lines = [], []
    read_tree(idx, (), lines, v)
    if v:
        return bad('; '.join(v), 'order')
    got = {}
    for p, item in lines:
        got[p] = item
    if set(got) != set(m.lines):
        return bad('lines missing: %r; unexpected: %r' % (sorted(set(m.lines) - set(got)), sorted(set(got) - set(m.lines))), 'lines')
    for p, item in lines:
        want = m.lines[p]
        pages = item.pages
        where = [[i for i, n in enumerate(nodes) if n is d._cr_node] for d in pages]
        if where != [[i] for i, _ in want]:
            return bad('line %r refers to the entries %r, expected %r' % (p, where, [i for i, _ in want]), 'pages')
        for n, (d, (i, fmt)) in enumerate(zip(pages, want)):
            kind = FORMATS[fmt]
            if (d.see, d.seealso, d.normal) != (kind == 'see', kind == 'seealso', kind not in ('see', 'seealso')):
                return bad('reference %d of the line %r is of the wrong kind' % (n, p), 'kind')
            node = nodes[i]
            names = [c.nodeName for c in node.childNodes if c.nodeType == 1]
            text = ''.join(c.textContent for c in node.childNodes)
            if kind is None and (text != str(n + 1) or names):
                return bad('reference %d of the line %r reads %r' % (n + 1, p, text), 'number')
            if kind in ('textbf', 'emph', 'textit'):
                if text != str(n + 1) or kind not in [x.nodeName for c in node.childNodes for x in [c] + list(c.childNodes or [])]:
                    return bad('reference %d of the line %r reads %r in %r' % (n + 1, p, text, names), 'format')
            if kind in ('(', ')') and str(n + 1) not in text:
                return bad('reference %d of the line %r reads %r' % (n + 1, p, text), 'number')
            if kind in ('see', 'seealso'):
                f = [x for c in node.childNodes for x in [c] + list(c.childNodes or []) if x.nodeName == kind]
                wanted = fmt[fmt.index('{') + 1:-1].replace('"', '')
                if len(f) != 1 or f[0].textContent not in (wanted,):
                    return bad('the reference of the line %r points to %r, expected %r' % (p, [x.textContent for x in f], wanted), 'see')
    # letter groups and columns
    top = list(idx)
    groups = idx.groups
    flat = [x for g in groups for c in g for x in c]
    if len(flat) != len(top) or any(a is not b for a, b in zip(flat, top)):
        return bad('the columns list %r, the index has %r' % ([x.key.textContent for x in flat], [x.key.textContent for x in top]), 'columns')
    titles = [g.title for g in groups]
    if len(set(titles)) != len(titles):
        return bad('a heading occurs twice: %r' % titles, 'headings')
    for g in groups:
        if len(g) != cols:
            return bad('%d columns in the group %r, expected %d' % (len(g), g.title, cols), 'columns')
        for c in g:
            for x in c:
                if g.title != initial(line_of(x)[0]):
                    return bad('%r is listed under %r' % (line_of(x), g.title), 'headings')
    cx.state(tuple(sorted((p, tuple(x)) for p, x in m.lines.items())))
    cx.outcome((tuple((tuple(l), f) for l, f in entries), cols))
    cx.trace()
    cx.trans(len(entries))
    return None


# ---- documents ----------------------------------------------------------------------

PLACES = {
    'par': '%s', 'word': 'w%s ', 'section': '\\section{T%s}', 'item': '\\begin{itemize}\\item x%s\\end{itemize}', 'term': '\\begin{description}\\item[t%s] x\\end{description}', 'footnote': 'x\\footnote{f%s}', 'cell': '\\begin{tabular}{cc}a&b%s\\\\ c&d\\end{tabular}',
    'emph': '\\emph{x%s}', 'group': '{\\bf x%s}', 'caption': '\\begin{figure}\\caption{c%s}\\end{figure}', 'quote': '\\begin{quote}%s q\\end{quote}', 'newpar': '\n\n%s\n\n', 'macro': '\\mm{y%s}', 'mbox': '\\mbox{%s}', 'nested': '\\emph{x\\textbf{y%s}}', 'equation': '\\begin{equation}x%s\\end{equation}', 'minipage': '\\begin{minipage}{2cm}m%s\\end{minipage}',
    'subsection': '\\section{S}\\subsection{T%s}',
}
PRE = '\\documentclass{article}\\usepackage{makeidx}\\makeindex\\newcommand{\\mm}[1]{<#1>}\\begin{document}'


def run(case, cx):
    cols = case.get('cols', 2)
    places = case.get('places') or ['word'] * len(case['entries'])
    entries = [(tuple(l), f) for l, f in case['entries']]
    src = ''
    if case.get('early') is not None:
        body = [PLACES[pl] % ('\\index{%s}' % entry(l, f)) for (l, f), pl in zip(entries, places)]
        body.insert(case['early'], '\\printindex ')
        src = PRE + ' '.join(body) + '\\end{document}'
    else:
        end = '\\printindex' if not case.get('env') else '\\begin{theindex}\\item x\\end{theindex}'
        src = PRE + ' '.join(PLACES[pl] % ('\\index{%s}' % entry(l, f)) for (l, f), pl in zip(entries, places)) + end + '\\end{document}'
    try:
        if cols != 2:
            from plasTeX.Config import defaultConfig
            cfg = defaultConfig()
            cfg['document']['index-columns'] = cols
            doc = plas.parse(src, config=cfg)
        else:
            doc = plas.parse(src)
        return judge(doc, entries, cols, src, cx)
    except Violation:
        raise
    except Exception as e:
        import traceback
        return Violation('raised %s: %s\n%s\n%s' % (type(e).__name__, e, src, traceback.format_exc()[-600:]), kind='raise')


KEYS = sorted(K)
TIES = ['a', 'A', 'a@b', 'a@A', 'a@\\textbf{a}', 'a@\\emph{a}', '\\textbf{a}', '{a}', 'b@a', 'a@{\\bf a}', 'a@\\textbf{b}', 'b', 'Ab', 'a b', '\u00e9', "\\'e"]
FEW = ['a', 'B', 'b@a', 'a@\\textbf{a}', '1', '\\_', 'A', '\u00e9', 'e', '"!x']
INIT = ['\\_', '_'[:0] + '-', '(', '1', '9a', 'a', '\u00e6', 'af', 'Ab', '\u00e9', 'e', 'z', '\u00df', 'sz', '\u00f8', 'p', '\\&', '\\$', 'o', 'A', '1@z']


def pair_cases(tier):
    for a in KEYS:
        yield dict(entries=[[[a], '']])
        for f in FORMATS:
            yield dict(entries=[[[a], f]])
    for a, b in itertools.product(KEYS, repeat=2):
        yield dict(entries=[[[a], ''], [[b], ''], [[a], '']])
        if tier != 'quick':
            yield dict(entries=[[[a, b], ''], [[b, a], ''], [[a], ''], [[a, b], '']])
            yield dict(entries=[[[a], ''], [['x' if 0 else 'b', b], ''], [['b', a], ''], [['b', b, 'a'], ''], [[b], '']])


def level_cases(tier):
    q = tier == 'quick'
    paths = [[a] for a in FEW[:4]] + [[a, b] for a in FEW[:4] for b in FEW[:3]] + [[a, b, c] for a in FEW[:2] for b in FEW[:2] for c in FEW[:2]]
    for t in itertools.product(range(len(paths)), repeat=2):
        for f in ('', '|textbf'):
            yield dict(entries=[[paths[i], f if n else ''] for n, i in enumerate(t)])
    for t in itertools.product(range(len(paths)), repeat=3):
        if q and (t[0] + 3 * t[1] + 7 * t[2]) % 4:
            continue
        yield dict(entries=[[paths[i], ''] for i in t])
    small = [['a'], ['a', 'a'], ['a', 'b'], ['b'], ['a@\\textbf{a}', 'a'], ['a', 'a', 'b'], ['A']]
    for t in itertools.product(range(len(small)), repeat=4 if q else 5):
        yield dict(entries=[[small[i], ''] for i in t])
    for a, b in itertools.product(TIES, repeat=2):
        for c in ('a', 'b'):
            yield dict(entries=[[[a, 'a'], ''], [[b, c], ''], [[a, 'b'], ''], [[b, 'a'], ''], [[a, 'a'], '']])


def tie_cases(tier):
    for t in itertools.product(TIES, repeat=3):
        yield dict(entries=[[[x], ''] for x in t + t[:1]])
    for t in itertools.product(['a', 'a@\\textbf{a}', 'a@\\emph{a}', 'A'], repeat=5):
        yield dict(entries=[[[x], ''] for x in t])


def format_cases(tier):
    fs = sorted(FORMATS)
    for levels in (['a'], ['b', 'a@\\textbf{a}']):
        for t in itertools.product(fs, repeat=3):
            yield dict(entries=[[levels, f] for f in t])
    for t in itertools.product(fs, repeat=2):
        for a, b in itertools.product(FEW[:6], repeat=2):
            yield dict(entries=[[[a], t[0]], [[b], t[1]], [[a], '']])


def group_cases(tier):
    q = tier == 'quick'
    for cols in (1, 2, 3, 4):
        for a, b in itertools.product(INIT, repeat=2):
            yield dict(entries=[[[a], ''], [[b], ''], [['b'], '']], cols=cols)
        for n in range(1, 9):
            words = ['a', 'ab', 'abc', 'af', 'a b', 'a-b', 'a.b', 'a,b'][:n]
            for r in range(n if not q else min(n, 3)):
                e = [[[w], ''] for w in words]
                yield dict(entries=e[r:] + e[:r], cols=cols)
                e2 = [[[w, x], ''] for i, w in enumerate(words) for x in ('a', 'b', 'z')[:(i + r) % 4]] + e
                yield dict(entries=e2, cols=cols)
    for t in itertools.combinations(INIT, 4):
        if not q or sum(INIT.index(x) for x in t) % 3 == 0:
            yield dict(entries=[[[x], ''] for x in t])
            yield dict(entries=[[[x], ''] for x in reversed(t)])
    yield dict(entries=[[[x], ''] for x in KEYS])
    yield dict(entries=[[[x], ''] for x in reversed(KEYS)])


def place_cases(tier):
    q = tier == 'quick'
    P = sorted(PLACES)
    for p1, p2 in itertools.product(P, repeat=2):
        for e in ([['b'], ['a']], [['a'], ['a']], [['a', 'b'], ['a']]):
            yield dict(entries=[[l, ''] for l in e], places=[p1, p2])
        yield dict(entries=[[['a'], '|textbf'], [['a', 'b'], '|see{c}' if 0 else '|see{b}'], [['a'], '']], places=[p1, p2, p1])
        yield dict(entries=[[['a'], ''], [['a'], '']], places=[p1, p2], env=1)
    for p in P:
        for k in KEYS:
            yield dict(entries=[[[k], ''], [['a'], '']], places=[p, p])
    for n in (1, 2, 3):
        for t in itertools.product((['a'], ['b'], ['a', 'b'], ['A']), repeat=n):
            for e in range(n + 1):
                yield dict(entries=[[l, ''] for l in t], early=e)


# ---- the column split alone ---------------------------------------------------------

class Item(object):
    def __init__(self, n):
        self.totallen = n


def split_cases(tier):
    n = 8 if tier == 'quick' else 11
    for cols in range(1, 7):
        for m in range(0, n + 1):
            yield dict(cols=cols, n=m)


def run_split(case, cx):
    from plasTeX.Base.LaTeX.Index import printindex
    sizes = (1, 2, 5) if case['n'] > 5 else (1, 2, 3, 7)
    p = printindex.__new__(printindex)
    for t in itertools.product(sizes, repeat=case['n']):
        items = [Item(x) for x in t]
        out = printindex.splitColumns(p, list(items), case['cols'])
        cx.trans()
        cx.state((case['cols'], t))
        if len(out) != case['cols']:
            return Violation('%d columns for %r in %d' % (len(out), t, case['cols']), kind='split')
        flat = [x for c in out for x in c]
        if len(flat) != len(items) or any(a is not b for a, b in zip(flat, items)):
            return Violation('splitting %r into %d columns gives %r' % (t, case['cols'], [[x.totallen for x in c] for c in out]), kind='split')
    cx.trace()
    return None


def setup():
    plas.preload('plasTeX.Packages.article', 'plasTeX.Packages.makeidx')


def spaces(tier):
    return [
        FnSpace('pairs', 'every key with every format; all pairs of %d keys (the first one again behind the second)' % len(K), lambda: pair_cases(tier), run, setup),
        FnSpace('levels', 'sequences of up to %d entries with one to three levels, equal and almost equal parents' % (4 if tier == 'quick' else 5), lambda: level_cases(tier), run, setup),
        FnSpace('ties', 'all sequences of keys that collate equally but differ in display or markup', lambda: tie_cases(tier), run, setup),
        FnSpace('formats', 'all triples of formats and see-references of a line', lambda: format_cases(tier), run, setup),
        FnSpace('groups', 'initial letters and symbols x numbers of columns x numbers of entries', lambda: group_cases(tier), run, setup),
        FnSpace('places', 'all pairs of places in a document; the index in front of, between and behind the entries', lambda: place_cases(tier), run, setup),
        FnSpace('split', 'the column split on all sequences of entry lengths', lambda: split_cases(tier), run_split, setup),
    ]

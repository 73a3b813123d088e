r"""C13: rendering splits the document into files without losing or repeating content.

A model computes, from the generating structure alone, which units open a file and which
file every marker word belongs to. The real pipeline (Compile.run) renders the document;
the marker words are read back from the text of the produced HTML files.

trees      all sequences of sectioning units up to a length x all split levels
contents   every kind of content in every place x split levels x renderers and themes
names      documents x filename templates x forbidden characters x split levels
hashseed   the same documents in new interpreters with other hash seeds
"""
import itertools
import os
import re
import subprocess
import sys

from mc import htm
from mc.core import FnSpace, Violation

PROP = 'C13'
LEVEL = 'model_checking'
RULE = ('a state is a (document, configuration) whose files were compared with the model; a transition is one marker word found in its file; '
        'distinct_nontrivial counts distinct partitions of the marker words into files')
ASSUMPTIONS = [
    'marker words stand in paragraphs, lists, tables, boxes, floats, captions, theorems, verbatim material, bibliographies and footnotes; titles are only looked for in headings',
    'units are generated at top level (not inside lists or boxes) and titles contain no footnotes',
    'filename templates end in an alternative that can always produce a new name ($num)',
]
LEVELS = {'part': -1, 'chapter': 0, 'section': 1, 'subsection': 2, 'subsubsection': 3, 'paragraph': 4, 'subparagraph': 5}
DEFAULT = 'index [$id, sect$num(4)]'


def setup():
    htm.setup('plasTeX.Packages.longtable', 'plasTeX.Packages.amsthm')


# ---------------------------------------------------------------- documents

class Doc:
    """Writes a document and remembers where its marker words belong."""

    def __init__(self, cls='article', pre=''):
        self.cls, self.pre = cls, pre
        self.body = []
        self.units = []          # (level, label, title)
        self.words = []          # (word, unit index or -1, is footnote)
        self.n = 0

    def w(self, foot=False):
        self.n += 1
        word = '%s%dx' % ('F' if foot else 'W', self.n)
        self.words.append((word, len(self.units) - 1, foot))
        return word

    def text(self, s):
        self.body.append(s)

    def unit(self, name, title=None, label=None, star=''):
        self.n += 1
        self.units.append((LEVELS[name], label, 'T%dx' % self.n))
        self.text('\n\n\\%s%s{%s%s}%s\n' % (name, star, 'T%dx' % self.n, ' ' + title if title else '', '\\label{%s}' % label if label else ''))

    def theunit(self, level):
        """A unit that brings its own title: bibliography, index."""
        self.units.append((level, None, None))

    def source(self):
        return '\\documentclass{%s}\\usepackage{amsthm,longtable,makeidx}\\makeindex\\newtheorem{thm}{Thm}%s\\begin{document}\n%s\n\\end{document}\n' % (self.cls, self.pre, ''.join(self.body))

    def model(self, split):
        """For every unit the index of the unit whose file it is in (-1 is the document)."""
        out = []
        stack = [(-99, -1)]      # (level, file)
        for i, (level, label, title) in enumerate(self.units):
            while stack[-1][0] >= level:
                stack.pop()
            f = i if level <= split else stack[-1][1]
            out.append(f)
            stack.append((level, f))
        return out


CONTENT = {}


def content(f):
    CONTENT[f.__name__] = f
    return f


@content
def para(d):
    d.text('%s\n\n%s \\emph{%s} {%s}\n\n' % (d.w(), d.w(), d.w(), d.w()))


@content
def foot(d):
    d.text('%s\\footnote{%s} %s\\footnote{%s \\emph{%s}} %s\n\n' % (d.w(), d.w(1), d.w(), d.w(1), d.w(1), d.w()))


@content
def footinlist(d):
    d.text('\\begin{itemize}\\item %s\\footnote{%s}\\item %s\\end{itemize}\n\n' % (d.w(), d.w(1), d.w()))


@content
def lists(d):
    d.text('\\begin{enumerate}\\item %s\n\n%s\\item \\begin{itemize}\\item %s\\end{itemize} %s\\end{enumerate}\\begin{description}\\item[%s] %s\\end{description} %s\n\n' % tuple(d.w() for i in range(7)))


@content
def table(d):
    d.text('\\begin{tabular}{ll}%s&%s\\\\\\multicolumn{2}{c}{%s}\\\\%s&%s\\end{tabular} %s\n\n' % tuple(d.w() for i in range(6)))


@content
def longtable(d):
    d.text('\\begin{longtable}{ll}%s&%s\\\\%s&%s\\end{longtable} %s\n\n' % tuple(d.w() for i in range(5)))


@content
def cellnote(d):
    d.text('\\begin{tabular}{l}%s\\footnote{%s}\\end{tabular} %s\n\n' % (d.w(), d.w(1), d.w()))


@content
def floats(d):
    d.text('\\begin{figure}%s\\caption{%s}\\end{figure} %s \\begin{table}%s\\caption{%s}\\end{table} %s\n\n' % tuple(d.w() for i in range(6)))


@content
def capfirst(d):
    d.text('\\begin{table}\\caption{%s}\\begin{tabular}{l}%s\\end{tabular}\\end{table} %s\n\n' % tuple(d.w() for i in range(3)))


@content
def thm(d):
    d.text('\\begin{thm}%s\\end{thm}\\begin{thm}[%s] %s\\end{thm}\\begin{proof}%s\\end{proof} %s\n\n' % tuple(d.w() for i in range(5)))


@content
def quote(d):
    d.text('\\begin{quote}%s\n\n%s\\end{quote}\\begin{quotation}%s\\end{quotation}\\begin{verse}%s\\\\%s\\end{verse}\\begin{center}%s\\end{center} %s\n\n' % tuple(d.w() for i in range(7)))


@content
def verb(d):
    d.text('\\begin{verbatim}\n%s\n%s\n\\end{verbatim}\\verb+%s+ %s\n\n' % tuple(d.w() for i in range(4)))


@content
def boxes(d):
    d.text('\\mbox{%s} \\fbox{%s} \\parbox{2cm}{%s} \\begin{minipage}{2cm}%s\\end{minipage} \\makebox[2cm]{%s} %s\n\n' % tuple(d.w() for i in range(6)))


@content
def fonts(d):
    d.text('\\textbf{%s} \\texttt{%s} {\\itshape %s} {\\small %s} {\\bf %s} \\underline{%s} %s\n\n' % tuple(d.w() for i in range(7)))


@content
def env(d):
    d.text('\\begin{small}%s\\end{small} {\\Large %s \n\n %s} \\begin{flushright}%s\\end{flushright} %s\n\n' % tuple(d.w() for i in range(5)))


@content
def abstract(d):
    d.text('\\begin{abstract}%s\\end{abstract} %s\n\n' % (d.w(), d.w()))


@content
def maths(d):
    d.text('%s $x$ %s \\[y\\] %s \\begin{equation}z\\end{equation} %s\n\n' % tuple(d.w() for i in range(4)))


@content
def display(d):
    d.text('\\begin{equation}x\\end{equation}%s\\begin{eqnarray}a&=&b\\\\c\\end{eqnarray}%s\n\n' % tuple(d.w() for i in range(2)))


@content
def ref(d):
    d.text('\\label{l%d}%s \\ref{l%d} %s \\pageref{l%d} %s\n\n' % (d.n, d.w(), d.n - 1, d.w(), d.n - 2, d.w()))


@content
def index(d):
    d.text('%s\\index{a} %s\\index{b!c} %s\n\n' % tuple(d.w() for i in range(3)))


@content
def macro(d):
    d.text('\\newcommand\\mm[1]{%s #1 %s}' % ('\\textbf{(}', '\\par '))
    d.text('\\mm{%s} %s\n\n' % (d.w(), d.w()))


@content
def fnmark(d):
    d.text('%s\\footnotemark %s \\footnotetext{%s} %s\n\n' % (d.w(), d.w(), d.w(1), d.w()))


@content
def mini(d):
    d.text('\\begin{list}{-}{}\\item %s\\item %s\\end{list}\\begin{trivlist}\\item %s\\end{trivlist} %s\n\n' % tuple(d.w() for i in range(4)))


@content
def bib(d):
    d.text('%s\n\n\\begin{thebibliography}{9}' % d.w())
    d.text('\\bibitem{k%d} %s\\bibitem{q%d} %s\\end{thebibliography}\n\n' % (d.n, d.w(), d.n, d.w()))


@content
def theindex(d):
    d.text('%s\\index{a}\n\n\\printindex\n\n' % d.w())
    d.theunit(LEVELS['chapter'] if d.cls in ('book', 'report') else LEVELS['section'])


@content
def nothing(d):
    pass


# ---------------------------------------------------------------- the check

WORD = re.compile(r'[WF]\d+x')
TITLE = re.compile(r'T\d+x')


def read(text):
    """Marker words in document order, and titles in headings."""
    root, odd = htm.parse(text)
    words, titles = [], []
    for e in root.walk():
        if re.fullmatch(r'h[1-6]', e.tag or ''):
            for t in TITLE.findall(e.text()):
                titles.append(t)
    for p in root.pieces(skip=('script', 'style')):
        words += WORD.findall(p)
    return words, titles


BADCHARS = ': #$%^&*!~`"\'=?/{}[]()|<>;\\,.'     # the documented default


def stem(n):
    return re.sub(r'\.html?$', '', n)


def judge(d, rend, opts, cx, what, heads=True, bad=None):
    opts = dict(opts)
    split = opts.get(('files', 'split-level'), 2)
    template = opts.get(('files', 'filename'), DEFAULT).strip()
    if ' ' not in template and '[' not in template:
        split = -10
    src = d.source()
    r = htm.render(src, rend, opts)
    files = {n: read(t) for n, t in r.files.items()}
    owner = d.model(split)
    # the words of every file, by the model
    want = {-1: ([], [])}
    for i, f in enumerate(owner):
        if f == i:
            want[i] = ([], [])
    for w, u, fn in d.words:
        want[-1 if u < 0 else owner[u]][1 if fn else 0].append(w)
    want = {f: a + b for f, (a, b) in want.items()}
    where = {}
    for n, (ws, ts) in files.items():
        for w in ws:
            if w in where:
                return Violation('%s: %s is shown %s' % (what, w, 'twice in ' + n if where[w] == n else 'in %s and in %s' % (where[w], n)), kind=what[:40])
            where[w] = n
    for w, u, fn in d.words:
        if w not in where:
            return Violation('%s: %s is not shown in any of %s' % (what, w, ', '.join(sorted(files))), kind=what[:40])
    extra = set(where) - {w for w, u, fn in d.words}
    if extra:
        return Violation('%s: unknown words %r' % (what, sorted(extra)))
    # one file for every unit that opens one
    if len(files) != len(want):
        return Violation('%s: %d files (%s) instead of %d' % (what, len(files), ', '.join(sorted(files)), len(want)), kind=what[:40])
    got = sorted(tuple(ws) for ws, ts in files.values())
    if got != sorted(tuple(x) for x in want.values()):
        a = [x for x in got if list(x) not in want.values()]
        b = [x for x in want.values() if tuple(x) not in got]
        return Violation('%s: files contain %s instead of %s' % (what, a[:3], b[:3]), kind=what[:40])
    # the file of a unit, by its first word or its title
    if heads:
        for i, (level, label, title) in enumerate(d.units):
            if title is None:
                continue
            place = [n for n, (ws, ts) in files.items() if title in ts]
            if len(place) != 1:
                return Violation('%s: heading %s is shown in %r' % (what, title, place), kind=what[:40])
            mine = [w for w, u, fn in d.words if u == i]
            if mine and where[mine[0]] != place[0]:
                return Violation('%s: heading %s is in %s, its text in %s' % (what, title, place[0], where[mine[0]]), kind=what[:40])
    # names
    chars = bad if bad is not None else BADCHARS
    for n in files:
        for c in chars:
            if c in stem(n):
                return Violation('%s: %r in the name %r' % (what, c, n), kind=what[:40])
    LAST[0] = where
    cx.trans(len(where))
    cx.trace()
    cx.outcome((what, tuple(got)))
    return None


# ---------------------------------------------------------------- spaces

CYCLE = ['para', 'foot', 'lists', 'nothing', 'table', 'footinlist']
CLASSES = {'article': ['section', 'subsection', 'subsubsection', 'paragraph'], 'book': ['part', 'chapter', 'section', 'subsection'], 'report': ['chapter', 'section', 'subparagraph']}
SPLITS = [-10, -2, -1, 0, 1, 2, 3, 4, 5, 6]


def build(cls, seq, start=0, label=False):
    d = Doc(cls)
    para(d) if start else None
    for i, u in enumerate(seq):
        d.unit(u, label='lab%d' % i if label else None)
        CONTENT[CYCLE[(i + start + 1) % len(CYCLE)]](d)
    return d


def cases_trees(tier):
    for cls, us in CLASSES.items():
        n = {'article': 3, 'book': 2, 'report': 2}[cls] + (tier != 'quick')
        for k in range(1, n + 1):
            for seq in itertools.product(us, repeat=k):
                for rend in ('HTML5', 'XHTML'):
                    if tier == 'quick':
                        # the split levels that make a difference, and one beyond
                        ls = sorted({LEVELS[u] for u in seq})
                        splits = [ls[0] - 1] + ls
                        splits += [s for s in (-10, 6) if (len(seq) + ls[0]) % 2 == (s > 0)]
                    else:
                        splits = SPLITS
                    for s in splits:
                        yield cls, seq, rend, s


def run_trees(case, cx):
    cls, seq, rend, s = case
    cx.state(case)
    for start in ((0,) if len(seq) > 2 else (0, 1)):
        v = judge(build(cls, seq, start), rend, {('files', 'split-level'): s}, cx, '%s %s, split level %d, %s' % (cls, ' '.join(seq), s, rend))
        if v:
            return v


THEMES = {'h': ('HTML5', 'default'), 'hm': ('HTML5', 'minimal'), 'hf': ('HTML5', 'fragment'), 'x': ('XHTML', 'default'), 'xm': ('XHTML', 'minimal'), 'xp': ('XHTML', 'plain'), 'xy': ('XHTML', 'python')}


def cases_contents(tier):
    for c in CONTENT:
        for place in range(4):
            for t in THEMES:
                for s in ((-10, 0, 1, 2) if tier == 'quick' else SPLITS):
                    if tier == 'quick' and t not in ('h', 'x') and s not in (-10, 1):
                        continue
                    yield c, place, t, s


def run_contents(case, cx):
    c, place, t, s = case
    rend, theme = THEMES[t]
    d = Doc('article')
    if c == 'theindex' and place < 3:
        cx.outcome('n/a')       # (the index ends a document)
        return
    cx.state(case)
    for i, u in enumerate([None, 'section', 'subsection', 'section']):
        if u:
            d.unit(u)
        if i != place:
            d.text(d.w() + '\n\n')
        else:
            CONTENT[c](d)
    return judge(d, rend, {('files', 'split-level'): s, ('general', 'theme'): theme}, cx, '%s at %d, split level %d, %s %s' % (c, place, s, rend, theme))


TEMPLATES = [DEFAULT, 'toc index [sect$num]', 'a b c d e f [$num]', 'index [$title, $id, f$num(3)]', '[$title(1), $num(2)]', 'index [$jobname-$num]', '[$id, $title(2), s$num]',
             'index $name-x [$name$num]', '[$name-$ref, $num]', '[$id, $name$num(2)]', 'index [u$ref, $num(4)]', ' index   [ $id , sect$num(4) ]', 'whole', 'index', '$jobname', 'x.htm [$num.htm]', 'sub/a [sub/$num]']
BAD = {'default': (None, '-'), 'letters': ('aeiou ', '_'), 'none': ('', '-'), 'drop': (': #$%%^&*!~`"\'=?/{}[]()|<>;\\,.', ''), 'under': (' :./', '_')}
SHAPES = {
    'plain': [('section', 'One', None), ('subsection', 'Two', None), ('section', 'One', None)],
    'labels': [('section', 'A', 'index'), ('section', 'B', 'sec:b'), ('subsection', 'C', 'sect0001'), ('subsection', 'C', 'sec b')],
    'same': [('section', 'Same', 's'), ('section', 'Same', None), ('section', 'same', None), ('section', 'Same', 'Same')],
    'odd': [('section', 'A/B: C', None), ('section', r'50\% \& more', 'x/y'), ('section', 'a.b', 'a.b'), ('section', 'toc', 'toc'), ('section', '"q" (p)', None)],
    'markup': [('section', r'\emph{em} and $x$', None), ('subsection', r'\textbf{em} and $x$', 'e,m'), ('section', 'é ß', None), ('section', r'a~b--c', None)],
    'starred': [('section*', 'One', None), ('section', 'Two', 'two'), ('subsection*', 'One', None), ('section*', 'Two', 'three')],
    'parts': [('part', 'One', None), ('chapter', 'Two', 'two'), ('section', 'Two', None), ('part', 'One', 'one'), ('chapter', 'Three', None)],
}


def shaped(shape):
    d = Doc('book' if shape == 'parts' else 'article')
    d.text(d.w() + '\n\n')
    for u, t, l in SHAPES[shape]:
        d.unit(u.rstrip('*'), t, l, '*' if u.endswith('*') else '')
        d.text('%s\\footnote{%s} %s\n\n' % (d.w(), d.w(1), d.w()))
    return d


def bare(shape):
    """The titles without the markers: equal titles stay equal."""
    d = shaped(shape)
    d.body = [re.sub(r'T\d+x ', '', x) for x in d.body]
    return d


def cases_names(tier):
    for t in TEMPLATES:
        for b in BAD:
            for sh in SHAPES:
                for s in ((-10, -1, 0) if sh == 'parts' and tier == 'quick' else (-10, 1, 2) if tier == 'quick' else (-10, -1, 0, 1, 2, 6)):
                    for rend in ('HTML5', 'XHTML') if tier != 'quick' else ((('HTML5', 'XHTML')[(s + len(b)) % 2]),):
                        if '/' in t and b != 'none':
                            continue
                        if b in ('none', 'letters') and ('$ref' in t or sh in ('odd', 'labels') and ('$title' in t or '$id' in t)):
                            continue     # (what follows a dot is an extension, what precedes / a directory)
                        yield t, b, sh, s, rend


def run_names(case, cx):
    t, b, sh, s, rend = case
    bad, sub = BAD[b]
    opts = {('files', 'split-level'): s, ('files', 'filename'): t}
    if bad is not None:
        opts[('files', 'bad-chars')] = bad
        opts[('files', 'bad-chars-sub')] = sub
    cx.state(case)
    what = '%r %s %s, split level %d, %s' % (t, b, sh, s, rend)
    names = []
    for k in range(2):
        # (characters that the template itself asks for are kept)
        literal = re.sub(r'\$\w+(\(\d+\))?|[\[\], ]', '', t)
        check = ''.join(c for c in (bad if bad is not None else BADCHARS) if c not in literal)
        r = judge(bare(sh), rend, opts, cx, what, heads=False, bad=check)
        if r:
            return r
        names.append(LAST[0])
    if names[0] != names[1]:
        return Violation('%s: names of the second run differ: %r, %r' % (what, names[0], names[1]))


LAST = [None]


def cases_hash(tier):
    n = 4 if tier == 'quick' else 16
    return [(i, seed) for i in range(len(SHAPES)) for seed in range(1, n + 1)]


HASH = r'''
import os, sys, json, logging
logging.disable(logging.CRITICAL)
sys.path[:0] = [%r, %r]
os.environ['MC_REPO'] = %r
from mc import htm
from checks import c13
htm.setup()
out = {}
for t in c13.TEMPLATES[:12]:
    for rend in ('HTML5', 'XHTML'):
        r = htm.render(c13.bare(%r).source(), rend, {('files', 'filename'): t})
        out[t + rend] = [r.names, {n: c13.read(x) for n, x in r.files.items()}]
print(json.dumps(out, sort_keys=True))
'''


def run_hash(case, cx):
    i, seed = case
    sh = list(SHAPES)[i]
    outs = []
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    repo = os.environ.get('MC_REPO', '/repo')
    for h in (0, seed):
        e = dict(os.environ, PYTHONHASHSEED=str(h), PYTHONDONTWRITEBYTECODE='1')
        p = subprocess.run([sys.executable, '-W', 'ignore', '-c', HASH % (repo, here, repo, sh)], env=e, capture_output=True, text=True)
        if p.returncode:
            return Violation('%s, hash seed %d: %s' % (sh, h, p.stderr[-400:]))
        outs.append(p.stdout)
    cx.state(case)
    cx.trace(2)
    cx.trans(24)
    if outs[0] != outs[1]:
        return Violation('%s: other files with hash seed %d' % (sh, seed))
    cx.outcome((sh, hash(outs[0])))


def spaces(tier):
    return [
        FnSpace('trees', 'all sequences of up to %d units of the classes article, book and report x split levels x both renderers' % (3 if tier == 'quick' else 4), lambda: cases_trees(tier), run_trees, setup),
        FnSpace('contents', '%d kinds of content at 4 places x split levels x %d themes' % (len(CONTENT), len(THEMES)), lambda: cases_contents(tier), run_contents, setup),
        FnSpace('names', '%d filename templates x %d settings of forbidden characters x %d documents x split levels, each twice' % (len(TEMPLATES), len(BAD), len(SHAPES)), lambda: cases_names(tier), run_names, setup),
        FnSpace('hashseed', 'documents x 12 templates x both renderers under %d other hash seeds' % (4 if tier == 'quick' else 16), lambda: cases_hash(tier), run_hash, setup),
    ]

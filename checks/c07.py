r"""C07: parsing loses, duplicates or reorders no text and yields a well-formed tree.

Documents of a grammar of block and inline constructions are written together
with what has to be found in them: every word, in source order, with the
containers it stands in, the formulas and verbatim texts likewise, and the
sectioning units with their nesting.  The parsed tree is walked depth-first
with arguments before content and compared; every node must be reachable
from one place and have its actual container as its parent.
"""
import itertools
import re

from mc import plas
from mc.core import FnSpace, Violation

PROP = 'C07'
LEVEL = 'model_checking'
RULE = ('a state is a document (its sequence of words with their containers); a transition is one construction digested; '
        'distinct_nontrivial counts distinct (constructions, place) combinations')
ASSUMPTIONS = [
    'what follows a font declaration may become its content, up to the end of the group or environment; declarations are not compared as containers',
    'paragraphs contain paragraphs if one is a child of the other (a list in a paragraph has items with paragraphs)',
    'a dash or quote that is the only character of a construction of its own is not generated (see C11 for mathematics)',
    'the text of formulas is compared without blanks; that of verbatim material literally',
    'footnotes stand where their mark stands; captions, short titles and labels of items are arguments',
]

PRE = '\\newtheorem{thm}{T}\\newcommand{\\mac}[1]{(#1)}\\newenvironment{myenv}{}{}\\newcommand{\\two}[2]{#1 #2}\n'

FLAVOURS = [('w%d', 'w%d'), ('``w%d\'\'', '“w%d”'), ('w%d--x', 'w%d–x'), ('w%d---x', 'w%d—x'), ("w%d's", 'w%d’s'), ('`w%d\'', '‘w%d’'),
            ('w%d-x', 'w%d-x'), ('w%d\\&', 'w%d&'), ("w%d\\'e", 'w%dé'), ("w%d!", 'w%d!')]


class Skip(Exception):
    pass


class B(object):
    """Writes the source and records what is expected."""

    def __init__(self, start=0):
        self.src = ''
        self.n = 0
        self.k = start
        self.words = []     # (text, containers)
        self.stack = []
        self.modes = ['v']  # v: vertical material allowed; h: paragraphs of text only; t: moving argument
        self.sections = []  # (level, word)
        self.open = []

    def w(self, plain=False):
        self.n += 1
        s, e = FLAVOURS[0 if plain else self.k % len(FLAVOURS)]
        self.k += 1
        self.src += s % self.n
        self.words.append((e % self.n, tuple(self.stack), self.sec()))

    def verb(self, fmt):
        self.n += 1
        t = fmt % self.n
        self.words.append((t, tuple(self.stack), self.sec()))
        return t

    def m(self):
        self.n += 1
        t = 'm%d' % self.n
        self.words.append((t, tuple(self.stack), self.sec()))
        return t

    def sec(self):
        return self.open[-1][1] if self.open else None

    def push(self, *names):
        self.stack.extend(names)

    def pop(self, n=1):
        del self.stack[len(self.stack) - n:]

    def put(self, s):
        self.src += s

    @property
    def mode(self):
        return self.modes[-1]


LEVELS = {'part': -1, 'chapter': 0, 'section': 1, 'subsection': 2, 'subsubsection': 3, 'paragraph': 4, 'subparagraph': 5}


def heading(name, star='', short=False, extra=None):
    def f(b, inner=None):
        if len(b.stack) or b.mode != 'v':
            raise Skip()
        lev = LEVELS[name]
        while b.open and b.open[-1][0] >= lev:
            b.open.pop()
        key = len(b.sections)
        b.sections.append((name, b.open[-1][1] if b.open else None))
        b.open.append((lev, key))
        b.put('\\%s%s' % (name, star))
        b.push(name)
        if short:
            b.put('[')
            b.w()
            b.put(']')
        b.put('{')
        b.modes.append('t')
        (extra or word)(b)
        b.modes.pop()
        b.pop()
        b.put('}')
    return f


def word(b, inner=None):
    b.w()


def arg(open_, name, close='}', mode=None, lead=True):
    """A command with one text argument."""
    def f(b, inner=None):
        b.put(open_)
        b.push(name)
        b.modes.append(mode or b.mode)
        if lead:
            b.w()
            b.put(' ')
        if inner:
            inner(b)
            b.put(' ')
        b.w()
        b.modes.pop()
        b.pop()
        b.put(close)
    f.container = True
    return f


def env(name, names=None, opt='', pre='', post='', lead=True):
    """An environment."""
    names = (name,) if names is None else names

    def f(b, inner=None):
        if b.mode != 'v':
            raise Skip()
        b.put('\\begin{%s}%s%s' % (name, opt, pre))
        b.push(*names)
        if lead:
            b.w()
            b.put('\n')
        if inner:
            inner(b)
            b.put('\n')
            b.w()
        b.pop(len(names))
        b.put('%s\\end{%s}' % (post, name))
    f.container = True
    return f


def listing(name, terms=None, second=True):
    def f(b, inner=None):
        if b.mode != 'v' or b.stack.count(name) > 2:
            raise Skip()
        b.put('\\begin{%s}' % name)
        b.push(name, 'item')
        b.put('\\item')
        if terms:
            b.put('[')
            b.modes.append('t')
            b.w()
            b.modes.pop()
            b.put(']')
        b.put(' ')
        b.w()
        b.put('\n')
        if inner:
            inner(b)
            b.put('\n')
        if second:
            b.put('\\item')
            b.put(' ')
            b.w()
            b.put('\n\n')
            b.w()
        b.put('\n')
        b.pop(2)
        b.put('\\end{%s}' % name)
    f.container = True
    return f


def wordless(name, terms):
    """A list whose items have no text."""
    def f(b, inner=None):
        if b.mode != 'v' or b.stack.count(name) > 2:
            raise Skip()
        b.put('\\begin{%s}' % name)
        b.push(name, 'item')
        for i in range(2):
            b.put('\\item')
            if terms:
                b.put('[')
                b.modes.append('t')
                b.w()
                b.modes.pop()
                b.put(']')
            b.put(' \n')
        b.pop(2)
        b.put('\\end{%s}' % name)
    return f


def sparse(b, inner=None):
    b.put('\\begin{tabular}{ll}')
    b.push('tabular', 'ArrayCell')
    b.put('&')
    b.w()
    b.put('\\\\&\\\\ ')
    b.w()
    b.put('& \\\\[2pt] &{')
    b.push('bgroup')
    b.w()
    b.pop(3)
    b.put('}\\end{tabular}')


def tabular(cols, where):
    def f(b, inner=None):
        b.put('\\begin{tabular}{%s}' % cols)
        b.push('tabular')
        for r in range(2):
            for c in range(2):
                b.push('ArrayCell')
                if c:
                    b.put(' & ')
                b.w()
                if (r, c) == where and inner:
                    b.put(' ')
                    b.modes.append('v' if 'p' in cols.replace('\\parbox', '') else 'h')
                    inner(b)
                    b.modes.pop()
                b.pop()
            if r == 0:
                b.put(' \\\\\n')
        b.pop()
        b.put('\\end{tabular}')
    f.container = True
    return f


def multicol(b, inner=None):
    b.put('\\begin{tabular}{ll}\\hline ')
    b.push('tabular', 'ArrayCell', 'multicolumn')
    b.put('\\multicolumn{2}{c}{')
    b.w()
    if inner:
        b.put(' ')
        b.modes.append('h')
        inner(b)
        b.modes.pop()
    b.put('}\\\\')
    b.pop()
    b.w(True)
    b.put('&')
    b.pop()
    b.push('ArrayCell')
    b.w()
    b.pop(2)
    b.put('\\\\\\hline\\end{tabular}')


multicol.container = True


def floating(name, first):
    def f(b, inner=None):
        if b.mode != 'v' or set(b.stack) & {'figure', 'table', 'footnote', 'minipage', 'parbox', 'ArrayCell', 'mbox', 'fbox', 'abstract', 'multicolumn', 'framebox', 'raisebox'}:
            raise Skip()
        b.put('\\begin{%s}' % name)
        b.push(name)

        def cap():
            b.put('\\caption{')
            b.push('caption')
            b.modes.append('t')
            b.w()
            b.modes.pop()
            b.pop()
            b.put('}')
        if first:
            cap()
            b.put('\n')
        b.w()
        b.put('\n')
        if inner:
            inner(b)
            b.put('\n')
        if not first:
            cap()
        b.pop()
        b.put('\\end{%s}' % name)
    f.container = True
    return f


def footnote(b, inner=None):
    if 'footnote' in b.stack:
        raise Skip()
    b.put('\\footnote{')
    b.push('footnote')
    b.modes.append('v')
    b.w()
    if inner:
        b.put('\n\n')
        inner(b)
        b.put(' ')
        b.w()
    b.modes.pop()
    b.pop()
    b.put('}')


footnote.container = True


def theorem(opt):
    def f(b, inner=None):
        if b.mode != 'v':
            raise Skip()
        b.put('\\begin{thm}')
        b.push('thm')
        if opt:
            b.put('[')
            b.w()
            b.put(']')
        b.put(' ')
        b.w()
        b.put('\n')
        if inner:
            inner(b)
            b.put('\n\n')
            b.w()
        b.pop()
        b.put('\\end{thm}')
    f.container = True
    return f


def bibliography(b, inner=None):
    if b.mode != 'v' or b.stack:
        raise Skip()
    b.put('\\begin{thebibliography}{9}\\bibitem{k1} ')
    b.push('thebibliography', 'bibitem')
    b.w()
    if inner:
        b.put(' ')
        inner(b)
    b.put('\n\n\\bibitem{k2} ')
    b.w()
    b.pop(2)
    b.put('\\end{thebibliography}')


bibliography.container = True


def decl(cmd, scoped):
    def f(b, inner=None):
        b.put(('{' if scoped else '') + cmd + ' ')
        if scoped:
            b.push('bgroup')
        b.w()
        if inner:
            b.put(' ')
            inner(b)
            b.put(' ')
            b.w()
        if scoped:
            b.pop()
            b.put('}')
    f.container = scoped
    return f


def group(b, inner=None):
    b.put('{')
    b.push('bgroup')
    b.w()
    if inner:
        b.put(' ')
        inner(b)
        b.put(' ')
        b.w()
    b.pop()
    b.put('}')


group.container = True


def macro(b, inner=None):
    b.put('\\mac{')
    b.w()
    if inner:
        b.put(' ')
        inner(b)
    b.put('}')


macro.container = True


def macro2(b, inner=None):
    b.put('\\two{')
    b.w()
    b.put('}{')
    if inner:
        inner(b)
        b.put(' ')
    b.w()
    b.put('}')


macro2.container = True


def raw(s, modes='vht'):
    def f(b, inner=None):
        if b.mode not in modes:
            raise Skip()
        b.put(s)
    f.raw = True
    return f


def formula(open_, close, body='%s', modes='vht', name=None):
    def f(b, inner=None):
        if b.mode not in modes:
            raise Skip()
        b.put(open_)
        b.push('MATH')
        b.put(body % tuple(b.m() for _ in range(body.count('%s'))))
        b.pop()
        b.put(close)
    return f


def textinmath(b, inner=None):
    b.put('$')
    b.push('MATH')
    b.put(b.m() + '\\mbox{')
    b.pop()
    b.push('MATH', 'mbox')
    b.w()
    b.pop(2)
    b.push('MATH')
    b.put('}' + b.m())
    b.pop()
    b.put('$')


def verbinline(b, inner=None):
    if b.mode == 't' or set(b.stack) & {'footnote', 'mbox', 'textbf', 'emph', 'fbox', 'parbox', 'multicolumn', 'framebox', 'raisebox', 'makebox', 'ARG'}:
        raise Skip()
    b.push('verb')
    b.put('\\verb|%s|' % b.verb("w%d--x''``%%\\a{"))
    b.pop()


def verbatim(b, inner=None):
    if b.mode != 'v' or set(b.stack) & {'footnote', 'mbox', 'textbf', 'emph', 'fbox', 'parbox', 'multicolumn', 'framebox', 'raisebox', 'makebox', 'ARG', 'ArrayCell'}:
        raise Skip()
    b.push('verbatim')
    b.put('\\begin{verbatim}\n%s\n' % b.verb("w%d---x'`\\b}&$"))
    b.put('%s\n\\end{verbatim}\n' % b.verb("w%d'"))
    b.pop()


INLINE = {
    'word': word,
    'emph': arg('\\emph{', 'emph'), 'textbf': arg('\\textbf{', 'textbf'),
    'it': decl('\\it', True), 'bfseries': decl('\\bfseries', True), 'large': decl('\\large', True), 'sc': decl('\\scshape', False),
    'em': decl('\\em', False),
    'group': group, 'macro': macro, 'macro2': macro2,
    'math': formula('$', '$', "%s-%s'"), 'parenmath': formula('\\(', '\\)', '%s_{%s}'), 'textinmath': textinmath,
    'verb': verbinline, 'footnote': footnote,
    'mbox': arg('\\mbox{', 'mbox', mode='h'), 'fbox': arg('\\fbox{', 'fbox', mode='h'),
    'makebox': arg('\\makebox[2cm][l]{', 'makebox', mode='h'), 'framebox': arg('\\framebox[2cm]{', 'framebox', mode='h'),
    'raisebox': arg('\\raisebox{2pt}{', 'raisebox', mode='h'), 'underline': arg('\\underline{', 'underline', mode='h'),
    'parbox': arg('\\parbox{3cm}{', 'parbox', mode='v'),
    'label': raw('\\label{lab}'), 'ref': raw('\\ref{lab} '), 'break': raw('\\\\ ', 'v'), 'tie': raw('~'), 'comment': raw('% comment w999\n'),
    'cite': raw('\\cite{k1} '), 'hspace': raw('\\hspace{1cm}'), 'index': raw('\\index{entry}'), 'relax': raw('\\relax '), 'emptygroup': raw('{}'),
    'tabular': tabular('ll', (0, 1)),
}
BLOCK = {
    'blank': raw('\n\n', 'v'), 'par': raw('\\par ', 'v'), 'noindent': raw('\n\n\\noindent ', 'v'), 'vspace': raw('\\vspace{1cm}', 'v'), 'bigskip': raw('\n\n\\bigskip\n\n', 'v'),
    'newpage': raw('\\newpage ', 'v'), 'centering': raw('\\centering ', 'v'),
    'itemize': listing('itemize'), 'enumerate': listing('enumerate'), 'description': listing('description', True),
    'itemize1': listing('itemize', True, False), 'enumerate1': listing('enumerate', None, False),
    'terms': wordless('description', True), 'labels': wordless('itemize', True), 'bare': wordless('enumerate', False), 'sparse': sparse,
    'quote': env('quote'), 'quotation': env('quotation'), 'verse': env('verse'), 'center': env('center'), 'flushleft': env('flushleft'),
    'quoteempty': env('quote', lead=False), 'myenv': env('myenv', ('bgroup',)), 'small': env('small', ()), 'itenv': env('itshape', ()),
    'minipage': env('minipage', opt='{3cm}'),
    'figure': floating('figure', False), 'table': floating('table', True),
    'thm': theorem(False), 'thmopt': theorem(True),
    'display': formula('\\[', '\\]', "%s-%s", 'v'), 'dollars': formula('$$', '$$', "%s'", 'v'),
    'equation': formula('\\begin{equation}', '\\end{equation}', '%s+%s', 'v'),
    'eqnarray': formula('\\begin{eqnarray}', '\\end{eqnarray}', '%s&=&%s\\\\%s&&%s', 'v'),
    'displaymath': formula('\\begin{displaymath}\\begin{array}{ll}', '\\end{array}\\end{displaymath}', '%s&%s\\\\%s', 'v'),
    'verbatim': verbatim,
    'tabularp': tabular('|l|p{3cm}|', (1, 1)), 'multicol': multicol,
    'bibliography': bibliography,
}
HEADS = {n + s: heading(n, '*' if '*' in s else '', 's' in s) for n in ('section', 'subsection', 'subsubsection', 'paragraph', 'chapter', 'part', 'subparagraph')
         for s in ('', '*', '+s')}
ALL = dict(INLINE, **BLOCK)


# ---------------------------------------------------------------- the tree

STRUCT = {'textbf', 'emph', 'item', 'itemize', 'enumerate', 'description', 'quote', 'quotation', 'verse', 'center', 'flushleft', 'myenv', 'minipage', 'figure', 'table',
          'thm', 'verbatim', 'verb', 'tabular', 'ArrayCell', 'multicolumn', 'footnote', 'mbox', 'fbox', 'makebox', 'framebox', 'raisebox', 'underline', 'parbox',
          'caption', 'thebibliography', 'bibitem', 'bgroup', 'abstract'} | set(LEVELS)


NAMES = {'thmenv': 'thm'}


class Bad(Exception):
    pass


def attrnodes(v):
    from plasTeX.DOM import Node
    if isinstance(v, Node):
        yield v
    elif isinstance(v, (list, tuple)):
        from plasTeX.Tokenizer import Token
        for x in v:
            # (lists of tokens are what has not been made into nodes)
            for y in () if isinstance(x, Token) else attrnodes(x):
                yield y
    elif isinstance(v, dict):
        for x in v.values():
            for y in attrnodes(x):
                yield y


def walk(node, parent, chain, out, seen, cx, inmath, insec):
    """Depth-first, arguments before content."""
    if id(node) in seen:
        raise Bad('%s is reachable from %s and from %s' % (node.nodeName, seen[id(node)], getattr(parent, 'nodeName', None)))
    seen[id(node)] = getattr(parent, 'nodeName', '?')
    up = node.parentNode
    if parent is not None and up is not parent and up is not None and up.nodeType == node.DOCUMENT_FRAGMENT_NODE and up is parent.childNodes:
        # the list of children
        up = up.parentNode
    if parent is not None and up is not parent:
        raise Bad('%s (%.40s) is in %s, but its parent is %s' % (node.nodeName, plain(node), parent.nodeName, getattr(node.parentNode, 'nodeName', None)))
    if node.nodeType == node.TEXT_NODE:
        out.append(('T', str(node), tuple(chain), inmath, insec))
        return
    name = NAMES.get(node.nodeName, node.nodeName)
    text = getattr(node, 'str', None)
    if isinstance(text, str) and not inmath:
        # symbols and accents
        out.append(('T', text, tuple(chain), inmath, insec))
        return
    if name.startswith('#'):
        here = chain
    else:
        here = chain + [name] if name in STRUCT and not (inmath and name == 'ArrayCell') else chain
        if getattr(node, 'mathMode', None) is True:
            inmath = True
            if 'MATH' not in here:
                here = here + ['MATH']
        elif getattr(node, 'mathMode', None) is False:
            inmath = False
        if name in LEVELS:
            insec = node
    out.append(('E', name))
    attrs = getattr(node, 'attributes', None)
    if attrs:
        for k, v in attrs.items():
            if k == 'self':
                continue
            for x in attrnodes(v):
                if x.nodeType == node.DOCUMENT_FRAGMENT_NODE or x.nodeType == node.TEXT_NODE or x.nodeType == node.ELEMENT_NODE:
                    walk(x, node, here, out, seen, cx, inmath, insec)
    for c in node.childNodes:
        walk(c, node, here, out, seen, cx, inmath, insec)
    out.append(('E', '/' + name))


def plain(n):
    try:
        return n.textContent
    except Exception:
        return ''


def structure(doc):
    """Paragraphs and sectioning units contain what they may contain."""
    todo = [doc]
    while todo:
        n = todo.pop()
        if n.nodeType == n.TEXT_NODE:
            continue
        kids = list(n.childNodes)
        if n.nodeName in LEVELS:
            for c in kids:
                if c.nodeType == n.TEXT_NODE or not (c.level == n.PAR_LEVEL or (c.nodeName in LEVELS and c.level > n.level)):
                    raise Bad('%s contains %s (%.40r)' % (n.nodeName, c.nodeName, plain(c)))
            pars = [c.level == n.PAR_LEVEL for c in kids]
            if True in pars and False in pars and pars != sorted(pars, reverse=True):
                raise Bad('%s contains a paragraph behind a sectioning unit' % n.nodeName)
        if n.nodeType == n.ELEMENT_NODE and n.level == n.PAR_LEVEL:
            for c in kids:
                if c.nodeType != n.TEXT_NODE and c.level == n.PAR_LEVEL:
                    raise Bad('a paragraph contains a paragraph')
                if c.nodeName in LEVELS:
                    raise Bad('a paragraph contains a %s' % c.nodeName)
        todo.extend(kids)


def collect(out):
    """The words, formulas and verbatim texts of a walk."""
    items = []
    buf = None

    def flush():
        nonlocal buf
        if buf is not None:
            items.append(buf)
        buf = None
    for ev in out:
        if ev[0] == 'E':
            flush()
            continue
        _, s, chain, inmath, sec = ev
        if buf is not None and buf[1:3] == [chain, inmath] and buf[3] is sec:
            buf[0] = '%s%s' % (buf[0], s)
        else:
            flush()
            buf = ['%s' % s, chain, inmath, sec]
    flush()
    return items


CHUNK = re.compile(r"(?:``|[`“‘])?[wm]\d+(?:''|'s|'|”|’s|’|---x|--x|-x|–x|—x|&|é|!)?")


def found(out):
    res = []
    math = None
    for s, chain, inmath, sec in collect(out):
        if inmath:
            for c in re.findall(r'm\d+', ''.join(s.split())):
                res.append((c, chain, sec))
            bad = re.search('[“”‘’–—]', s)
            if bad:
                raise Bad('%r in mathematics (%r)' % (bad.group(), s))
            for c in re.findall(r'\S*w\d+\S*', s):
                res.append((c, chain, sec))
        elif 'verb' in chain or 'verbatim' in chain:
            for c in s.split('\n'):
                if c.strip():
                    res.append((c.strip('\n'), chain, sec))
        else:
            for c in CHUNK.findall(s):
                res.append((c, chain, sec))
    return res


def strip(chain):
    return tuple(c for c in chain if c != 'ARG')


def judge(b, doc, cx):
    out, seen = [], {}
    walk(doc, None, [], out, seen, cx, False, None)
    structure(doc)
    got = found(out)
    gw = [g[0] for g in got]
    ew = [e[0] for e in b.words]
    gw2 = [re.sub(r'^\(|\)$', '', x) for x in gw]
    if gw2 != ew:
        for i, (g, e) in enumerate(itertools.zip_longest(gw2, ew)):
            if g != e:
                break
        miss = [e for e in ew if e not in gw2]
        twice = [g for g in sorted(set(gw2)) if gw2.count(g) > ew.count(g)]
        raise Bad('reads %s instead of %s%s%s' % (gw2[max(0, i - 2):i + 4], ew[max(0, i - 2):i + 4], ' (missing: %s)' % miss if miss else '',
                                                 ' (extra: %s)' % twice if twice else ''))
    for g, e in zip(got, b.words):
        # (containers that hold the headings are compared through the sections)
        gc = tuple(c for c in g[1] if c not in LEVELS)
        ec = tuple(c for c in e[1] if c not in LEVELS)
        if gc != ec:
            raise Bad('%s stands in %s instead of %s' % (e[0], '/'.join(gc) or 'the text', '/'.join(ec) or 'the text'))
    # the sectioning units
    units = []
    for ev in out:
        pass
    order = []

    def visit(n, up):
        if n.nodeType == n.TEXT_NODE:
            return
        if n.nodeName in LEVELS:
            order.append((n, up))
            up = n
        for c in n.childNodes:
            visit(c, up)
    visit(doc, None)
    if [n.nodeName for n, _ in order] != [s[0] for s in b.sections]:
        raise Bad('has the sectioning units %s instead of %s' % ([n.nodeName for n, _ in order], [s[0] for s in b.sections]))
    nodes = [n for n, _ in order]
    for (n, up), (name, eup) in zip(order, b.sections):
        if (up is None) != (eup is None) or (up is not None and nodes[eup] is not up):
            raise Bad('%s is nested in %s instead of %s' % (name, getattr(up, 'nodeName', None), None if eup is None else b.sections[eup][0]))
    for g, e in zip(got, b.words):
        want = None if e[2] is None else nodes[e[2]]
        if g[2] is not want:
            raise Bad('%s stands in %s instead of %s' % (e[0], getattr(g[2], 'nodeName', 'no section'), 'no section' if want is None else want.nodeName))
    return len(seen)


def check(b, cx, cls, key, front=''):
    src = '\\documentclass{%s}%s%s\\begin{document}%s\\end{document}' % (cls, PRE, front, b.src)
    doc = plas.parse(src)
    try:
        n = judge(b, doc, cx)
    except Bad as e:
        return Violation('%r: %s' % (src[len('\\documentclass{}') + len(cls) + len(PRE):], e))
    cx.state(src)
    cx.trans(len(b.words))
    cx.trace(1)
    cx.count('nodes', n)
    cx.count('words', len(b.words))
    cx.outcome(key)


# ---------------------------------------------------------------- spaces

SEPS = [' ', '\n\n', '']


def sep(i):
    return SEPS[i % 3]


PLACES = {
    'top': None, 'section': heading('section'),
    'item': listing('itemize', None, True), 'cell': tabular('ll', (0, 0)), 'quote': env('quote'), 'footnote': footnote, 'minipage': env('minipage', opt='{3cm}'),
    'group': group, 'textbf': arg('\\textbf{', 'textbf'), 'figure': floating('figure', False), 'thm': theorem(False), 'mbox': arg('\\mbox{', 'mbox', mode='h'),
    'bib': bibliography, 'desc': listing('description', True), 'macro': macro, 'cellp': tabular('lp{2cm}', (1, 1)), 'decl': decl('\\it', True), 'parbox': arg('\\parbox{3cm}{', 'parbox', mode='v'),
}
ARGLIKE = {'footnote', 'textbf', 'mbox', 'macro', 'parbox'}


def run_follow(case, cx):
    place, names, s, start = case
    b = B(start)

    def inner(b):
        if place in ARGLIKE:
            b.push('ARG')
        for i, n in enumerate(names):
            if i:
                b.put(SEPS[s])
                if SEPS[s] == '\n\n' and b.mode != 'v':
                    raise Skip()
            if n == 'word' or not SEPS[s]:
                pass
            if (n in HEADS):
                HEADS[n](b)
            else:
                ALL[n](b)
            if place in ARGLIKE and b.stack[-1] != 'ARG':
                raise Skip()
        if place in ARGLIKE:
            b.pop()
    try:
        b.w()
        b.put(' ')
        if place in ('top', 'section'):
            if place == 'section':
                PLACES[place](b)
                b.put(' ')
            inner(b)
        else:
            PLACES[place](b, inner)
        b.put(' ')
        b.w()
    except Skip:
        return None
    b.words = [(w, strip(c), s_) for w, c, s_ in b.words]
    return check(b, cx, 'article', (place, tuple(names), s))


def placed(names, place):
    return True


CORE = ['word', 'terms', 'textbf', 'it', 'sc', 'math', 'footnote', 'blank', 'itemize', 'quote', 'figure', 'display', 'verbatim', 'tabularp', 'group', 'section', 'subsection*', 'label', 'thmopt']


def cases_follow(tier):
    out = []
    i = 0
    for place in PLACES:
        for p in itertools.product(ALL, repeat=2):
            if tier == 'quick' and place != 'top' and not (p[0] in CORE and p[1] in CORE) and 'word' not in p:
                continue
            ss = (0, 1) if tier != 'quick' and place in ('top', 'section') else (i % 3,)
            for s in ss:
                out.append((place, list(p), s, i % 10))
                i += 1
    return out


def cases_triples(tier):
    out = []
    i = 0
    core = CORE if tier == 'quick' else CORE + ['emph', 'minipage', 'description', 'equation', 'macro', 'par', 'parbox', 'bibliography', 'center', 'verb', 'table', 'large', 'mbox']
    for p in itertools.product(core, repeat=3):
        i += 1
        if tier == 'quick' and len(set(p)) < 3 and p[0] != p[2]:
            continue        # (neighbours of the same kind are in the space "follow")
        out.append(('top', list(p), i % 3, i % 10))
    return out


NEST = ['textbf', 'it', 'group', 'footnote', 'parbox', 'tabular', 'tabularp', 'itemize', 'description', 'quote', 'center', 'minipage', 'figure', 'thmopt', 'macro', 'mbox',
        'small', 'myenv', 'multicol']
LEAVES = ['word', 'math', 'verbatim', 'display', 'blank', 'sc']


def run_nest(case, cx):
    names, leaf, start = case
    b = B(start)

    def build(i):
        if i == len(names):
            return ALL[leaf]
        f = ALL[names[i]]
        nxt = build(i + 1)
        argl = names[i] in ('textbf', 'macro', 'parbox', 'mbox', 'footnote', 'multicol')

        def g(b, inner=None):
            def deeper(b):
                if argl:
                    b.push('ARG')
                nxt(b)
                if argl:
                    b.pop()
            f(b, deeper)
        return g
    try:
        b.w()
        b.put('\n\n')
        build(0)(b)
        b.put('\n\n')
        b.w()
    except Skip:
        return None
    b.words = [(w, strip(c), s_) for w, c, s_ in b.words]
    return check(b, cx, 'article', (tuple(names), leaf))


def cases_nest(tier):
    out = []
    i = 0
    for leaf in LEAVES:
        for p in itertools.product(NEST, repeat=2):
            out.append((list(p), leaf, i % 10))
            i += 1
    for p in itertools.product(NEST, repeat=3):
        out.append((list(p), LEAVES[i % len(LEAVES)] if i % 2 else 'word', i % 10))
        i += 1
    if tier != 'quick':
        for p in itertools.product(NEST, repeat=4):
            out.append((list(p), LEAVES[i % len(LEAVES)] if i % 2 else 'word', i % 10))
            i += 1
    return out


BODIES = ['', ' W', '\n\nW\n\nW', 'itemize', 'verbatim', 'sc', 'footnote', 'figure', 'display', 'label']


def run_sections(case, cx):
    cls, heads, start, first = case
    b = B(start)
    if first:
        b.w()
        if first == 2:
            b.put('\n\n')
            b.w()
        b.put('\n')
    for i, h in enumerate(heads):
        HEADS[h](b)
        body = BODIES[(start + i * 3) % len(BODIES)]
        if body in ALL:
            if start % 2:
                b.put('\n\n')
            ALL[body](b)
        else:
            for ch in body:
                if ch == 'W':
                    b.w()
                else:
                    b.put(ch)
        if start % 3 == 0:
            b.put('\n\n')
        elif start % 3 == 1:
            b.put('\n')
    return check(b, cx, cls, (cls, tuple(heads), first))


def cases_sections(tier):
    out = []
    i = 0
    for cls, names in (('article', ['section', 'subsection', 'subsubsection', 'paragraph']), ('book', ['chapter', 'section', 'subsection', 'subsubsection'])):
        heads = [n + s for n in names for s in ('', '*')]
        for n in (1, 2, 3):
            for p in itertools.product(heads, repeat=n):
                for first in (0, 1, 2):
                    out.append((cls, list(p), i % 30, first))
                    i += 1
        for p in itertools.product(names if tier == 'quick' else heads, repeat=4):
            out.append((cls, list(p), i % 30, i % 3))
            i += 1
        for p in itertools.product([n + '+s' for n in names] + ['part', 'subparagraph', 'paragraph'], repeat=2):
            out.append((cls, list(p), i % 30, i % 3))
            i += 1
        for p in itertools.product(names, repeat=5):
            if tier != 'quick':
                out.append((cls, list(p), i % 30, i % 3))
                i += 1
    return out


TITLEABLE = ['word', 'emph', 'textbf', 'it', 'group', 'macro', 'math', 'parenmath', 'footnote', 'mbox', 'fbox', 'label', 'ref', 'tie', 'comment', 'cite', 'emptygroup', 'sc', 'macro2', 'underline', 'tabular', 'textinmath', 'index', 'relax', 'parbox']


def run_args(case, cx):
    where, names, start = case
    b = B(start)

    def body(b, inner=None):
        b.modes.append('h')
        b.w()
        for i, n in enumerate(names):
            b.put(SEPS[0] if (start + i) % 2 or n == 'word' or i and names[i - 1] == 'word' else '')
            ALL[n](b)
        b.put(' ')
        b.w()
        b.modes.pop()
    front = ''
    try:
        if where in ('section', 'section*', 'subsection', 'paragraph'):
            heading(where.rstrip('*'), '*' if '*' in where else '', start % 2 == 1, body)(b)
            b.put(' ')
            b.w()
        elif where == 'caption':
            b.put('\\begin{figure}')
            b.push('figure', 'caption')
            b.put('\\caption%s{' % ('[s]' if start % 2 else ''))
            body(b)
            b.put('}')
            b.pop(2)
            b.put('\\end{figure}')
        elif where == 'term':
            b.put('\\begin{description}\\item[{')
            b.push('description', 'item', 'bgroup')
            body(b)
            b.pop()
            b.put('}] ')
            b.w()
            b.pop(2)
            b.put('\\end{description}')
        elif where == 'thm':
            b.put('\\begin{thm}[{')
            b.push('thm', 'bgroup')
            body(b)
            b.pop()
            b.put('}] ')
            b.w()
            b.pop()
            b.put('\\end{thm}')
        elif where == 'author':
            b.put('\\author{')
            body(b)
            b.put('}')
            front, b.src = b.src, ''
            b.put('\\maketitle ')
            b.w()
    except Skip:
        return None
    b.put('\n\n')
    b.w()
    return check(b, cx, 'article', (where, tuple(names)), front)


def cases_args(tier):
    out = []
    i = 0
    for where in ('section', 'section*', 'subsection', 'paragraph', 'caption', 'term', 'thm'):
        for n in (1, 2):
            for p in itertools.product(TITLEABLE, repeat=n):
                out.append((where, list(p), i % 10))
                i += 1
    return out


FRONT = ['', '\\title{%s}', '\\title{%s \\emph{%s}}\\author{%s}', '\\title{%s}\\author{%s \\and %s}\\date{%s}', '\\title{%s\\thanks{%s}}\\author{%s}']
START = ['', '\\maketitle ', '\\maketitle\n\n\\begin{abstract}%s\n\n%s\\end{abstract}\n\n', '\\tableofcontents\n', '\\begin{abstract}%s\\end{abstract}']
REST = ['%s', '\n\n%s\n\n%s', '\\section{%s}%s', '%s\\section{%s}\n\n%s\\subsection{%s}', '\\section*{%s}', '\\begin{itemize}\\item %s\\end{itemize}\\section{%s}%s', '',
        '\\appendix\\section{%s}%s', '\\section{%s}%s\\appendix\\section{%s}%s']


def run_front(case, cx):
    cls, f, s, r, start = case
    src = FRONT[f] + '\x00' + START[s] + REST[r]
    b = B(start)
    for i, part in enumerate(src.split('%s')):
        if i:
            b.w()
        b.put(part)
    if cls != 'article' and 'abstract' in src:
        return None
    front, body = b.src.split('\x00')
    text = '\\documentclass{%s}%s%s\\begin{document}%s\\end{document}' % (cls, PRE, front, body)
    doc = plas.parse(text)
    out, seen = [], {}
    try:
        walk(doc, None, [], out, seen, cx, False, None)
        structure(doc)
        got = [x[0] for x in found(out)]
        if [re.sub(r'^\W*|\W*$', '', re.sub('[“”‘’–—]', '', x)) for x in got if not x.startswith('#')] != [re.sub(r'^\W*|\W*$', '', re.sub('[“”‘’–—]', '', x[0])) for x in b.words]:
            raise Bad('reads %s instead of %s' % (got, [x[0] for x in b.words]))
        nf = front.count('w')
        if got[nf:] != [x[0] for x in b.words][nf:]:
            raise Bad('reads %s instead of %s' % (got, [x[0] for x in b.words]))
    except Bad as e:
        return Violation('%r: %s' % (text[len(PRE) + len('\\documentclass{}') + len(cls):], e))
    cx.state(text)
    cx.trace(1)
    cx.trans(len(b.words))
    cx.outcome((cls, f, s, r))


def cases_front(tier):
    return [(c, f, s, r, (f + s * 2 + r * 3) % 10) for c in ('article', 'report', 'book') for f in range(len(FRONT)) for s in range(len(START)) for r in range(len(REST))]


def setup():
    plas.preload('plasTeX.Packages.article', 'plasTeX.Packages.book', 'plasTeX.Packages.report')


def spaces(tier):
    return [
        FnSpace('follow', 'all pairs of %d constructions, one behind the other, in %s%d places (text, section, item, cell, footnote, box, ...)' % (len(ALL), 'the text, and of %d of them in ' % len(CORE) if tier == 'quick' else '', len(PLACES)),
                lambda: cases_follow(tier), run_follow, setup),
        FnSpace('triples', 'all sequences of 3 of %d constructions' % len(CORE), lambda: cases_triples(tier), run_follow, setup),
        FnSpace('nest', 'all nestings of %d containers to depth %d around %d leaves' % (len(NEST), 3 if tier == 'quick' else 4, len(LEAVES)), lambda: cases_nest(tier), run_nest, setup),
        FnSpace('sections', 'article and book: all sequences of up to 3 headings of 4 levels (starred or not), of %s without star, with 10 bodies in rotation' %
                ('4' if tier == 'quick' else '5'), lambda: cases_sections(tier), run_sections, setup),
        FnSpace('args', 'all sequences of up to 2 inline constructions in 7 kinds of arguments', lambda: cases_args(tier), run_args, setup),
        FnSpace('front', 'all combinations of title matter, beginnings and contents for 3 classes', lambda: cases_front(tier), run_front, setup),
    ]

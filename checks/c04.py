r"""C04: grouping restores every local change and leaves the context stack balanced.

Three kinds of spaces:

* histories of operations on the context API, explored state by state against
  a stack-of-frames model;
* programs made of groups of every kind, local and global changes, and probes,
  compared with mc/minitex.py, which also says which category codes are in
  force at the end;
* every construct that opens a scope (and every pair of them, nested) around
  every kind of local change: the change must be invisible afterwards and the
  stack as deep as before.
"""
import itertools

from mc import minitex, plas
from mc.core import FnSpace, Violation
from plasTeX import Command, Environment
from plasTeX.Tokenizer import EscapeSequence, Letter, Other, DEFAULT_CATEGORIES, VERBATIM_CATEGORIES
from checks.c03 import seqs

PROP = 'C04'
LEVEL = 'model_checking'
RULE = ('a state is a configuration of the model (frames with their definitions and category tables) together with the sharing of category tables in '
        'the implementation; a transition is one operation or one program; distinct_nontrivial counts distinct (space, shape, result) triples')
ASSUMPTIONS = [
    'programs TeX itself rejects are outside the property',
    r'a font or size declaration outside every group stays in force to the end of the input; it is enumerated inside groups only',
    r'register values are not covered (the property is about definitions, aliases and category codes)',
    r'\newif switches and \newcounter are global, as the property says',
    'context API: pop(obj) is issued for the innermost open object, possibly with plain groups left open inside it',
    'texts are compared with blanks removed',
]

# ---- context API -------------------------------------------------------------------

NAMES = ['zx', 'zy', 'zz']
CHARS = '!@a\\Z '


class EnvA(Environment):
    pass


class EnvB(Environment):
    class zz(Command):
        pass


class Cmd(Command):
    pass


def newclass(name, i):
    return type(name, (Command,), {'serial': i})


def ops():
    out = [('push',), ('pop',)]
    out += [('open', e) for e in (EnvA, EnvB)] + [('close',)]
    out += [('cmd',)]
    out += [('local', n) for n in NAMES[:2]] + [('global', n) for n in NAMES[:2]] + [('global', 'zz'), ('local', 'zz')]
    out += [('let', 'zx', 'zy', True), ('let', 'zx', 'zy', False), ('let', 'zy', 'zz', True), ('letc', 'zx', True), ('letc', 'zx', False)]
    out += [('cat', '!', 11), ('cat', '!', 13), ('cat', 'a', 12), ('cat', '@', 11), ('cat', '\\', 12), ('cat', '!', 12), ('verb',)]
    out += [('newcommand', 'zx', True), ('newcommand', 'zx', False), ('newdef', 'zy', True), ('newdef', 'zy', False), ('setitem', 'zx')]
    out += [('import', 'zy'), ('newcommand2', 'zx')]
    return out


OPS = ops()
_ctx = []


def base():
    """a context as a new document has it"""
    if not _ctx:
        plas.fresh()
        from plasTeX import TeXDocument
        doc = TeXDocument()
        c = doc.context
        _ctx.extend([doc, dict(c.contexts[0]), set(NAMES)])
    doc, glob, names = _ctx
    c = doc.context
    del c.contexts[1:]
    f = c.contexts[0]
    for n in names:
        dict.pop(f, n, None)
    f.categories = DEFAULT_CATEGORIES[:]
    c.mapMethods()
    return doc, c


def catof(table, ch):
    return table[ch] if isinstance(table, dict) else None


class Model(object):
    def __init__(self):
        self.frames = [(None, {}, {})]       # object, definitions, category changes
        self.verb = [False]

    def key(self):
        return tuple((k.__name__ if k else None, tuple(sorted((n, v[0]) for n, v in d.items())), tuple(sorted(c.items())), v2)
                     for (k, d, c), v2 in zip(self.frames, self.verb))


DEF = {}
for _i, _s in enumerate(DEFAULT_CATEGORIES):
    for _ch in _s:
        DEF[_ch] = _i


def run_history(hist):
    """replay a history on model and implementation; returns (model, context) or raises Violation"""
    doc, c = base()
    m = Model()
    live = []               # objects belonging to frames
    objs = [None]
    values = {}
    serial = [0]

    def value(cls):
        serial[0] += 1
        values[serial[0]] = cls
        return (serial[0], cls)

    def lookup(n):
        for k, d, cats in reversed(m.frames):
            if n in d:
                return d[n]
        return None

    for step, op in enumerate(hist):
        k = op[0]
        top = m.frames[-1]
        if k == 'push':
            c.push()
            m.frames.append((None, {}, dict(top[2])))
            m.verb.append(m.verb[-1])
            objs.append(None)
        elif k == 'open':
            e = op[1]()
            e.ownerDocument = doc
            e.macroMode = Command.MODE_BEGIN
            c.push(e)
            d = {}
            if op[1] is EnvB:
                d['zz'] = (-1, EnvB.zz)
            m.frames.append((op[1], d, dict(top[2])))
            m.verb.append(m.verb[-1])
            objs.append(e)
        elif k == 'pop':
            # closes the innermost plain group and everything opened inside it
            c.pop()
            while len(m.frames) > 1:
                f = m.frames.pop()
                m.verb.pop()
                objs.pop()
                if f[0] is None:
                    break
        elif k == 'close':
            i = max(i for i, f in enumerate(m.frames) if f[0] is not None)
            e = m.frames[i][0]()
            e.ownerDocument = doc
            e.macroMode = Command.MODE_END
            c.pop(e)
            del m.frames[i:], m.verb[i:], objs[i:]
        elif k == 'cmd':
            e = Cmd()
            e.ownerDocument = doc
            c.push(e)
            c.addLocal('zx', newclass('zx', 0))
            c.catcode('!', 3)
            c.pop(e)
        elif k == 'local':
            v = value(newclass(op[1], step))
            c.addLocal(op[1], v[1])
            top[1][op[1]] = v
        elif k in ('global', 'setitem', 'import'):
            v = value(newclass(op[1], step))
            if k == 'global':
                c.addGlobal(op[1], v[1])
            elif k == 'setitem':
                c[op[1]] = v[1]
            else:
                c.importMacros({op[1]: v[1]})
            for f in m.frames:
                f[1].pop(op[1], None)
            m.frames[0][1][op[1]] = v
        elif k in ('let', 'letc', 'newcommand', 'newcommand2', 'newdef'):
            n = op[1]
            loc = True if k == 'newcommand2' else op[-1]
            if k == 'let':
                c.let(EscapeSequence(n), EscapeSequence(op[2]), local=loc)
                v = lookup(op[2])
            else:
                old = lookup(n)
                if old is not None and k.startswith('newcommand') and old[1].__mro__[1] is Command:
                    # built-in commands are not redefined by documents
                    pass
                else:
                    old = None
                if k == 'letc':
                    c.let(EscapeSequence(n), Letter('q'), local=loc)
                elif k == 'newdef':
                    c.newdef(n, [], [Letter('q')], local=loc)
                else:
                    c.newcommand(n, 0, [Letter('q')], local=loc)
                v = None
                if old is not None:
                    continue
            for f in (m.frames if not loc else []):
                f[1].pop(n, None)
            got = c[n]
            if v is None:
                v = value(got)
                if got.__mro__[1].__name__ not in {'letc': ('LetToken',), 'newdef': ('Definition',)}.get(k, ('NewCommand',)):
                    raise Violation('after %s, \\%s is %r' % (hist[:step + 1], n, got))
            (m.frames[-1] if loc else m.frames[0])[1][n] = v
        elif k == 'cat':
            c.catcode(op[1], op[2])
            top[2][op[1]] = op[2]
        elif k == 'verb':
            c.setVerbatimCatcodes()
            top[2].clear()
            m.verb[-1] = True
        else:
            raise ValueError(k)
    # observations
    what = 'after %r: ' % (hist,)
    if len(c.contexts) != len(m.frames) or c.depth != len(m.frames):
        raise Violation(what + 'depth %d/%d, expected %d' % (len(c.contexts), c.depth, len(m.frames)), kind='depth')
    for n in NAMES:
        w = lookup(n)
        if w is None:
            bad = [x for x, y in (('in', n in c), ('has_key', c.has_key(n)), ('get', c.get(n) is not None), ('keys', n in c.keys()),
                                  ('top', n in c.top)) if y]
            if bad:
                raise Violation(what + '\\%s is still defined (%s)' % (n, bad), kind='leak')
        else:
            if not (c[n] is w[1] and c.get(n) is w[1] and n in c and c.has_key(n) and n in c.keys() and c.top[n] is w[1]):
                raise Violation(what + '\\%s is %r, expected %r' % (n, c[n], w[1]), kind='lookup')
    for ch in CHARS:
        if ch in m.frames[-1][2]:
            w = m.frames[-1][2][ch]
        else:
            w = 12
            for i, s in enumerate(VERBATIM_CATEGORIES if m.verb[-1] else DEFAULT_CATEGORIES):
                if ch in s:
                    w = i
                    break
        if c.whichCode(ch) != w:
            raise Violation(what + 'category of %r is %d, expected %d' % (ch, c.whichCode(ch), w), kind='catcode')
    ids = {}
    share = tuple(ids.setdefault(id(f.categories), len(ids)) for f in c.contexts) + (ids.get(id(c.categories), -1),)
    names = tuple(tuple(n for n in NAMES if dict.__contains__(f, n)) for f in c.contexts)
    order = {}
    mk = tuple((k.__name__ if k else None, tuple(sorted((n, order.setdefault(v[0], len(order))) for n, v in sorted(d.items()))),
                tuple(sorted(cats.items())), vb) for (k, d, cats), vb in zip(m.frames, m.verb))
    return m, (mk, share, names)


def applicable(op, m, maxframes):
    k = op[0]
    if k in ('push', 'open'):
        return len(m.frames) < maxframes
    if k == 'pop':
        return any(f[0] is None for f in m.frames[1:])
    if k == 'close':
        return any(f[0] is not None for f in m.frames[1:])
    if k == 'let':
        return any(op[2] in f[1] for f in m.frames)
    return True


def api_space(name, depth, maxframes, opset, prefix):
    def cases():
        for p in itertools.product(range(len(opset)), repeat=prefix):
            yield {'prefix': list(p), 'depth': depth}

    def run(case, cx):
        hist = []
        for i in case['prefix']:
            m, key = run_history(hist)
            if not applicable(opset[i], m, maxframes):
                return None
            hist.append(opset[i])
        todo = [hist]
        seen = set()
        while todo:
            h = todo.pop(0)
            m, key = run_history(h)
            cx.trans()
            if key in seen:
                continue
            seen.add(key)
            cx.state(key)
            cx.trace()
            cx.outcome(key)
            if len(h) < depth:
                for op in opset:
                    if applicable(op, m, maxframes):
                        todo.append(h + [op])
    return FnSpace(name, 'every history of <= %d operations on the context (%d operations, <= %d frames; states reached twice under one prefix of %d '
                   'are expanded once)' % (depth, len(opset), maxframes, prefix), cases, run, timeout=300)


# ---- programs --------------------------------------------------------------------------

PRE = (r'\newif\ifzq \newcounter{c}\def\zid#1{#1}\newcommand{\zw}[1]{(#1)}\def\za{A}\def\zb{b}\def\zG{g}\newenvironment{zenv}{\def\za{E}}{\za}'
       r'\newenvironment{zens}{\begin{center}\def\za{F}}{\za\end{center}}\makeatletter\def\z@a{L}\makeatother\def\z{Z}\catcode`\!=11 \def\z!{K}\catcode`\!=12 ')
RESET = r'\gdef\za{A}\global\let\zb\zG\zqfalse\setcounter{c}{0}'
PROBE = r'\za\zb\z@a\z!'
END = r'\za\zb\z@a\z!\ifzq Y\else N\fi\arabic{c}'
CONT = {
    'b': '{%s}', 'g': r'\begingroup %s\endgroup ', 'G': r'\bgroup %s\egroup ', 'c': r'\begin{center}%s\end{center}', 'z': r'\begin{zenv}%s\end{zenv}',
    'Z': r'\begin{zens}%s\end{zens}', 'm': '$%s$', 'M': '$$%s$$', 'e': r'\emph{%s}', 'i': r'\zid{%s}', 't': r'\begin{tabular}{ll}%s&' + PROBE + r'\\' + PROBE +
    '&' + PROBE + r'\end{tabular}', 'T': r'\begin{tabular}{l}' + PROBE + r'&%s\\[2pt]' + PROBE + r'\\%s\\\end{tabular}',
    'l': r'\begin{itemize}\item %s\item ' + PROBE + r'\end{itemize}', 'p': r'\begin{minipage}{3cm}%s\end{minipage}', 's': r'{\bfseries %s}', 'x': r'\mbox{%s}',
    'f': r'\footnote{%s}', 'q': r'\begin{equation}%s\end{equation}', 'k': r'\[%s\]', 'K': r'\(%s\)', 'n': r'$x^{%s}_{' + PROBE + '}$',
    'a': r'$\begin{array}{l}%s&' + PROBE + r'\end{array}$', 'S': r'\begin{small}%s\end{small}', 'y': r'\textbf{\itshape %s}',
}
CHANGE = {
    'D': r'\def\za{B}', 'X': r'\gdef\za{C}', 'L': r'\let\zb\za ', 'Y': r'\global\let\zb\za ', 'R': r'\renewcommand{\za}{R}', 'A': r'\makeatletter ',
    'O': r'\makeatother ', 'C': r'\catcode`\!=11 ', 'I': r'\catcode`\!=12 ', 'J': r'\catcode`\!=13 \def!{v}', 'U': r'\zqtrue\stepcounter{c}',
    'V': r'\def\zn{n}\zn ', 'W': r'\renewenvironment{zenv}{<}{>}', 'H': r'\expandafter\def\csname za\endcsname{h}', 'N': r'\newcommand{\znew}{w}\znew ',
    'P': r'\global\def\za{D}\def\za{l}', 'Q': r'\zid{\def\za{Q}}', 'B': r'\let\zb=b', 'E': r'\def\zd{\def\za{d}}\zd ',
}


def show(s, probe=PROBE):
    out = ''
    for x in s:
        if type(x) is tuple:
            out += CONT[x[0]].replace('%s', show(x[1])) + probe
        else:
            out += CHANGE[x] + probe
    return out


def trees(n, kinds, leaves, depth):
    """sequences of trees with containers only at inner nodes"""
    memo = {}

    def seq(k, d):
        if (k, d) not in memo:
            out = [()] if k == 0 else []
            for i in range(1, k + 1):
                for a in item(i, d):
                    for b in seq(k - i, d):
                        out.append((a,) + b)
            memo[k, d] = out
        return memo[k, d]

    def item(k, d):
        out = list(leaves) if k == 1 else []
        if d > 0 and k > 1:
            for h in kinds:
                for a in seq(k - 1, d - 1):
                    out.append((h, a))
        return out
    return seq(n, depth)


def frozen(s):
    """category codes changed inside a script: plasTeX reads scripts like arguments, so the change comes too late for the script itself"""
    return any(type(x) is tuple and (x[0] == 'n' and any(c in repr(x[1]) for c in "'A' 'O' 'C' 'I' 'J'".split()) or frozen(x[1])) for x in s)


def final(src):
    """(text, context depth, table of category codes) of the implementation"""
    tex = plas.newtex()
    c = tex.ownerDocument.context
    n = len(c.contexts)
    tex.input(src)
    doc = tex.parse()
    return ''.join(str(doc.textContent).split()), len(c.contexts) - n, {ch: c.whichCode(ch) for ch in map(chr, range(128))}, c


def oracle(src):
    t = minitex.Tex(src)
    try:
        text = ''.join(t.run().split())
    except minitex.Skip:
        return None
    return text, {ch: t.catof(ch) for ch in map(chr, range(128))}, t


def check(src, want, label, case):
    try:
        got, depth, cats, c = final(src)
    except Exception as e:
        return Violation('%s\n raised %s: %s; expected text %r' % (src, type(e).__name__, e, want[0]), kind=label + type(e).__name__, case=case)
    if got != want[0]:
        return Violation('%s\n gave %r, expected %r' % (src, got, want[0]), kind=label, case=case)
    if depth:
        return Violation('%s\n left %d frames on the context stack: %s' % (src, depth, [f.name for f in c.contexts[1:]]), kind=label + 'depth', case=case)
    bad = {ch: (cats[ch], want[1][ch]) for ch in cats if cats[ch] != want[1][ch] and ch not in '\r\x7f\x0c'}
    if bad:
        return Violation('%s\n left the category codes (actual, expected) %r' % (src, bad), kind=label + 'cat', case=case)
    t = want[2]
    for n in ('za', 'zb', 'z', 'zn', 'znew', 'z@a', 'z!', 'zd'):
        if n not in ('z@a', 'z!') and (n in c and not c[n].__mro__[1].__name__ == 'UnrecognizedMacro') != (n in t.eq):
            return Violation('%s\n \\%s is%s defined at the end' % (src, n, '' if n in c else ' not'), kind=label + 'defined', case=case)
    return None


def run_programs(name):
    def run(case, cx):
        pre = case['pre']
        good = []
        for p in case['progs']:
            w = oracle(pre + p)
            if w is None:
                cx.count('discarded')
                continue
            good.append((p, w))
            cx.trans()
            cx.outcome((name, w[0]))
        if not good:
            return None
        cx.trace(len(good))
        cx.count('programs', len(good))
        if len(good) > 1:
            src = pre + ';'.join('{%s%s}' % (RESET, p) for p, w in good)
            try:
                got, depth, cats, c = final(src)
                w = oracle(src)
                if w is not None and not depth and got == w[0] and all(cats[x] == w[1][x] for x in cats if x not in '\r\x7f\x0c'):
                    return None
            except Exception:
                pass
        for p, w in good:
            v = check(pre + p, w, name, {'pre': pre, 'progs': [p]})
            if v is not None:
                return v
        if len(good) > 1 and w is not None:
            w = oracle(src)
            if w is None:
                return None
            return check(src, w, name + 'batch', {'pre': src, 'progs': ['']})
    return run


def batches(progs, n=20):
    batch = []
    for p in progs:
        batch.append(p)
        if len(batch) == n:
            yield {'pre': PRE, 'progs': batch}
            batch = []
    if batch:
        yield {'pre': PRE, 'progs': batch}


def prog_space(name, n, kinds, leaves, depth):
    def cases():
        for k in range(1, n + 1):
            for c in batches(show(s) + END for s in trees(k, kinds, leaves, depth) if any(type(x) is tuple for x in s) and not frozen(s)):
                yield c
    return FnSpace(name, 'every sequence of at most %d nodes: scopes %s around changes %s, nesting <= %d, with probes of two macros and two category codes '
                   'after every node' % (n, kinds, leaves, depth), cases, run_programs(name), timeout=120)


# ---- every construct that opens a scope ---------------------------------------------------

SCOPES = [
    '{%s}', r'\begingroup %s\endgroup ', r'\bgroup %s\egroup ', r'\bgroup %s}', r'{%s\egroup ', r'\emph{%s}', r'\textbf{%s}', r'\textit{\emph{%s}}', r'\mbox{%s}',
    r'\footnote{%s}', r'\underline{%s}', r'\centerline{%s}', r'\fbox{%s}', r'\parbox{3cm}{%s}', r'\section{%s}', r'\subsection*{%s}', r'\section[%s]{t}',
    r'\paragraph{%s}', '$%s$', '$$%s$$', r'\[%s\]', r'\(%s\)', r'$x^{%s}$', r'$x_{%s}$', r'$\frac{%s}{b}$', r'$\frac{a}{%s}$', r'$\sqrt[3]{%s}$', r'$\mbox{%s}$',
    r'$\mbox{$%s$}$', r'$\left(%s\right)$', r'$\overline{%s}$', r'\begin{center}%s\end{center}', r'\begin{quote}%s\end{quote}', r'\begin{quotation}%s\end{quotation}',
    r'\begin{verse}%s\end{verse}', r'\begin{flushleft}%s\end{flushleft}', r'\begin{itemize}\item %s\end{itemize}', r'\begin{enumerate}\item a\item %s\end{enumerate}',
    r'\begin{description}\item[a] %s\end{description}', r'\begin{description}\item[{%s}] a\end{description}', r'\begin{equation}%s\end{equation}',
    r'\begin{eqnarray}%s&=&b\end{eqnarray}', r'\begin{eqnarray}a&=&%s\\c&=&d\end{eqnarray}', r'\begin{eqnarray*}a&=&b\\c&=&%s\end{eqnarray*}',
    r'\begin{displaymath}%s\end{displaymath}', r'\begin{math}%s\end{math}', r'\begin{tabular}{l}%s\end{tabular}', r'\begin{tabular}{l}%s\\\end{tabular}',
    r'\begin{tabular}{ll}a&%s\end{tabular}', r'\begin{tabular}{ll}%s&a\\b&c\end{tabular}', r'\begin{tabular}{ll}a&b\\\hline c&%s\\\hline\end{tabular}',
    r'\begin{tabular}{ll}\multicolumn{2}{c}{%s}\\a&b\end{tabular}', r'\begin{tabular}{p{2cm}}%s\tabularnewline a\end{tabular}', r'\begin{tabular}{l}{%s}\end{tabular}',
    r'$\begin{array}{l}%s\end{array}$', r'\[\begin{array}{ll}a&%s\\\end{array}\]', r'\begin{minipage}{2cm}%s\end{minipage}', r'\begin{figure}%s\end{figure}',
    r'\begin{figure}\caption{%s}\end{figure}', r'\begin{table}[h]%s\caption{c}\end{table}', r'\begin{zthm}%s\end{zthm}', r'\begin{zthm}[%s]a\end{zthm}',
    r'\begin{small}%s\end{small}', r'\begin{bfseries}%s\end{bfseries}', r'{\bfseries %s}', r'{\small\itshape %s}', r'{\it %s}', r'\begin{center}\small %s\end{center}',
    r'\begingroup\bfseries %s\endgroup ', r'\begin{center}\raggedright %s\end{center}', r'\begin{abstract}%s\end{abstract}', r'\begin{tabbing}%s\=b\\c\>d\end{tabbing}',
    r'\begin{list}{}{}\item %s\end{list}', r'\begin{trivlist}\item %s\end{trivlist}', r'\begin{thebibliography}{9}\bibitem{a} %s\end{thebibliography}',
    r'\begin{picture}(1,1)\put(0,0){%s}\end{picture}', r'\begin{zenv}%s\end{zenv}', r'\begin{zens}%s\end{zens}', r'\begin{zeno}[%s]a\end{zeno}', r'\zbb %s\zee ',
    r'\zbc %s\zec ', r'\begin{center}{\bfseries %s}\end{center}', r'\begin{center}\begingroup %s\endgroup\end{center}', r'\title{%s}', r'\index{%s}', r'\hbox{%s}', r'\vbox{%s}',
    r'\begin{sloppypar}%s\end{sloppypar}', r'\raisebox{2pt}{%s}', r'\makebox[2cm]{%s}', r'\framebox{%s}', r'\textsc{%s}', r'\verb|a|{%s}\verb+b+',
    r'\begin{verbatim}q\end{verbatim}{%s}', r'\"{%s}', r"\'{%s}", r'\author{%s}', r'\thanks{%s}', r'\marginpar{%s}', r'\newsavebox{\zbox}\sbox{\zbox}{%s}',
    r'\begin{appendix}%s\end{appendix}', r'\begin{letter}{a}%s\end{letter}', r'\begin{zunknown}%s\end{zunknown}', r'\cite[%s]{a}',
    r'$\hat{%s}$', r'$\stackrel{%s}{a}$', r'\begin{lrbox}{\zbox}%s\end{lrbox}', r'\rule{1pt}{1pt}{%s}', r'\url{a}{%s}',
]
SPRE = (r'\newtheorem{zthm}{T}\newenvironment{zenv}{x}{y}\newenvironment{zens}{\begin{center}\bfseries}{\end{center}}\newenvironment{zeno}[1][d]{(#1}{)}'
        r'\newcommand{\zbb}{\begingroup}\newcommand{\zee}{\endgroup}\def\zbc{\begin{center}}\def\zec{\end{center}}')
LOCAL = [r'\def\za{B}', r'\let\za\relax ', r'\renewcommand\za{C}', r'\catcode`\!=11 ', r'\makeatletter ', r'\let\znew=a', r'\newcommand{\znew}{n}', r'\def\znew{m}',
         r'\catcode`\|=13 \def|{w}', r'\newenvironment{znew}{a}{b}', r'\edef\za{E}', r'\expandafter\def\csname znew\endcsname{p}', r'\bfseries\def\za{B}\itshape ',
         r'\zswap ', r'\let\za=\zz ', r'\providecommand{\znew}{p}', r'\renewenvironment{zenv}{p}{q}', r'\chardef\znew=65 ',
         r'\DeclareRobustCommand{\znew}{x}', r'\long\def\za{L}']
GLOBAL = [(r'\gdef\za{G}', 'za'), (r'\global\let\za\zg ', 'za'), (r'\global\def\znew{N}', 'znew'), (r'\newcounter{zc}', 'zc'), (r'\newif\ifzi\zitrue ', 'zi'), (r'\stepcounter{zk}', 'zk'),
          (r'\setcounter{zk}{1}', 'zk'), (r'\zqtrue ', 'zq'), (r'\xdef\za{G}', 'za')]


def scope_run(case, cx):
    src = SPRE + r'\def\za{A}\def\zg{G}\def\zz{Z}\def\zswap{\def\za{S}\let\zz\za}\newcounter{zk}\newif\ifzq ' + case['open']
    cx.trans()
    cx.trace()
    doc = case.get('doc')
    if doc:
        full = r'\documentclass{article}' + src.replace(case['open'], '') + r'\begin{document}' + case['open'] + r'\za!\end{document}'
    else:
        full = src + r'\za '
    tex = plas.newtex()
    c = tex.ownerDocument.context
    n = len(c.contexts)
    before = {ch: c.whichCode(ch) for ch in map(chr, range(256))}
    try:
        tex.input(full)
        out = tex.parse()
    except Exception as e:
        return Violation('%s\n raised %s: %s' % (full, type(e).__name__, e), kind='exc' + type(e).__name__)
    if len(c.contexts) != n or c.depth != n:
        return Violation('%s\n left the context stack at depth %d, not %d: %s' % (full, len(c.contexts), n, [f.name for f in c.contexts[n:]]), kind='depth')
    after = {ch: c.whichCode(ch) for ch in before}
    if after != before:
        return Violation('%s\n changed the category codes of %r' % (full, [ch for ch in before if before[ch] != after[ch]]), kind='catcode')

    def body(name):
        d = c.get(name)
        if d is None or d.__mro__[1].__name__ == 'UnrecognizedMacro':
            return None
        return ''.join(getattr(d, 'definition', None) or ['?'])
    want = {'za': 'A', 'zz': 'Z', 'znew': None, 'endznew': None, 'zenv': 'x'}
    g = case.get('global')
    if g == 'za':
        want['za'] = 'G'
    elif g == 'znew':
        want['znew'] = 'N'
    elif g == 'zc' and 'zc' not in c.counters:
        return Violation('%s\n the counter is gone' % full, kind='global')
    elif g == 'zk' and c.counters['zk'].value != case['times']:
        return Violation('%s\n the counter is %s' % (full, c.counters['zk'].value), kind='global')
    elif g == 'zi' and (body('ifzi') is None or not c['ifzi'].state or body('zifalse') is None):
        return Violation('%s\n the switch is gone' % full, kind='global')
    elif g == 'zq' and not c['ifzq'].state:
        return Violation('%s\n the switch is off' % full, kind='global')
    for k, v in want.items():
        if body(k) != v:
            return Violation('%s\n \\%s is %r afterwards, expected %r' % (full, k, body(k), v), kind='def' + ('g' if g else ''))
    cx.outcome(case['open'])
    return None


def nestable(a, b):
    """does LaTeX allow scope b inside scope a?"""
    if '{%s}' in a and a != '{%s}' and ('verb' in b or b in ('{%s\\egroup ', '\\bgroup %s}')):
        return False        # not inside arguments
    if 'verb' in b and '[%s]' in a or 'tabbing' in b and ('tabular' in a or 'array' in a):
        return False
    if ('$' in a or 'math' in a or '\\[' in a or '\\(' in a or 'eq' in a) and not ('$\\mbox{%s}$' == a):
        if '\\begin' in b and not any('{%s}' % e in b for e in ('array', 'tabular', 'minipage', 'zenv', 'small')):
            return False    # not in mathematics
        if any(m in b for m in ('section', 'paragraph', '\\zbc')):
            return False
    return True


def scope_cases(tier):
    q = tier == 'quick'
    for s in SCOPES:
        for l in LOCAL:
            if '|' in l and 'index' in s:
                continue        # | is special there
            for doc in (0, 1):
                yield {'open': s.replace('%s', l), 'doc': doc}
                yield {'open': '{' + s.replace('%s', l) * 2 + '}', 'doc': doc}
        for g, n in GLOBAL:
            if 'index' in s:
                continue    # written out and read back
            for doc in (0, 1):
                for s2 in ['%s', '{%s}', r'\emph{%s}', r'\begin{center}%s\end{center}']:
                    t = s2.replace('%s', s.replace('%s', g))
                    yield {'open': t, 'doc': doc, 'global': n, 'times': 1}
    inner = LOCAL[:1] + LOCAL[3:4] + LOCAL[7:8] if q else LOCAL
    for a, b in itertools.product(SCOPES, repeat=2):
        if not nestable(a, b):
            continue
        if a.count('$') and ('$' in b or 'math' in b or r'\[' in b or r'\(' in b or 'equation' in b or 'eqnarray' in b):
            continue
        for l in (inner if not q else inner[:1]):
            if not q:
                yield {'open': a.replace('%s', b.replace('%s', l))}
            yield {'open': a.replace('%s', l + b.replace('%s', inner[1]) + inner[2]), 'doc': 1}


def spaces(tier):
    q = tier == 'quick'
    allk = ''.join(CONT)
    small = [o for o in OPS if o[0] in ('push', 'pop', 'open', 'close') or o in (
        ('local', 'zx'), ('global', 'zx'), ('let', 'zx', 'zy', True), ('local', 'zy'), ('cat', '!', 11), ('cat', '!', 12), ('cat', 'a', 12), ('verb',))]
    return [
        api_space('api', 3 if q else 4, 4, OPS, 1),
        api_space('api-deep', 5 if q else 6, 4, small, 2 if q else 3),
        FnSpace('scopes', '%d scopes and all pairs of them, %d local and %d global changes inside' % (len(SCOPES), len(LOCAL), len(GLOBAL)),
                lambda: scope_cases(tier), scope_run, timeout=60),
        prog_space('programs', 3, allk, 'DXLARCJU' if q else ''.join(CHANGE), 2),
        prog_space('programs-deep', 4 if q else 5, 'bczmte' if q else 'bgczmtei', 'DXAC' if q else 'DXLAC', 3),
    ]

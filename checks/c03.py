r"""C03: conditionals process exactly the branch TeX would select.

Programs built from conditionals are enumerated exhaustively from bounded
grammars, run through the real parser and compared with mc/minitex.py.  Every
program ends by printing the state its side effects left behind (a counter, a
switch, a macro), so an untaken branch that is executed shows.
"""
import itertools

from mc.core import FnSpace, Violation
from checks import c02

PROP = 'C03'
LEVEL = 'model_checking'
RULE = ('a case is a batch of programs; every program is evaluated by the reference expander (programs TeX rejects are '
        'discarded) and by the real parser; distinct_nontrivial counts distinct (program shape, text) pairs')
ASSUMPTIONS = [
    'programs TeX itself rejects are outside the property',
    r'undefined control sequences named \if... do not stand in skipped text (plasTeX takes them for conditionals, TeX does not)',
    r'a decimal integer is not directly followed by a register (\ifnum 3\count is a documented product in plasTeX)',
    r'\newif switches are global, as the property says',
    'texts are compared with blanks removed',
]
oracle = c02.oracle
compare = c02.compare
space = c02.space

PRE = (r'\newcounter{c}\newif\ifzq \newif\ifzr \newcount\zn \newlength\zl \def\za{A}\def\zx{2}\def\zy{-3}\def\zid#1{#1}\def\zw#1{(#1)}'
       r'\def\zs{\stepcounter{c}}\newcommand{\zo}[2][k]{#1#2}\def\zm{\ifzq m\else n\fi}\def\zt{\iftrue t\else u\fi}\def\zif#1#2{\ifnum#1>1 #2\else e\fi}')
RESET = r'\zn=0\relax\zl=0pt\relax\setcounter{c}{0}\zqfalse\zrfalse\def\za{A}'
STATE = r'[\arabic{c}\ifzq Y\else N\fi\ifzr Y\else N\fi\za]'


def wrap(p):
    return RESET + '{}' + p + STATE


def batches(progs, pre=PRE, n=40):
    progs = [wrap(p) for p in progs]
    for i in range(0, len(progs), n):
        yield {'pre': pre, 'progs': progs[i:i + n]}


# ---- single tests -----------------------------------------------------------------

INTS = ['0', '1', '2', '-1', '--2', '+3', r'\zx', r'\zy', r'-\zx', r'\value{c}', r'\zn', r'-\zn', "'17", '"1F', '`b', r'`\%', r'1\zx',
        '- 2', '12', '007', r'\ifzq 1\else 2\fi', r'\ifnum1<2 3\fi', r'\zid{2}', r'\zid 1', r'\number\zx', '+-+1']
DIMS = ['0pt', '1pt', '2pt', '-1pt', '1.5pt', '12pt', '1pc', '1in', '2.54cm', '25.4mm', '72bp', '65536sp', '1sp', '.5pt', '-.5pt', '+,5pt', '--.5pt', r'\zl', r'-\zl', r'2\zl',
        r'\zx pt', '1 pt', '1,5pt', '-2\n cm', '1cc', '1dd']
XTOKS = ['a', 'b', '!', r'\za', r'\zA', r'\zB', r'\zC', r'\zD', r'\zE', r'\zF', r'\zG', r'\zH', r'\zI', r'\relax', r'\undefined', r'\zU', r'\ifzq', r'\iftrue',
         r'\iffalse', r'\zq', r'\zT', r'\zS', r'\zK', r'\zL', r'\zM', r'\zV', r'\zP', r'\zz', r'\fi', r'\else', '(', '1', r'\empty', r'\zN']
XPRE = (r'\def\zA{A}\def\zB{B}\let\zC=\za \newcommand\zD{A}\newcommand*\zE{A}\def\zF#1{A}\def\zG#1{A#1}\newcommand\zH[1]{A#1}\long\def\zI#1{A#1}'
        r'\let\zT=a\let\zS=\relax \def\zK#1.{A#1}\newcommand*\zL[1]{A#1}\def\zM{\za}\newcommand\zV[1][x]{A#1}\def\zP#1,{A#1}\def\zN{}')


def test_cases(tier):
    q = tier == 'quick'
    ends = ['X', ' X', r'\relax X', r'\za']
    progs = []
    for n, c in ((0, 0), (2, 1), (-3, 2)):
        for a in INTS:
            for b in INTS:
                if q and INTS.index(a) > 11 and INTS.index(b) > 11 and a != b:
                    continue
                for r in '<=>':
                    sp = ' ' if a[-1:].isdigit() and (INTS.index(b) % 2) else ''
                    progs.append(r'\zn=%d\relax\setcounter{c}{%d}\ifnum%s%s%s%s %s\else F\fi' % (
                        n, c, ('' if a[:1] in '\\' else ' ') + a, sp, r, b, 'X'))
            for e in ends:
                progs.append(r'\zn=%d\setcounter{c}{%d}\ifodd%s%s\else F\fi' % (n, c, ('' if a[0] == '\\' else ' ') + a, e))
                progs.append(r'\zn=%d \setcounter{c}{%d}\ifnum 1<%s%s\else F\fi' % (n, c, a, e))
            progs.append(r'\zn=%d\relax\ifnum%s=%s\else F\fi' % (n, a if a[0] == '\\' else ' ' + a, a))
            progs.append(r'\zn=%d\relax\ifodd%s\else F\fi G' % (n, a if a[0] == '\\' else ' ' + a))
            progs.append(r'\zn=%d\relax\ifodd%s\fi G' % (n, a if a[0] == '\\' else ' ' + a))
    for z in ('0pt', '1.5pt', '-2cm'):
        for a in DIMS:
            for b in DIMS:
                if q and DIMS.index(a) > 8 and DIMS.index(b) > 8 and (DIMS.index(a) + DIMS.index(b)) % 3:
                    continue
                for r in '<=>':
                    progs.append(r'\zl=%s\relax\ifdim%s%s%s X\else F\fi' % (z, ('' if a[0] == '\\' else ' ') + a, r, b))
    for c in batches(progs):
        yield c


def case_cases(tier):
    sel = ['-2', '-1', '0', '1', '2', '3', '4', '7', r'\zx', r'\zy', r'\value{c}', r'\ifzq1\else2\fi', r'\zn', "'3", '+1', '--1',
           '\\ifcase1 0\\or 3\\or 2\\else 1\\fi']
    progs = []
    for s in sel:
        for end in (' ', r'\relax ', ''):
            for n in range(0, 5):
                for els in ('', r'\else z', r'\else\zs '):
                    for body in ('%s', '', r'\zs %s', r'\ifzq p\else %s\fi', r'\ifcase\value{c} p\or q\else %s\fi', r'\zqtrue %s', r'\zif{2}{%s}'):
                        if body and not end:
                            if s[-1:].isdigit() or s[0] == '`':
                                continue
                        parts = [body % 'abcde'[i] if '%s' in body else body for i in range(n + 1)]
                        for pre in ('', r'\setcounter{c}{2}\zn=1\relax '):
                            progs.append(pre + r'\ifcase%s%s%s' % (s if s[0] == '\\' else ' ' + s, end, r'\or '.join(parts)) + els + r'\fi r')
    for c in batches(progs):
        yield c


def ifx_cases(tier):
    progs = []
    for a, b in itertools.product(XTOKS, repeat=2):
        ja = a + (' ' if a[0] == '\\' else '')
        jb = b + (' ' if b[0] == '\\' else '')
        progs.append(r'\ifx%s%sT\else F\fi' % (ja, jb))
    for a in XTOKS:
        ja = a + (' ' if a[0] == '\\' else '')
        progs.append(r'\ifx%s%s\else F\fi' % (ja, ja))
        if a[0] == '\\':
            progs.append(r'\ifdefined%s T\else F\fi' % a)
            progs.append(r'\ifdefined%s\else F\fi' % a)
            progs.append(r'\expandafter\ifx\csname %s\endcsname\relax T\else F\fi' % a[1:])
            progs.append(r'\expandafter\ifx\csname %s\endcsname%s T\else F\fi' % (a[1:], a))
            progs.append(r'\expandafter\ifx%s\relax T\else F\fi' % a)
            progs.append(r'{\let\zz%s \ifx\zz%s T\else F\fi}' % (a, a))
            progs.append(r'{\let\zz%s \def%s{q}\ifx\zz%s T\else F\fi\ifdefined\zz T\else F\fi}' % (a, a, a))
            progs.append(r'\ifcsname %s\endcsname T\else F\fi' % a[1:])
    # \ifx in bodies, on arguments of any length
    for a in ['', 'a', 'aa', 'ab', r'\za', r'\zA', '{a}', r'\relax', 'x', r'\undefined', r'\za\za', '!']:
        for t in (r'\ifx#1aT\else F\fi', r'\ifx a#1T\else F\fi', r'\ifx\relax#1\relax T\else F\fi', r'\ifx\zc#1\zc T\else F\fi', r'\ifx#1\za T\else F\fi',
                  r'\def\zz{#1}\ifx\zz\za T\else F\fi', r'\def\zz{#1}\ifx\zz\empty T\else F\fi', r'\ifx#1#1T\else F\fi', r'\ifx!#1!T\else F\fi'):
            for h in (r'\def\zf#1{%s}', r'\newcommand{\zf}[1]{%s}', r'\newcommand{\zf}[1][]{%s}'):
                progs.append('{' + h % t + (r'\zf[%s]' if '[]' in h else r'\zf{%s}') % a + '}')
    # undefined macros do not become defined by being looked at
    for look in (r'\ifx\zU\relax\fi', r'\ifdefined\zU\fi', r'\iffalse\zU\fi', r'\let\zz\za', r'\ifcsname zU\endcsname\fi', r'{\def\zU{x}\zU}'):
        for n in (1, 2):
            progs.append(look * n + r'\ifdefined\zU T\else F\fi\ifx\zU\undefined T\else F\fi\ifcsname zU\endcsname T\else F\fi')
    for p in progs:
        # definitions in these programs stay local, so they can share a document
        pass
    for c in batches(['{%s}' % p for p in progs], PRE + XPRE):
        yield c


# ---- trees of conditionals ------------------------------------------------------------

HEAD = {'t': r'\iftrue ', 'f': r'\iffalse ', 'q': r'\ifzq ', 'n': r'\ifnum\value{c}>0 ', 'x': r'\ifx\za\zx ', 'd': r'\ifdefined\zr '}
LEAF = ['L', 'S', 'Q', 'M']


def seqs(n, kinds, leaves, depth=3):
    """all sequences of conditional trees with n nodes altogether"""
    memo = {}

    def seq(k, d):
        if (k, d) in memo:
            return memo[k, d]
        out = [()] if k == 0 else []
        for i in range(1, k + 1):
            for a in item(i, d):
                for b in seq(k - i, d):
                    out.append((a,) + b)
        memo[k, d] = out
        return out

    def item(k, d):
        out = []
        if k == 1:
            out += leaves
        if d > 0:
            for h in kinds:
                if h == 'c':
                    for parts in split(k - 1, 3, d - 1):
                        out.append((h,) + parts)
                        out.append(('C',) + parts)
                    for parts in split(k - 1, 2, d - 1):
                        out.append((h,) + parts)
                else:
                    for a in seq(k - 1, d - 1):
                        out.append((h, a))
                    for parts in split(k - 1, 2, d - 1):
                        out.append((h,) + parts)
        return out

    def split(k, m, d):
        if m == 1:
            return [(s,) for s in seq(k, d)]
        return [(a,) + r for i in range(k + 1) for a in seq(i, d) for r in split(k - i, m - 1, d)]
    return seq(n, depth)


def show(s, names):
    out = ''
    for x in s:
        if x == 'L':
            out += next(names)
        elif x == 'S':
            out += r'\zs '
        elif x == 'Q':
            out += r'\zqtrue '
        elif x == 'R':
            out += r'\ifzq\zqfalse\else\zqtrue\fi '
        elif x == 'M':
            out += r'\zm '
        elif x == 'T':
            out += r'\zif{\value{c}}{\zs}'
        elif x == 'D':
            out += r'\def\za{%s}' % next(names)
        elif x == 'W':
            out += r'\zid{\ifzq %s\fi}' % next(names)
        elif x[0] == 'c':
            out += r'\ifcase\value{c} ' + show(x[1], names) + ''.join(r'\or ' + show(y, names) for y in x[2:]) + r'\fi '
        elif x[0] == 'C':
            out += r'\ifcase\value{c} ' + show(x[1], names) + ''.join(r'\or ' + show(y, names) for y in x[2:-1]) + \
                   r'\else ' + show(x[-1], names) + r'\fi '
        else:
            out += HEAD[x[0]] + show(x[1], names)
            if len(x) > 2:
                out += r'\else ' + show(x[2], names)
            out += r'\fi '
    return out


def tree_cases(n, kinds, leaves, depth=3):
    def gen():
        progs = []
        for k in range(1, n + 1):
            for s in seqs(k, kinds, leaves, depth):
                progs.append(show(s, iter('abcdeghijkop')))
        for c in batches(progs, n=80):
            yield c
    return gen


# ---- places ---------------------------------------------------------------------------

PLACES = ['%s', '{%s}', r'\zid{%s}', r'\zw{%s}', r'\emph{%s}', r'\zo[%s]{v}', r'\zo{%s}', r'\begin{center}%s\end{center}', r'\begingroup %s\endgroup ',
          r'\def\zz{%s}\zz\zz', r'\def\zz#1{%s#1}\zz x', r'\newcommand{\zz}{%s}\zz\zz', r'\def\zz#1{#1}\zz{%s}', r'\def\zz#1.{#1}\zz %s.',
          r'\newenvironment{zenv}{%s}{x}\begin{zenv}y\end{zenv}', r'\newenvironment{zenv}{x}{%s}\begin{zenv}y\end{zenv}',
          r'\begin{center}\emph{\zid{%s}}\end{center}', r'\iftrue %s\else w\fi ', r'\iffalse w\else %s\fi ', r'\iffalse %s\fi ', r'\ifcase1 u\or %s\else w\fi ',
          r'\ifnum\ifnum1<2 1\else 2\fi=1 %s\else w\fi ', r'\expandafter\zid\expandafter{%s}', r'$%s$', r'\zid\zid{%s}', r'\mbox{%s}', r'\textbf{\emph{%s}}',
          r'\def\zz{\def\zzz{%s}\zzz}\zz', r'\let\zz\zid\zz{%s}', r'\csname zid\endcsname{%s}', r'\zif{2}{%s}', r'\zif{1}{%s}']


def place_cases(tier):
    q = tier == 'quick'
    small = [show(s, iter('abcdeghijkop')) for k in ((1, 2) if q else (1, 2, 3)) for s in seqs(k, 'tfqc', ['L', 'S', 'Q'], 2)]
    for pl in PLACES:
        progs = []
        for p in small:
            if r'\zid\zid' in pl and not p.startswith('\\if'):
                continue
            progs.append('{' + pl.replace('%s', p) + '}')
            progs.append('{' + pl.replace('%s', r'\zqtrue ' + p) + '}')
        for c in batches(progs, n=60):
            yield c
    for a, b in itertools.product(PLACES, repeat=2):
        progs = []
        for p in (r'\ifzq a\else b\fi', r'\ifcase3 a\or b\else\ifzq c\else d\fi\fi', r'\iftrue\ifnum1>2 a\fi\zs\else\zs b\fi'):
            progs.append('{' + a.replace('%s', b.replace('zz', 'yy').replace('zenv', 'yenv').replace('#1', '##1' if 'zz' in a and '#1' in b else '#1')
                                         .replace('%s', p)) + '}')
        for c in batches(progs):
            yield c


# ---- what may stand in a branch -----------------------------------------------------------

ODD = [r'\iffy ', r'\iff ', r'\ifhead{x}', r'\zfi ', r'\zelse ', r'\zift a\zfi ', r'\zift a\else b\zfi ', r'\zift a\zelse b\fi ', r'\def\zz{\fi}', r'\def\zz{\else}',
       r'\def\zz#1\fi{x}', r'\newif\ifzn ', r'\newif\ifzn\zntrue ', r'\newif\ifzn\ifzn a\else b\fi ', r'\let\zz\fi ', r'\let\zz\iftrue ', r'\catcode`\@=11 \zs@x ',
       r'\catcode`\!=14 !x\fi' + '\n', r'\zs ', r'\zqtrue ', r'{', r'}', r'\begingroup ', r'#', r'\zundefined ', '%\\fi\n', r'\expandafter\zid\fi ',
       r'\expandafter\zid\else ', r'\stepcounter{c}', r'\gdef\za{G}', r'\renewcommand\za{R}', r'\addtocounter{c}{5}', r'\zq ', '\n\n', r'\csname fi\endcsname ',
       r'\setcounter{c}{\ifzq 3\else 4\fi}', r'\global\zn=3 ', r'\zid{\fi}', r'\zid{\else}', r'\begin{center}', r'\end{center}', r'\or ',
       r'\zfirst ', r'\newcommand\zz{\ifzq}', r'\zz ', r'{\fi}', r'\ifodd1\else x\fi', r'\let\ifzq\iftrue ', r'\let\zsave\ifzq ', r'\zsave s\else t\fi ']
OPRE = (r'\def\iffy{Y}\def\iff{I}\def\ifhead#1{H#1}\let\zfi\fi\let\zelse\else\let\zift\iftrue \catcode`\@=11 \def\zs@x{\stepcounter{c}v}'
        r'\catcode`\@=12 \def\zfirst#1{}')


def odd_cases(tier):
    q = tier == 'quick'
    frames = [r'\iftrue %s a\else b\fi ', r'\iffalse %s a\else b\fi ', r'\iftrue a\else %s b\fi ', r'\iffalse a\else %s b\fi ', r'\ifcase1 %s a\or b\or c\fi ',
              r'\ifcase1 a\or %s b\or c\fi ', r'\ifcase1 a\or b\or %s c\fi ', r'\ifcase4 a\or %s b\else c\fi ', r'\iffalse\iftrue %s a\else b\fi c\else d\fi ',
              r'\iftrue\iffalse %s a\else b\fi c\else d\fi ', r'\ifzq a\iftrue %s\fi b\fi ', r'\def\zz{\iftrue %s a\else b\fi}\zz ',
              r'\zid{\iftrue %s a\else b\fi}', r'\emph{\iffalse %s a\else b\fi}']
    for f in frames:
        for o in ODD:
            yield {'pre': PRE + OPRE, 'progs': [wrap(f % o)]}
        if q:
            continue
        for o in itertools.product(ODD, repeat=2):
            yield {'pre': PRE + OPRE, 'progs': [wrap(f % ''.join(o))]}
    if q:
        for o in itertools.product(ODD, repeat=2):
            for f in frames[:2]:
                yield {'pre': PRE + OPRE, 'progs': [wrap(f % ''.join(o))]}


# ---- token sequences -----------------------------------------------------------------------

TOKS = [r'\iftrue ', r'\iffalse ', r'\ifzq ', r'\ifcase', '1 ', r'\or ', r'\else ', r'\fi ', 'a', r'\zqtrue ', r'\zt ', '{', '}', r'\ifnum']
EXP = [r'\expandafter', r'\iftrue ', r'\iffalse ', r'\else ', r'\fi ', r'\zw ', r'\zfst ', r'\zsnd ', 'a', '{b}', r'\zt ']


def token_cases(toks, n, pre):
    def gen():
        batch = []
        for k in range(1, n + 1):
            for s in itertools.product(toks, repeat=k):
                lv = nest = 0
                for t in s:
                    if t == '{':
                        lv += 1
                    elif t == '}':
                        lv -= 1
                    elif t[:3] == r'\if':
                        nest += 1
                    elif t == r'\fi ':
                        nest -= 1
                    elif t in (r'\or ', r'\else ') and nest <= 0:
                        nest = -1
                    if lv < 0 or nest < 0:
                        break
                if lv or nest or not any(t[:3] == r'\if' for t in s):
                    continue
                batch.append(wrap('{' + ''.join(s) + '}'))
                if len(batch) == 60:
                    yield {'pre': pre, 'progs': batch}
                    batch = []
        if batch:
            yield {'pre': pre, 'progs': batch}
    return gen


# ---- histories of switches -----------------------------------------------------------------

SDECL = [r'\newif\ifza ', r'{\newif\ifza}', r'\zid{\newif\ifza}', r'\begin{center}\newif\ifza\end{center}', r'\def\zd{\newif\ifza}\zd ', r'\iftrue\newif\ifza\fi ',
         r'\emph{\newif\ifza}', r'$\newif\ifza$', r'\expandafter\newif\csname ifza\endcsname ', r'\newif\ifza\newif\ifzb\zbtrue ']
SOPS = [r'\zatrue ', r'\zafalse ', r'{\zatrue}', r'{\zafalse}', r'\ifza\zafalse\else\zatrue\fi ', r'\zid{\zatrue}', r'\emph{\zafalse}', r'\let\zl\ifza ',
        r'\begin{center}\zatrue\end{center}', r'\def\zc{\ifza t\else f\fi}', r'\csname zafalse\endcsname ']


def switch_cases(n):
    def gen():
        batch = []
        for d in SDECL:
            for k in range(1, n + 1):
                for ops in itertools.product(SOPS, repeat=k):
                    look = r'\ifza Y\else N\fi' + (r'\zc ' if any('\\zc' in o for o in ops) else '') + (
                        r'\zl Y\else N\fi' if any('\\zl' in o for o in ops) else '')
                    batch.append({'pre': r'\def\zid#1{#1}', 'progs': [d + ''.join(ops) + look]})
        for b in batch:
            yield b
    return gen


def spaces(tier):
    q = tier == 'quick'
    return [
        space('tests', r'\ifnum, \ifodd and \ifdim: operand spellings x relations x register values x ends of the test', lambda: test_cases(tier)),
        space('cases', r'\ifcase: selector spellings x 0-4 \or x \else x branch contents', lambda: case_cases(tier)),
        space('meanings', r'\ifx over all pairs of %d tokens, \ifdefined, \ifcsname, \ifx on macro arguments' % len(XTOKS), lambda: ifx_cases(tier)),
        space('trees', 'every sequence of conditional trees with <= 3 nodes (true, false, switch, \\ifcase; text, step, switch), depth <= 3',
              tree_cases(3, 'tfqc', ['L', 'S', 'Q'])),
        space('trees2', 'every sequence of conditional trees with <= 3 nodes (\\ifnum, \\ifx, switch toggles, macros), depth <= 3',
              tree_cases(3, 'nxq', ['S', 'R', 'M', 'T', 'D', 'W'], 3)),
        space('trees4', 'every sequence of conditional trees with <= 4 nodes (%s), depth <= %d' % (
            'switch, \\ifcase; text, step' if q else 'true, false, switch, \\ifcase; text, step, switch', 3 if q else 4),
              tree_cases(4, 'qc', ['L', 'S']) if q else tree_cases(4, 'tfqc', ['L', 'S', 'Q'], 4)),
        space('trees4n', 'every sequence of conditional trees with <= 4 nodes (\\ifnum, %sswitch, toggles, macros), depth <= %d' % (
            '' if q else '\\ifx, ', 3 if q else 4),
              tree_cases(4, 'nq', ['S', 'R', 'W']) if q else tree_cases(4, 'nxq', ['S', 'R', 'M', 'W'], 4)),
    ] + ([] if q else [
        space('trees5', 'every sequence of conditional trees with <= 5 nodes (switch, \\ifcase; step), depth <= 4', tree_cases(5, 'qc', ['S'], 4)),
    ]) + [
        space('places', 'small conditional trees in %d places, and in all pairs of places' % len(PLACES), lambda: place_cases(tier)),
        space('switches', r'every sequence of <= %d operations on a switch, declared in %d ways' % (2 if q else 3, len(SDECL)), switch_cases(2 if q else 3)),
        space('odd', '%d kinds of material in the branches of 14 conditionals, pairs of them in 2' % len(ODD), lambda: odd_cases(tier)),
        space('tokens', 'every balanced token sequence of length <= %d over %d tokens' % (6 if q else 7, len(TOKS)),
              token_cases(TOKS, 6 if q else 7, PRE)),
        space('expansions', r'every balanced token sequence of length <= %d with \expandafter over %d tokens' % (6 if q else 7, len(EXP)),
              token_cases(EXP, 6 if q else 7, PRE + r'\def\zfst#1#2{#1}\def\zsnd#1#2{#2}')),
    ]

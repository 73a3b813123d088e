"""C19: ifthen tests evaluate as the boolean expression they spell.

Every well-formed token sequence of the test language up to a bound is run
through the real \\ifthenelse and compared with a recursive-descent evaluator
written from the rules (not binds tightest and may stand wherever an operand
may; and/or have equal precedence and associate to the left).
"""
import itertools

from mc.core import FnSpace, Violation
from mc import plas

PROP = 'C19'
LEVEL = 'model_checking'
RULE = ('every well-formed test expression of the bounded language is evaluated by the real package inside a document; '
        'an outcome is a distinct (structure, value) or final text')
ASSUMPTIONS = [
    'integer literals are decimal or octal digit strings, optionally signed; lengths differ by at least 1sp or denote '
    'the same rational number of points',
    r'lengths are assigned directly (\len=3mm), booleans declared with \newboolean, \provideboolean or \newif',
    'texts are compared with blanks removed; the expressions of one batch share a document, failing ones are re-run alone',
]

PRE = r'\usepackage{ifthen}'


def run_doc(body, pre=''):
    doc = plas.parse(PRE + pre + body)
    return ''.join(str(doc.textContent).split())


# ---- the boolean structure --------------------------------------------------

def sentences(n):
    """all well-formed expressions with exactly n tokens (as tuples)"""
    memo = {}

    def expr(k):
        # E := T (op T)*
        if ('e', k) in memo:
            return memo['e', k]
        out = list(term(k))
        for i in range(1, k - 1):
            for a in expr(i):
                for op in ('&', '|'):
                    for b in term(k - i - 1):
                        out.append(a + (op,) + b)
        memo['e', k] = out
        return out

    def term(k):
        if ('t', k) in memo:
            return memo['t', k]
        out = []
        if k == 1:
            out = [('T',), ('F',)]
        if k > 1:
            out += [('!',) + t for t in term(k - 1)]
        if k > 2:
            out += [('(',) + e + (')',) for e in expr(k - 2)]
        memo['t', k] = out
        return out
    return expr(n)


def evaluate(toks):
    pos = [0]

    def term():
        t = toks[pos[0]]
        pos[0] += 1
        if t == '!':
            return not term()
        if t == '(':
            v = expr()
            assert toks[pos[0]] == ')'
            pos[0] += 1
            return v
        if t in 'TF' and len(t) == 1:
            return t == 'T'
        raise ValueError(t)

    def expr():
        v = term()
        while pos[0] < len(toks) and toks[pos[0]] in '&|':
            op = toks[pos[0]]
            pos[0] += 1
            w = term()
            v = (v and w) if op == '&' else (v or w)
        return v
    v = expr()
    assert pos[0] == len(toks)
    return v


LOWER = {'!': r'\not ', '&': r'\and ', '|': r'\or ', '(': r'\( ', ')': r'\) ', 'T': '1<2 ', 'F': '2<1 '}
UPPER = dict(LOWER, **{'!': r'\NOT ', '&': r'\AND ', '|': r'\OR '})
BOOLS = dict(LOWER, T=r'\boolean{yes}', F=r'\boolean{no}')
TIGHT = {'!': r'\not', '&': r'\and', '|': r'\or', '(': r'\(', ')': r'\)', 'T': '1=1', 'F': '0>1'}
MIXED = dict(LOWER, T=r'\equal{a}{a}', F=r'\isodd{2}')
STYLES = {'lower': LOWER, 'upper': UPPER, 'bools': BOOLS, 'tight': TIGHT, 'mixed': MIXED}
BPRE = r'\newboolean{yes}\setboolean{yes}{true}\newboolean{no}\setboolean{no}{false}'


def spell(toks, style):
    return ''.join(STYLES[style][t] for t in toks)


def structure(name, maxlen, style, batch=40):
    def cases():
        for n in range(1, maxlen + 1):
            s = sentences(n)
            for i in range(0, len(s), batch):
                yield {'n': n, 'from': i, 'to': min(i + batch, len(s)), 'style': style}

    cache = {}

    def run(case, cx):
        if 'expr' in case:
            exprs = [tuple(case['expr'])]
        else:
            n = case['n']
            if n not in cache:
                cache.clear()
                cache[n] = sentences(n)
            exprs = cache[n][case['from']:case['to']]
        src = ' '.join(r'\ifthenelse{%s}{Y}{N}' % spell(e, style) for e in exprs)
        want = ''.join('Y' if evaluate(e) else 'N' for e in exprs)
        single = len(exprs) == 1
        try:
            got = run_doc(src, BPRE if style == 'bools' else '')
        except Exception as e:
            if single:
                return Violation(r'\ifthenelse{%s}: %s: %s' % (spell(exprs[0], style), type(e).__name__, e),
                                 kind=type(e).__name__)
            got = None
        for e in exprs:
            cx.outcome((e, evaluate(e)))
            cx.trans(len(e))
        cx.trace(len(exprs))
        if got == want:
            return None
        if single:
            return Violation(r'\ifthenelse{%s}{Y}{N} gave %r, the expression is %s' % (
                spell(exprs[0], style), got, evaluate(exprs[0])), kind='value')
        for e in exprs:
            c = {'expr': list(e), 'style': style}
            v = run(c, cx)
            if v is not None:
                v.case = c
                return v
        return Violation('batch result %r, expected %r, though every expression alone is right\n%s' % (got, want, src),
                         kind='batch')
    return FnSpace(name, 'all well-formed sequences of at most %d tokens over {true atom, false atom, not, and, or, (, )} '
                   'spelled in style %s' % (maxlen, style), cases, run)


# ---- atoms ------------------------------------------------------------------

INTS = [('0', 0), ('1', 1), ('-1', -1), ('7', 7), ('12', 12), ('012', 12), ("'12", 10), ('--3', 3),
        (r'\three', 3), (r'\minusfour', -4), (r'\value{ca}', 5), (r'\value{cb}', -6), (r'1\three', 13), (r'\three 0', 30)]
PREINT = r'\def\three{3}\newcommand{\minusfour}{-4}\newcounter{ca}\setcounter{ca}{5}\newcounter{cb}\setcounter{cb}{-6}'
DIMS = [('0pt', 0), ('1pt', 65536), ('1.5pt', 98304), ('65536sp', 65536), ('65537sp', 65537), ('12pt', 786432),
        ('1pc', 786432), ('1cm', ('cm', 1)), ('10mm', ('cm', 1)), ('0.1in', ('in', 0.1)), ('7.227pt', ('in', 0.1)),
        ('-1pt', -65536), (r'\lena', 196608), (r'\lenb', ('cm', 1)), (r'2\lena', 393216), ('1.001pt', 65601.5),
        ('1bp', ('in', 1 / 72.)), ('+6pt', 393216)]
PREDIM = r'\newlength{\lena}\lena=3pt\relax\newlength{\lenb}\lenb=10mm\relax '


def sp(v):
    from fractions import Fraction as Q
    if isinstance(v, tuple):
        u, x = v
        f = Q(str(x)) if x != 1 / 72. else Q(1, 72)
        return f * {'cm': Q(7227, 254), 'in': Q(7227, 100)}[u] * 65536
    return Q(v)


def rel(a, op, b):
    return a < b if op == '<' else a > b if op == '>' else a == b


def atoms():
    out = []
    for (a, x), (b, y) in itertools.product(INTS, INTS):
        for op in '<=>':
            for form in ('%s%s%s', '%s %s %s'):
                out.append(['int', form % (a, op, b), rel(x, op, y), PREINT])
    for a, x in INTS:
        out.append(['odd', r'\isodd{%s}' % a, bool(x % 2), PREINT])
    for (a, x), (b, y) in itertools.product(DIMS, DIMS):
        for op in '<=>':
            for form in (r'\lengthtest{%s%s%s}', r'\lengthtest{%s %s %s}'):
                out.append(['len', form % (a, op, b), rel(sp(x), op, sp(y)), PREDIM])
    strs = [('', ''), ('a', 'a'), ('b', 'b'), ('ab', 'ab'), (r'\sa', 'a'), (r'\sa b', 'ab'), (r'\sab', 'ab'),
            ('A', 'A'), ('1', '1'), ('01', '01'), (r'\value{ca}', '5'), ('5', '5'), ('a b', 'a b'), (r'\snest', 'ab'),
            (r'\sarg{b}', 'ab'), ('<', '<'), ('a=b', 'a=b')]
    for (a, x), (b, y) in itertools.product(strs, strs):
        out.append(['equal', r'\equal{%s}{%s}' % (a, b), x == y,
                    PREINT + r'\def\sa{a}\def\sab{ab}\def\snest{\sa b}\newcommand{\sarg}[1]{\sa #1}'])
    for name, v, pre in [('neverdefined', True, ''), ('section', False, ''), ('mydef', False, r'\def\mydef{}'),
                         ('mynew', False, r'\newcommand{\mynew}[1]{#1}'), ('mylet', False, r'\let\mylet=a'),
                         ('mylocal', True, r'{\def\mylocal{x}}'), ('myglobal', False, r'{\gdef\myglobal{x}}')]:
        out.append(['undef', r'\isundefined{\%s}' % name, v, pre])
        out.append(['undef', r'\isundefined\%s' % name, v, pre])
    for v, pre in [(False, r'\newboolean{flag}'), (True, r'\newboolean{flag}\setboolean{flag}{true}'),
                   (False, r'\newboolean{flag}\setboolean{flag}{true}\setboolean{flag}{false}'),
                   (True, r'\provideboolean{flag}\setboolean{flag}{true}'),
                   (True, r'\newboolean{flag}\setboolean{flag}{true}\provideboolean{flag}'),
                   (False, r'\newif\ifflag'), (True, r'\newif\ifflag\flagtrue'),
                   (False, r'\newif\ifflag\flagtrue\flagfalse'), (True, r'\newif\ifflag\setboolean{flag}{true}'),
                   (True, r'\newboolean{flag}\flagtrue'), (False, r'\newboolean{flag}\flagtrue\flagfalse'),
                   (True, r'\newboolean{flag}\newboolean{other}\setboolean{flag}{true}\setboolean{other}{false}'),
                   (True, r'\newboolean{flag}{\setboolean{flag}{true}}'),
                   (True, r'\newboolean{flag}\setboolean{flag}{TRUE}')]:
        out.append(['bool', r'\boolean{flag}', v, pre])
    return out


FRAMES = [('%s', lambda a: a), (r'\not %s', lambda a: not a), (r'\( %s \)', lambda a: a),
          (r'\not\(%s\)', lambda a: not a), (r'\not\not %s', lambda a: a),
          (r'1=1 \and %s', lambda a: a), (r'1=2 \or %s', lambda a: a), (r'1=1 \and\not %s', lambda a: not a),
          (r'1=2 \or\not %s', lambda a: not a), (r'%s \and 1=1', lambda a: a), (r'%s \or 1=2', lambda a: a),
          (r'\not %s \and 1=1', lambda a: not a), (r'\not %s \or 1=2', lambda a: not a),
          (r'\(%s\)\and\(1=1\)', lambda a: a), (r'%s \or 1=1 \and 1=2', lambda a: False),
          (r'1=2 \and %s \or 1=1', lambda a: True)]


def atom_space(step):
    def cases():
        for k in range(0, len(atoms())):
            yield {'atom': k}
    A = atoms()

    def run(case, cx):
        kind, text, val, pre = A[case['atom']]
        frames = FRAMES if kind not in ('int', 'len') or case['atom'] % step == 0 else FRAMES[:2]
        src = ' '.join(r'\ifthenelse{%s}{Y}{N}' % (f % text) for f, fn in frames)
        want = ''.join('Y' if fn(val) else 'N' for f, fn in frames)
        got = run_doc(src, pre)
        cx.outcome((kind, text, got))
        cx.trans(len(frames))
        cx.trace()
        if got != want:
            bad = [f % text for (f, fn), g, w in zip(frames, got, want) if g != w] or [src]
            return Violation('%s after %s: got %r, expected %r, first wrong test: %s' % (text, pre, got, want, bad[0]),
                             kind=kind)
    return FnSpace('atoms', 'every atom (%d: all pairs of integer operands, of lengths, of strings; booleans, undefined) '
                   'alone and negated, every %d-th pair (and every other atom) in all %d frames' % (
                       len(A), step, len(FRAMES)), cases, run)


def pair_space():
    """two different kinds of atoms around every connective"""
    A = atoms()
    kinds = {}
    for k, a in enumerate(A):
        kinds.setdefault((a[0], a[2]), k)
    picks = sorted(kinds.values())

    def cases():
        for i, j in itertools.product(picks, picks):
            yield {'a': i, 'b': j}

    def run(case, cx):
        a, b = A[case['a']], A[case['b']]
        src, want = '', ''
        if a[0] in ('undef', 'bool') and b[0] == a[0] and a[3] != b[3]:
            return None      # conflicting preambles
        pre = a[3] + (b[3] if b[3] != a[3] else '')
        for n1, n2, op in itertools.product(('', r'\not '), ('', r'\not '), (r'\and ', r'\or ')):
            for par in (0, 1):
                x = a[2] != bool(n1)
                y = b[2] != bool(n2)
                v = (x and y) if 'and' in op else (x or y)
                t = (n1 + r'\(%s\)' + op + n2 + r'\(%s\)') % (a[1], b[1]) if par else n1 + a[1] + ' ' + op + n2 + b[1]
                src += r'\ifthenelse{%s}{Y}{N}' % t
                want += 'Y' if v else 'N'
        if pre.count(r'\newcounter{ca}') > 1:
            pre = a[3]
        got = run_doc(src, pre)
        cx.outcome((case['a'], case['b'], got))
        cx.trans(16)
        cx.trace()
        if got != want:
            return Violation('%s / %s: got %r, expected %r\n%s%s' % (a[1], b[1], got, want, pre, src), kind='pair')
    return FnSpace('atom-pairs', 'one true and one false atom of every kind, all ordered pairs x and/or x not placements '
                   'x parentheses', cases, run)


# ---- branches ----------------------------------------------------------------

BRANCHES = [  # (source, text, effect on counter n, effect on flag)
    ('A', 'A', lambda s: s), ('', '', lambda s: s),
    (r'\stepcounter{n}A', 'A', lambda s: dict(s, n=s['n'] + 1)),
    (r'\addtocounter{n}{10}B\addtocounter{n}{10}', 'B', lambda s: dict(s, n=s['n'] + 20)),
    (r'{\setcounter{n}{7}C}', 'C', lambda s: dict(s, n=7)),
    (r'\setboolean{zf}{true}D', 'D', lambda s: dict(s, f=True)),
    (r'\gdef\m{X}', '', lambda s: dict(s, m='X')),
    (r'E\m F', lambda s: 'E' + s['m'] + 'F', lambda s: s),
    (r'\ifthenelse{\value{n}<3}{lt\stepcounter{n}}{ge\addtocounter{n}{-2}}',
     lambda s: 'lt' if s['n'] < 3 else 'ge', lambda s: dict(s, n=s['n'] + 1 if s['n'] < 3 else s['n'] - 2)),
    (r'\ifthenelse{\boolean{zf}\or\not\boolean{zf}}{T\setboolean{zf}{false}}{\undefined}', 'T',
     lambda s: dict(s, f=False)),
    (r'\ifnum\value{n}>1 p\else q\fi', lambda s: 'p' if s['n'] > 1 else 'q', lambda s: s),
    (r'\iffalse z\fi y', 'y', lambda s: s),
    (r'$x$', 'x', lambda s: s),
    (r'\(y\)', 'y', lambda s: s),
]
TESTS = [(r'\value{n}<2', lambda s: s['n'] < 2), (r'\boolean{zf}', lambda s: s['f']),
         (r'\equal{\m}{X}', lambda s: s['m'] == 'X'), (r'\not\boolean{zf}\and\value{n}=0', lambda s: not s['f'] and s['n'] == 0),
         (r'\isodd{\value{n}}', lambda s: s['n'] % 2 == 1)]
STMT = list(itertools.product(range(len(TESTS)), range(len(BRANCHES)), range(len(BRANCHES))))


def branch_space(depth, tests, brs):
    st = [x for x in STMT if x[0] in tests and x[1] in brs and x[2] in brs]

    def cases():
        for seq in itertools.product(st, repeat=depth):
            yield {'seq': [list(x) for x in seq]}

    def run(case, cx):
        s = {'n': 0, 'f': False, 'm': 'O'}
        src, want = '', ''
        for t, a, b in case['seq']:
            src += r'\ifthenelse{%s}{%s}{%s};' % (TESTS[t][0], BRANCHES[a][0], BRANCHES[b][0])
            br = BRANCHES[a if TESTS[t][1](s) else b]
            want += (br[1](s) if callable(br[1]) else br[1]) + ';'
            s = br[2](s)
            cx.state(tuple(sorted(s.items())))
            cx.trans()
        src += r'\arabic{n}.\ifthenelse{\boolean{zf}}{+}{-}.\m'
        want += '%d.%s.%s' % (s['n'], '+' if s['f'] else '-', s['m'])
        got = run_doc(src, r'\newcounter{n}\newboolean{zf}\def\m{O}')
        cx.outcome(got)
        cx.trace()
        if got != want:
            return Violation('got %r, expected %r\n%s' % (got, want, src), kind='branch')
    return FnSpace('branches-%d' % depth, 'every sequence of %d \\ifthenelse over %d state-dependent tests and %d branch '
                   'bodies with side effects' % (depth, len(tests), len(brs)), cases, run)


# ---- loops --------------------------------------------------------------------

def loops():
    """(preamble, test, body, python test, python step, python output)"""
    out = []
    conds = [
        (r'\value{i}<%d', lambda s, k: s['i'] < k), (r'\not\(\value{i}=%d\)', lambda s, k: s['i'] != k),
        (r'\not \value{i}>%d \and \not \value{i}=%d', lambda s, k: not s['i'] > k and not s['i'] == k),
        (r'\value{i}<%d \and \value{j}<4', lambda s, k: s['i'] < k and s['j'] < 4),
        (r'\(\value{i}<%d \or \value{j}<3\) \and \value{j}<9', lambda s, k: (s['i'] < k or s['j'] < 3) and s['j'] < 9),
        (r'\equal{\arabic{i}}{%d}\or\value{i}<2', lambda s, k: s['i'] == k or s['i'] < 2),
        (r'\lengthtest{\value{i}pt<%dpt}', lambda s, k: s['i'] < k),
        (r'\boolean{go}\and\value{i}<%d', lambda s, k: s['go'] and s['i'] < k),
        (r'\isodd{\value{j}}\or\value{i}<%d', lambda s, k: s['j'] % 2 == 1 or s['i'] < k),
    ]
    bodies = [
        (r'\stepcounter{i}a', 'a', lambda s: s.update(i=s['i'] + 1)),
        (r'\stepcounter{i}\stepcounter{j}\arabic{i},', lambda s: '%d,' % s['i'], lambda s: s.update(i=s['i'] + 1, j=s['j'] + 1)),
        (r'\arabic{i}\addtocounter{i}{2}\stepcounter{j}', None, lambda s: s.update(i=s['i'] + 2, j=s['j'] + 1)),
        (r'{\stepcounter{i}x}\addtocounter{j}{3}', 'x', lambda s: s.update(i=s['i'] + 1, j=s['j'] + 3)),
        (r'\stepcounter{i}\stepcounter{j}\ifthenelse{\isodd{\value{i}}}{o}{e}',
         lambda s: 'o' if s['i'] % 2 else 'e', lambda s: s.update(i=s['i'] + 1, j=s['j'] + 1)),
        (r'\stepcounter{i}\addtocounter{j}{2}\ifthenelse{\value{i}=3}{\setboolean{go}{false}}{}.', '.',
         lambda s: s.update(i=s['i'] + 1, j=s['j'] + 2, go=s['go'] and s['i'] + 1 != 3)),
    ]
    return conds, bodies


WRAPS = ['%s', r'{%s}', r'\ifthenelse{1=1}{%s}{no}', r'\loopmac', r'\begin{center}%s\end{center}',
         r'\ifthenelse{1=2}{%s}{skip}']


def loop_space():
    conds, bodies = loops()

    def cases():
        for c in range(len(conds)):
            for b in range(len(bodies)):
                for k in range(0, 7):
                    for w in range(len(WRAPS)):
                        yield {'cond': c, 'body': b, 'k': k, 'wrap': w}

    def run(case, cx):
        ct, cf = conds[case['cond']]
        bt, bo, bs = bodies[case['body']]
        k = case['k']
        s = {'i': 0, 'j': 0, 'go': True}
        want = ''
        n = 0
        while case['wrap'] != 5 and cf(s, k):
            before = dict(s)
            bs(s)
            want += str(before['i']) if bo is None else bo(s) if callable(bo) else bo
            n += 1
            cx.trans()
            if n > 40:
                return None          # does not terminate: outside the bound
        test = ct.replace('%d', str(k))
        loop = r'\whiledo{%s}{%s}' % (test, bt)
        wrap = WRAPS[case['wrap']]
        src = wrap % loop if '%s' in wrap else wrap
        if case['wrap'] == 5:
            want = 'skip'
        pre = r'\newcounter{i}\newcounter{j}\newboolean{go}\setboolean{go}{true}'
        if 'loopmac' in src:
            pre += r'\newcommand{\loopmac}{%s}' % loop
        src += r'[\arabic{i},\arabic{j}]\(m\)'
        want += '[%d,%d]m' % (s['i'], s['j'])
        got = run_doc(src, pre)
        cx.state((n, s['i'], s['j'], s['go']))
        cx.outcome((case['cond'], case['body'], got))
        cx.trace()
        if got != want:
            return Violation('got %r, expected %r (%d iterations)\n%s%s' % (got, want, n, pre, src), kind='loop')
    return FnSpace('loops', 'every loop condition x body x bound 0..6 x surroundings', cases, run)


def nested_space():
    def cases():
        for n, m in itertools.product(range(0, 5), range(0, 5)):
            for form in range(3):
                yield {'n': n, 'm': m, 'form': form}

    def run(case, cx):
        n, m = case['n'], case['m']
        inner = r'\setcounter{j}{0}\whiledo{\value{j}<%d}{\stepcounter{j}b}' % m
        body = [r'\stepcounter{i}a' + inner, inner + r'\stepcounter{i}a',
                r'\stepcounter{i}\ifthenelse{\isodd{\value{i}}}{a%s}{c}' % inner][case['form']]
        src = r'\whiledo{\value{i}<%d}{%s}' % (n, body) + r'\arabic{i}'
        want = ''
        for i in range(1, n + 1):
            want += ['a' + 'b' * m, 'b' * m + 'a', 'a' + 'b' * m if i % 2 else 'c'][case['form']]
        want += str(n)
        got = run_doc(src, r'\newcounter{i}\newcounter{j}')
        cx.trans(n * m + 1)
        cx.outcome(got)
        cx.trace()
        if got != want:
            return Violation('got %r, expected %r\n%s' % (got, want, src), kind='nested')
    return FnSpace('nested-loops', r'\whiledo within \whiledo, 0..4 x 0..4 iterations, three placements', cases, run)


def spaces(tier):
    plas.preload('plasTeX.Packages.ifthen')
    q = tier == 'quick'
    out = [structure('expr-' + s, (10 if s == 'lower' else 8) + (0 if q else 1), s) for s in STYLES]
    out += [atom_space(7 if q else 1), pair_space(),
            branch_space(1, range(len(TESTS)), range(len(BRANCHES))),
            branch_space(2, [0, 1, 2] if q else range(len(TESTS)), [2, 3, 5, 6, 8] if q else range(2, 10)),
            branch_space(3, [0, 1], [2, 5, 8] if q else [2, 4, 5, 8, 9]),
            loop_space(), nested_space()]
    return out

r"""C02: macro definitions expand exactly as TeX's substitution rules say.

Programs are enumerated exhaustively from bounded grammars, run through the
real parser and compared with the independent expander mc/minitex.py.
"""
import itertools

from mc import minitex, plas
from mc.core import FnSpace, Violation

PROP = 'C02'
LEVEL = 'model_checking'
RULE = ('a case is a batch of programs; every program is evaluated by the reference expander (programs TeX rejects are '
        'discarded) and by the real parser; distinct_nontrivial counts distinct (program shape, text) pairs')
ASSUMPTIONS = [
    'programs TeX itself rejects (undefined control sequences, uses that do not match their definition, unbalanced braces) '
    'are outside the property',
    'only user-defined names are redefined: plasTeX deliberately keeps its own implementation of built-in commands when a '
    r'document \renewcommands them',
    'texts are compared with blanks removed',
    'programs of one batch share the definitions of their preamble, are separated by ";" and are re-run alone on a mismatch',
]


def text(src):
    return ''.join(str(plas.parse(src).textContent).split())


def oracle(src):
    try:
        return minitex.run(src)
    except minitex.Skip:
        return None


def compare(pre, progs, cx, label):
    """progs: independent programs that follow the preamble"""
    good = []
    for p in progs:
        w = oracle(pre + p)
        if w is None:
            cx.count('discarded')
            continue
        good.append((p, w))
        cx.trans()
    if not good:
        return None
    for p, w in good:
        cx.outcome((label, p[:40], w))
    cx.trace(len(good))
    cx.count('programs', len(good))

    def one(p, w):
        try:
            got = text(pre + p)
        except Exception as e:
            return Violation('%s%s\n raised %s: %s; expected text %r' % (pre, p, type(e).__name__, e, w),
                             kind=label + type(e).__name__, case={'pre': pre, 'progs': [p]})
        if got != w:
            return Violation('%s%s\n gave %r, expected %r' % (pre, p, got, w), kind=label, case={'pre': pre, 'progs': [p]})

    if len(good) == 1:
        return one(*good[0])
    try:
        got = text(pre + ';'.join(p for p, w in good))
    except Exception:
        got = None
    if got == ';'.join(w for p, w in good):
        return None
    for p, w in good:
        v = one(p, w)
        if v is not None:
            return v
    src = pre + ';'.join(p for p, w in good)
    want = oracle(src)
    if want is None or got == want:
        return None
    return Violation('%s\n gave %r, expected %r' % (src, got, want), kind=label + 'batch',
                     case={'pre': '', 'progs': [src]})


def space(name, bound, gen):
    """gen yields {'pre':..., 'progs': [...]}"""
    def run(case, cx):
        cx.state((case['pre']))
        return compare(case['pre'], case['progs'], cx, name)
    return FnSpace(name, bound, gen, run, timeout=60)


def batched(pre, progs, n=30):
    progs = list(progs)
    for i in range(0, len(progs), n):
        yield {'pre': pre, 'progs': progs[i:i + n]}


# ---- parameter patterns x bodies x arguments -----------------------------------

#: (parameter text, [kind of each argument], template of a call)
PATTERNS = [
    ('', 0, ['']), ('#1', 1, ['%s']), ('#1#2', 2, ['%s%s']), ('#1#2#3', 3, ['%s%s%s']),
    ('#1.', 1, ['%s.']), ('#1.#2', 2, ['%s.%s']), ('#1.#2.', 2, ['%s.%s.']), ('#1ab#2', 2, ['%sab%s']),
    ('.#1', 1, ['.%s']), ('a#1b#2c', 2, ['a%sb%sc']), (r'#1\stop', 1, [r'%s\stop ']), (r'#1#2\stop', 2, [r'%s%s\stop ']),
    ('#1 #2', 2, ['%s %s']), ('[#1]#2', 2, ['[%s]%s']), ('(#1,#2)', 2, ['(%s,%s)']),
    ('#1#{', 1, ['%s{t}', '%s{}']), ('#1.#2#{', 2, ['%s.%s{t}']), ('#{', 0, ['{t}']), ('#1..', 1, ['%s..']),
    ('#1aab', 1, ['%saab']), (r'\stop#1', 1, [r'\stop %s']), (r'\stop#1\stop', 1, [r'\stop %s\stop ']),
    ('#1#2.#3', 3, ['%s%s.%s']), ('-', 0, ['-']), (r'#1=#2\relax', 2, [r'%s=%s\relax ']),
    (r'#1\zw#2.', 2, [r'%s\zw %s.']), ('#1 .', 1, ['%s .']), ('#1; ', 1, ['%s; ']), ('#1*#2', 2, ['%s*%s']),
]
ARGS = ['', 'a', 'xy', '{ab}', '{}', '{{a}}', r'\zw ', r'{\zw c}', ' a', '{a}b', '{a}{b}', 'a{.}b', 'a{ab}', '{a.b}', r'\zw{.}',
        'aa', 'a a', '{ a }', '..', 'b,', r'{\stop}', '{,}', '{]}', 'a{}']
BODY = ['x', '#1', '#2', '#3', '{#1}', r'\zw{#1}', r'\zw#1', '#1#1', r'\zv{#2}{#1}']
PRE = r'\def\zw{(w)}\def\zv#1#2{<#1/#2>}\def\stop{S}'
PRE1 = r'\def\zw#1{(#1)}\def\zv#1#2{<#1/#2>}\def\stop{S}'


def bodies(n, maxlen):
    ok = [b for b in BODY if all(int(c) <= n for c in b if c.isdigit())]
    for k in range(0, maxlen + 1):
        for b in itertools.product(ok, repeat=k):
            yield ''.join(b)


def pattern_cases(tier):
    q = tier == 'quick'
    for pre in (PRE, PRE1):
        for pat, n, temps in PATTERNS:
            # every body with a few argument tuples, and every argument tuple with a few bodies
            few = ['a', '{ab}', r'{\zw c}', '{}']
            args = ARGS if n < 3 else ARGS[:12]
            short = [t % a for t in temps for a in itertools.product(few, repeat=n)]
            full = [t % a for t in temps for a in itertools.product(args, repeat=n)]
            for b in bodies(n, 2 if q else 3):
                for c in batched(pre + r'\def\zf%s{[%s]}' % (pat, b), [r'\zf%s%s' % ('' if s[:1] in '{.[(# ' else ' ', s) + '|'
                                                                      for s in short], 40):
                    yield c
            main = ''.join('#%d/' % (i + 1) for i in range(n)) or 'k'
            for b in ([main, r'\zw{#1}'] if n else [main]) + ([r'\zv{#2}{#1}', r'\zw#2#1'] if n > 1 else []):
                for c in batched(pre + r'\def\zf%s{[%s]}' % (pat, b), [r'\zf%s%s' % ('' if s[:1] in '{.[(# ' else ' ', s) + '|'
                                                                      for s in full], 40):
                    yield c


# ---- \newcommand with optional argument ------------------------------------------

OPTS = ['', '[b]', '[]', '[{]}]', '[{x]y}]', r'[\zw c]', ' [b]', '[ b ]', '[{b}]', '[{b}c]', '[#]'][:10]
DEFAULTS = [None, 'd', '', r'\zw d', '{d}', '{]}', ' d ']


def command_cases(tier):
    q = tier == 'quick'
    spell = [r'\newcommand{\zf}', r'\newcommand\zf', r'\newcommand*{\zf}', r'\providecommand{\zf}',
             r'\newcommand{\zf}{old}\renewcommand{\zf}', r'\newcommand{\zf}[1][x]{old#1}\renewcommand*\zf',
             r'\def\zf#1{old}\renewcommand{\zf}', r'\newcommand{\zf}[2]{old}\renewcommand{\zf}']
    for head in spell:
        for n in range(0, 4):
            for d in (DEFAULTS if n else [None]):
                args = ['a', '{ab}', '{}', r'{\zw c}', ' {a}', r'{{[}}']
                mand = n - (d is not None)
                calls = []
                for o in (OPTS if d is not None else ['']):
                    for a in itertools.product(args if mand < 3 else args[:4], repeat=mand):
                        s = o + ''.join(a)
                        calls.append(r'\zf' + ('' if s[:1] in ('[', '{', ' ') else '{}' if not s and d is None else ' ') + s + '|')
                for b in bodies(min(n, 3), (1 if n > 1 else 2) if q else 2):
                    spec = ('[%d]' % n if n else '') + ('[%s]' % d if d is not None else '')
                    for c in batched(PRE1 + head + spec + '{(%s)}' % b, calls if len(b) < 8 or not q else calls[::3], 50):
                        yield c


# ---- nested definitions -------------------------------------------------------------

def nested_cases(tier):
    outer = [(r'\def\zo#1', '%s'), (r'\newcommand{\zo}[1]', '%s'), (r'\gdef\zo#1.', '%s.'), (r'\newcommand{\zo}[1][D]', '[%s]')]
    inner = [r'\def\zi##1', r'\def\zi##1.##2', r'\newcommand{\zi}[1]', r'\gdef\zi##1', r'\renewcommand{\zi}[2][#1]',
             r'\expandafter\def\csname zi\endcsname##1', r'\def\zi##1#1', r'\def\zi##1##2', r'\def\zi##1##', r'\def\zi']
    ibody = ['[#1]', '[##1]', '[#1##1]', '[##1#1##1]', '{##1}{#1}', r'\zw{##1}#1', '[##2##1]',
             r'\def\zj####1{#1,##1,####1}\zj', r'\newcommand{\zj}[1]{#1,##1,####1}\zj q',
             r'\def\zj####1{\def\zk########1{#1,##1,####1,########1}\zk}\zj']
    args = ['a', '{ab}', r'\zw p']
    use = [r'\zi x', r'\zi{xy}', r'\zi x.y', r'\zi xyz', r'\zi[q]{x}', r'\zi{x}[y]{z}', r'\zi x{y}', r'\zi x{y}{z}.', r'\zi xayz', r'\zi']
    for oh, ow in outer:
        for ih in inner:
            for ib in ibody:
                for pre in (PRE1, PRE1 + r'\newcommand{\zi}{old}'):
                    d = pre + oh + '{' + ih + '{' + ib + '}}'
                    progs = [r'\zo' + ('{}' if 0 else ('' if (ow % a)[0] in '[{' else ' ')) + (ow % a) + mid + u + '|'
                             for a in args for mid in ('', r'\relax ') for u in use]
                    # the inner definition stays: programs are not independent, so each gets its own group
                    for c in batched(d, ['{%s}' % p for p in progs] if ih.startswith(r'\def') else [], 30):
                        yield c
                    if not ih.startswith(r'\def'):
                        for p in progs:
                            if r'\relax' not in p:
                                yield {'pre': d, 'progs': [p]}


# ---- token-level enumeration of expansion ----------------------------------------------

EA_PRE = (r'\def\za{xy}\def\zb#1{(#1)}\def\zc#1.{<#1>}\def\zd{\zb}\def\ze{\za.}\def\zg{{p}q}'
          r'\newcommand{\zh}[2][k]{(#1:#2)}\let\zl=\zb \let\zm\zd \def\zbx{BX}\def\zbzb{BB}\def\nxy{NN}\def\zn{}')
EA_TOKS = [r'\expandafter', r'\za', r'\zn', r'\zb', r'\zc', r'\zd', r'\ze', 'x', '.', '{', '}', r'\csname', r'\endcsname', 'zb']
EA_TOKS2 = [r'\expandafter', r'\zn', r'\za', r'\zb', r'\zh', r'\zl', r'\zm', r'\zg', 'x', '[', ']', '{', '}', r'\zc', '.']


def join(toks):
    out = ''
    for t in toks:
        out += t + (' ' if t[0] == '\\' else '')
    return out


def prefix_valid(toks):
    lv = 0
    cs = 0
    for t in toks:
        if t == '{':
            lv += 1
        elif t == '}':
            lv -= 1
        elif t == r'\csname':
            cs += 1
        elif t == r'\endcsname':
            cs -= 1
        if lv < 0 or cs < 0:
            return False
    return lv == 0 and cs == 0


def ea_cases(toks, n):
    def gen():
        batch = []
        for k in range(1, n + 1):
            for s in itertools.product(toks, repeat=k):
                if r'\expandafter' not in s and r'\csname' not in s and k > 4:
                    continue
                if not prefix_valid(s):
                    continue
                batch.append('{' + join(s) + '}')
                if len(batch) == 120:
                    yield {'pre': EA_PRE, 'progs': batch}
                    batch = []
        if batch:
            yield {'pre': EA_PRE, 'progs': batch}
    return gen


def chain_cases(tier):
    """the classical chains of \\expandafter, and \\expandafter before defining commands"""
    lists = [r'\zb', r'\za', r'\ze', r'\zd', r'\zg', r'\csname za\endcsname', r'\csname zb\endcsname', 'x', r'\zh', r'\zc', r'\zl', r'\zm', r'\zn']
    for k1 in range(0, 8):
        for k2 in range(0, 4):
            for k3 in range(0, 2):
                progs = []
                for a, b, c in itertools.product(lists, repeat=3):
                    progs.append('{' + r'\expandafter' * k1 + a + r'\expandafter' * k2 + (' ' if k2 and b == 'x' else '') +
                                 (b if b != 'x' else ' x') + r'\expandafter' * k3 + (c if c != 'x' else ' x') +
                                 ('' if c == 'x' else ' ') + '.x.}')
                for c in batched(EA_PRE, progs, 120):
                    yield c
    defs = [r'\def', r'\gdef', r'\newcommand', r'\renewcommand', r'\let']
    names = [r'\csname new\endcsname', r'\csname zb\endcsname', r'\zd ', r'\csname n-1\endcsname', r'\csname n\za\endcsname',
             r'\csname a\za\endcsname']
    for d in defs:
        for nm in names:
            for ps in (['#1', '#1.'] if 'def' in d else ['[1]', '[1][Z]'] if 'command' in d else ['=']):
                body = r'\zb' if d == r'\let' else r'{N#1N}'
                progs = []
                for use in (nm, r'\csname zb\endcsname', r'\zb'):
                    for arg in ('x.', '{xy}.', r'\za.', '[u]{x}.'):
                        progs.append((r'\expandafter' if 'csname' in nm or nm == r'\zd ' else '') + d + nm + ps + body + ' ' + use +
                                     arg + r'\za')
                for p in progs:
                    yield {'pre': EA_PRE, 'progs': [p]}


# ---- sequences of definitions ------------------------------------------------------------

STMTS = [
    r'\def\za{1}', r'\def\za#1{[#1\zb]}', r'\gdef\za{2}', r'\gdef\zb{\za}', r'\def\zb{3}', r'\def\zb#1.{<#1>}', r'\let\za\zb', r'\let\zb=\za',
    r'\let\zc\za', r'\def\zc{\za\zb}', r'\newcommand{\zd}{4}', r'\renewcommand{\zd}[1][5]{(#1\zc)}', r'\renewcommand{\za}[1]{\zb#1}',
    r'\expandafter\def\csname za\endcsname{6}', r'\expandafter\let\csname zb\endcsname\zc', r'\let\zb=x', r'\let\zc=.',
    r'\expandafter\gdef\csname zc\endcsname#1{7#1}', r'\let\za=\relax', r'\def\zb{}', r'\expandafter\def\expandafter\zb\expandafter{\za\za}',
    r'\expandafter\let\expandafter\zd\csname za\endcsname', '{', '}', r'\za ', r'\zb ', r'\zc ', r'\zd ',
]
SEQ_PRE = r'\def\za{A}\def\zb{B}\def\zc{C}\newcommand\zd{D}'
PROBES = [r'\za x.;', r'\zb x.;', r'\zc x.;', r'\zd x.;', r'\csname za\endcsname y.;']


def seq_cases(n, stmts):
    def gen():
        for k in range(1, n + 1):
            for s in itertools.product(stmts, repeat=k):
                if s.count('{') != s.count('}') or '{}' in ''.join(s):
                    continue
                lv = 0
                for t in s:
                    lv += (t == '{') - (t == '}')
                    if lv < 0:
                        break
                if lv or lv < 0:
                    continue
                yield {'s': list(s)}

    def run(case, cx):
        src = SEQ_PRE + ''.join(case['s'])
        # keep every probe that is legal
        w = oracle(src)
        if w is None:
            cx.count('discarded')
            return None
        for p in PROBES:
            if oracle(src + p) is not None:
                src += p
        want = oracle(src)
        if want is None:
            return None
        cx.state(tuple(case['s']))
        cx.outcome(want)
        cx.trans(len(case['s']))
        cx.trace()
        try:
            got = text(src)
        except Exception as e:
            return Violation('%s\n raised %s: %s; expected %r' % (src, type(e).__name__, e, want), kind=type(e).__name__)
        if got != want:
            return Violation('%s\n gave %r, expected %r' % (src, got, want), kind='value')
    return FnSpace('sequences-%d' % n, 'every balanced sequence of at most %d of %d defining, grouping and using statements, '
                   'followed by all legal probes' % (n, len(stmts)), gen, run)


GSTMTS = [t for t in STMTS if t not in '{}'] + [
    r'\global\def\za#1{[#1]}', r'\global\let\zb\zc', r'\global\long\def\zb{8}', r'\global\let\zc=y',
    r'\begingroup\def\za{9}\za\endgroup ', r'\expandafter\global\expandafter\def\csname zd\endcsname{0}']
GPROBES = [r'\za x.;', r'\zb x.;', r'\zc x.;', r'\zd x.;']


def grouped_cases(n):
    """every sequence of n statements inside a group, all legal probes inside and after it"""
    progs = []
    for s in itertools.product(GSTMTS, repeat=n):
        body = '{' + ''.join(s)
        if oracle(SEQ_PRE + body + '}') is None:
            continue
        for p in GPROBES:
            if oracle(SEQ_PRE + body + p + '}') is not None:
                body += p
        body += '}'
        for p in GPROBES:
            if oracle(SEQ_PRE + body + p) is not None:
                body += p
        progs.append(body)
        if len(progs) == 20:
            for b in progs:
                yield {'pre': SEQ_PRE, 'progs': [b]}
            progs = []
    for b in progs:
        yield {'pre': SEQ_PRE, 'progs': [b]}


def spaces(tier):
    q = tier == 'quick'
    return [
        space('patterns', '%d parameter texts x all bodies of <= %d items x argument tuples; all argument tuples over %d spellings x '
              '4 bodies' % (len(PATTERNS), 2 if q else 3, len(ARGS)), lambda: pattern_cases(tier)),
        space('commands', r'\newcommand/\renewcommand/\providecommand: 8 spellings x 0-3 arguments x 7 defaults x bodies x all calls',
              lambda: command_cases(tier)),
        space('nested', 'nested definitions up to four levels of # x outer/inner forms x uses', lambda: nested_cases(tier)),
        space('tokens', 'every token sequence of length <= %d over %d tokens' % (5, len(EA_TOKS)),
              ea_cases(EA_TOKS, 5 if q else 6)),
        space('tokens2', 'every token sequence of length <= %d over %d tokens' % (4, len(EA_TOKS2)),
              ea_cases(EA_TOKS2, 4 if q else 5)),
        space('chains', r'\expandafter chains 0-7 x 0-3 x 0-1 over all triples of 13 tokens; \expandafter before defining commands',
              lambda: chain_cases(tier)),
        seq_cases(3 if q else 4, STMTS),
        space('grouped', 'every sequence of %d of %d defining and using statements inside a group, all legal probes inside and after it'
              % (2 if q else 3, len(GSTMTS)), lambda: grouped_cases(2 if q else 3)),
    ]

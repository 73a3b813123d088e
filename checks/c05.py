r"""C05: arguments are delimited, typed and bound as the signature declares.

Invocations are generated together with the bindings they must produce: the
text of an argument and its value come from the same generator entry, and the
text behind the invocation must come out of the parser untouched.  The real
parser reads a command class with the signature under test.
"""
import itertools
from fractions import Fraction

from mc import plas
from mc.core import FnSpace, Violation
from plasTeX import Command, ParameterCommand

PROP = 'C05'
LEVEL = 'model_checking'
RULE = ('a case is a group of invocations (signature or number form, values, text behind); every invocation is read by the real parser and its bindings, '
        'the text left over, the context stack and the parameter switches are compared with the generated ones')
ASSUMPTIONS = [
    r'a decimal constant directly followed by a register is a product (documented plasTeX behaviour); such texts are not generated',
    'em and ex are the sizes plasTeX assumes (11pt, 5pt)',
    'dimensions are compared within 40sp, the error of TeX\'s own fixed-point conversion',
    'an optional argument that is absent is not followed by its own opening character',
    'blanks between an invocation whose last optional arguments are absent and the text behind it belong to neither',
]

PRE = (r'\def\zm{M}\def\zu#1{<#1>}\def\zd{2}\def\zp{pt}\newcount\zn\zn=7\relax\newcount\zk\zk=-12\relax\newlength\zl\zl=3pt\relax\newcounter{c}\setcounter{c}{5}'
       r'\newskip\zs\zs=3pt plus 1fil minus 2pt\relax\newdimen\zw\zw=-2pt\relax\newmuskip\zq\zq=4mu plus 1fill\relax\def\zt{12}\def\zdim{2.5cm}\def\ze{}')
_state = {}


def machine():
    if 'doc' not in _state:
        tex = plas.newtex()
        doc = tex.ownerDocument
        tex.input(PRE)
        list(tex)
        _state['doc'] = doc
        _state['depth'] = len(doc.context.contexts)
        _state['cls'] = {}
        _state['warn'] = doc.context.warnOnUnrecognized
    return _state['doc']


def command(args):
    doc = machine()
    cls = _state['cls'].get(args)
    if cls is None:
        # derived from a command that has been used with another signature
        if None not in _state['cls']:
            from plasTeX.TeX import TeX
            base = _state['cls'][None] = type('zbase', (Command,), {'args': '* [ o ] p ( q )', 'macroName': 'zbase'})
            doc.context.contexts[0]['zbase'] = base
            tex = TeX(doc)
            tex.input(r'\zbase*[x]{y}(z)')
            list(tex)
        cls = _state['cls'][args] = type('zcmd', (_state['cls'][None],), {'args': args, 'macroName': 'zcmd'})
    doc.context.contexts[0]['zcmd'] = cls
    return cls


def text(x):
    if x is None:
        return None
    if isinstance(x, str) and not hasattr(x, 'nodeType'):
        return str(x)
    if isinstance(x, (list, tuple)) and not hasattr(x, 'nodeType'):
        return ''.join(text(y) for y in x)
    return str(x.textContent) if hasattr(x, 'textContent') else str(x)


def same(got, want):
    k = want[0]
    if k == 'none':
        return got is None
    if k == 'int':
        return isinstance(got, int) and int(got) == want[1]
    if k == 'float':
        return isinstance(got, (int, float)) and abs(float(got) - float(want[1])) < 1e-6
    if k == 'dimen':
        return isinstance(got, float) and abs(float(got) - float(want[1])) < 40
    if k == 'glue':
        if not same(got, ('dimen', want[1])):
            return False
        for attr, w in (('stretch', want[2]), ('shrink', want[3])):
            g = getattr(got, attr)
            if w is None:
                if g is not None and float(g) != 0:
                    return False
            else:
                if g is None:
                    return False
                v, order = w
                base = {0: 0, 1: 2e9, 2: 4e9, 3: 6e9}[order]
                actual = float(g)
                neg = actual < 0
                a = abs(actual)
                o = 3 if a >= 6e9 - 1e8 else 2 if a >= 4e9 - 1e8 else 1 if a >= 2e9 - 1e8 else 0
                if o != order:
                    return False
                a -= base
                if abs((-a if neg else a) - float(v)) > (40 if order == 0 else 1e-5):
                    return False
        return True
    if k == 'str':
        return isinstance(got, str) and not hasattr(got, 'nodeType') and got == want[1] or (want[1] == got and isinstance(got, str))
    if k == 'text':
        return got is not None and text(got) == want[1]
    if k == 'toks':
        return isinstance(got, list) and ''.join(t.source for t in got).replace(' ', '') == want[1].replace(' ', '')
    if k == 'tok':
        if isinstance(got, list) and len(got) == 1:
            got = got[0]
        return got is not None and getattr(got, 'source', None) is not None and got.source.strip() == want[1]
    if k == 'char':
        return got == want[1]
    if k == 'list':
        return isinstance(got, list) and len(got) == len(want[1]) and all(same(g, w) for g, w in zip(got, want[1]))
    if k == 'dict':
        return isinstance(got, dict) and set(got) == set(want[1]) and all(same(got[x], want[1][x]) for x in got)
    if k == 'true':
        return got is True
    raise ValueError(k)


def show(v):
    if isinstance(v, dict):
        return {k: show(x) for k, x in v.items()}
    if isinstance(v, list):
        return [show(x) for x in v]
    if hasattr(v, 'stretch'):
        return 'glue %r (%r) plus %r minus %r' % (v, float(v), v.stretch, v.shrink)
    if isinstance(v, float):
        return '%r (%r sp)' % (v, float(v))
    if hasattr(v, 'childNodes'):
        return '%s %r' % (type(v).__name__, text(v))
    return repr(v)


def one(args, inv, want, rest, loose):
    """read \\zcmd + inv + rest; want: list of (name, expected)"""
    from plasTeX.TeX import TeX
    doc = machine()
    cls = command(args)
    tex = TeX(doc)
    src = r'\zcmd' + inv + rest
    label = 'args=%r: %s' % (args, src)
    kinds = ' '.join(a for a in args.split())
    try:
        tex.input(src)
        out = list(tex)
    except Exception as e:
        _state.clear()
        return Violation('%s\n raised %s: %s' % (label, type(e).__name__, e), kind=kinds)
    first = out[0] if out else None
    if type(first) is not cls:
        return Violation('%s\n the first node is %r' % (label, first), kind=kinds)
    for name, w in want:
        g = first.attributes.get(name, 'missing')
        if not same(g, w):
            return Violation('%s\n %s is bound to %s, expected %r' % (label, name, show(g), w), kind=kinds)
    extra = set(first.attributes) - set(n for n, w in want)
    if extra:
        return Violation('%s\n unexpected bindings %r' % (label, extra), kind=kinds)
    left = ''.join(getattr(t, 'source', str(t)) for t in out[1:])
    exp = expected_rest(rest)
    a, b = (left.lstrip(), exp.lstrip()) if loose else (left, exp)
    if a != b:
        return Violation('%s\n left %r behind the invocation, expected %r' % (label, left, exp), kind=kinds)
    c = doc.context
    if len(c.contexts) != _state['depth'] or not ParameterCommand.enabled or ParameterCommand._enablelevel != 0 or c.warnOnUnrecognized != _state['warn']:
        d = (len(c.contexts) - _state['depth'], ParameterCommand.enabled, ParameterCommand._enablelevel, c.warnOnUnrecognized)
        ParameterCommand.enabled, ParameterCommand._enablelevel = True, 0
        _state.clear()
        return Violation('%s\n parsing state left behind: extra frames %d, parameters enabled %s, level %d, warnings %s' % ((label,) + d), kind='state ' + kinds)
    return None


_rests = {}


def expected_rest(rest):
    """what the parser makes of the text behind when nothing stands before it"""
    from plasTeX.TeX import TeX
    if rest not in _rests:
        tex = TeX(machine())
        tex.input('.' + rest)
        _rests[rest] = ''.join(getattr(t, 'source', str(t)) for t in list(tex))[1:]
    return _rests[rest]


def run(case, cx):
    n = 0
    v = None
    for args, inv, want, rest, loose in case['inv']:
        n += 1
        v = one(args, inv, [(a, tup(b)) for a, b in want], rest, loose)
        if v is not None:
            v.case = {'inv': [[args, inv, want, rest, loose]]}
            break
        cx.outcome((args, repr(want), rest))
    cx.trans(n)
    cx.trace(n)
    cx.count('invocations', n)
    return v


def tup(x):
    if isinstance(x, dict):
        return {k: tup(v) for k, v in x.items()}
    return tuple(tup(y) for y in x) if isinstance(x, (list, tuple)) else x


def batches(it, n=100):
    b = []
    for x in it:
        b.append(x)
        if len(b) == n:
            yield {'inv': b}
            b = []
    if b:
        yield {'inv': b}


# ---- integers ---------------------------------------------------------------------------

SIGNS = [('', 1), ('-', -1), ('+', 1), ('--', 1), ('- -', 1), ('-+', -1), (' - ', -1), ('---', -1), ('+ ', 1), (r'\ze-', -1)]
# (text, value, what may follow: 'd' a digit would extend it, 'h' a hex digit, 'c' anything, 'r' anything, no space is skipped)
INTS = [('0', 0, 'd'), ('7', 7, 'd'), ('12', 12, 'd'), ('007', 7, 'd'), ('123456789', 123456789, 'd'), ("'0", 0, 'o'), ("'17", 15, 'o'), ("'777", 511, 'o'),
        ('"0', 0, 'h'), ('"1F', 31, 'h'), ('"AB', 171, 'h'), ('"7FFF', 32767, 'h'), ('`a', 97, 'c'), (r'`\a', 97, 'c'), (r'`\%', 37, 'c'), (r'`\{', 123, 'c'),
        ('`7', 55, 'c'), (r'`\}', 125, 'c'), (r'`\\', 92, 'c'), ('`-', 45, 'c'), (r'\zn', 7, 'r'), (r'\zk', -12, 'r'), (r'\value{c}', 5, 'v'), (r'\zt', 12, 'd'),
        (r'1\zd', 12, 'd'), (r'\zd\zd', 22, 'd'), (r"'1\zd", 10, 'o'), (r'"A\zd', 162, 'h')]
FOLLOW = ['w', ' w', '.', ' 5', r'\relax 5', r'\zm 5', r' \zm', '{5}', ' {5}', '[5]', '=3', '-1', ' -1', '"1', 'a', 'A', '8', '9x', r'\emph{5}', '$5$', r'\par 5', '']


def extends(kind, rest):
    c = rest[:1]
    if kind == 'd':
        return c.isdigit()
    if kind == 'v':
        return c.isdigit()
    if kind == 'o':
        return c and c in '01234567'
    if kind == 'h':
        return c and c in '0123456789ABCDEF'
    return False


def eaten(kind, rest):
    """one space behind a constant belongs to it"""
    if rest[:1] == ' ' and kind != 'r':
        return rest[1:]
    return rest


def split(inv, kind, rest):
    """(invocation, rest) with the optional space moved into the invocation"""
    if inv[-1:].isalpha() and '\\' in inv and inv[inv.rindex('\\') + 1:].isalpha() and len(inv[inv.rindex('\\') + 1:]) > 0 and not inv.endswith(r'`\a'):
        # ends in a control word
        if rest[:1].isalpha():
            return None
        if rest[:1] == ' ':
            return inv + ' ', rest[1:]
    if inv.endswith(r'`\a') and rest[:1].isalpha():
        return None
    if inv.endswith(r'`\a') and rest[:1] == ' ':
        return inv + ' ', rest[1:]
    if rest[:1] == ' ' and kind != 'r':
        return inv + ' ', rest[1:]
    return inv, rest


def integers():
    for (s, sv), (t, v, kind) in itertools.product(SIGNS, INTS):
        for typ in ('Number', 'Int', 'Integer'):
            for rest in FOLLOW if typ == 'Number' else FOLLOW[:4]:
                if extends(kind, rest):
                    continue
                sp = split(s + t, kind, rest)
                if sp is None:
                    continue
                inv, r = sp
                if extends(kind, r):
                    continue
                yield ['a:' + typ, ' ' + inv, [['a', ['int', sv * v]]], r, kind == 'r']
        for typ in ('int', 'number', 'count'):
            for f in ['{%s}', '{ %s}', '{%s }', ' {%s}', r'{%s\relax}'] if typ == 'int' else ['{%s}']:
                for rest in ['w', ' w', '5', r'\zm', '{5}', '[5]']:
                    yield ['a:' + typ, f % (s + t), [['a', ['int', sv * v]]], rest, False]
    for t, v in (('7', 7), (r'\zn', 7), (r'\zk', -12), (r'\zd', 2)):
        for rest in ['w', '5', r'\zm', '{5}', '[5]']:
            if t[0] != '\\' or not rest[0].isalpha():
                yield ['a:int', ' ' + t, [['a', ['int', v]]], rest, False]


# ---- dimensions -----------------------------------------------------------------------------

UNIT = {'pt': Fraction(65536), 'pc': Fraction(12 * 65536), 'in': Fraction(7227, 100) * 65536, 'bp': Fraction(7227, 7200) * 65536,
        'cm': Fraction(7227, 254) * 65536, 'mm': Fraction(7227, 2540) * 65536, 'dd': Fraction(1238, 1157) * 65536, 'cc': Fraction(14856, 1157) * 65536,
        'sp': Fraction(1), 'ex': Fraction(5 * 65536), 'em': Fraction(11 * 65536)}
DECS = [('0', 0), ('1', 1), ('12', 12), ('1.5', Fraction(3, 2)), ('.5', Fraction(1, 2)), ('3.', 3), ('1,25', Fraction(5, 4)), ('0.001', Fraction(1, 1000)), (',5', Fraction(1, 2)),
        ("'17", 15), ('"1F', 31), (r'\zd.5', Fraction(5, 2)), (r'1.\zd ', Fraction(6, 5)), ('.', 0), ('`a', 97)]
DFOLLOW = ['w', ' w', '5', ' 5', r'\relax 5', r'\zm', '{5}', '[5]', 'pt', 'plu', 'minu', r'\emph{5}', '']
REGS = [(r'\zl', 3 * 65536), (r'\zw', -2 * 65536), (r'\parindent', None)]


def dimens(tier):
    full = tier != 'quick'
    signs = SIGNS[:8]
    for (s, sv), (d, dv), u in itertools.product(signs, DECS, UNIT):
        for true in ('', 'true', 'true ', ' true '):
            if true and u in ('em', 'ex'):
                continue
            for gap in ('', ' '):
                for unit in (u, u.upper()) if not true else (u,):
                    t = s + d + gap + true + unit
                    if d[:1] == '"' and t[len(s + d):][:1] in 'ABCDEF':
                        continue
                    w = ['dimen', float(sv * dv * UNIT[u])]
                    few = not full and (true or gap or unit != u or s not in ('', '-'))
                    for rest in DFOLLOW[:2] if few else DFOLLOW:
                        r = rest
                        inv = t
                        if r[:1] == ' ':
                            inv, r = t + ' ', r[1:]
                        yield ['a:Dimen', ' ' + inv, [['a', w]], r, False]
                    for f in ('{%s}', '{%s }', r'[%s]') if not few else ('{%s}',):
                        a = '[ a:dimen ]' if f[0] == '[' else 'a:dimen'
                        for rest in ('w', '5'):
                            yield [a, f % t, [['a', w]], rest, False]
    for (s, sv), (d, dv), (r_, rv) in itertools.product(signs, DECS + [('', 1)], REGS):
        if rv is None:
            rv = 20 * 65536
        if d in ('.', '"1F'):
            continue
        t = s + d + r_
        w = ['dimen', float(sv * dv * rv)]
        for rest in DFOLLOW:
            if rest[:1].isalpha():
                continue
            inv = t
            if rest[:1] == ' ':
                inv, rest = t + ' ', rest[1:]
            yield ['a:Dimen', ' ' + inv, [['a', w]], rest, False]
        yield ['a:dimen', '{%s}' % t, [['a', w]], 'w', False]
        yield ['a:Length', ' %s ' % t, [['a', w]], 'w', False]
    for (s, sv), (d, dv) in itertools.product(signs, DECS):
        w = ['float', float(sv * dv)]
        for rest in ('w', ' w', '5', r'\zm'):
            yield ['a:float', '{%s}' % (s + d), [['a', w]], rest, False]
        yield ['a:double', '{%s}' % (s + d), [['a', w]], 'w', False]
        yield ['[ a:float ]', '[%s]' % (s + d), [['a', w]], 'w', False]
    for t in (r'\zdim', r'-\zdim', r'2\zp'):
        v = {r'\zdim': Fraction(5, 2) * UNIT['cm'], r'-\zdim': -Fraction(5, 2) * UNIT['cm'], r'2\zp': 2 * UNIT['pt']}[t]
        yield ['a:dimen', '{%s}' % t, [['a', ['dimen', float(v)]]], 'w', False]
        yield ['a:Dimen', ' %s ' % t, [['a', ['dimen', float(v)]]], 'w', False]
    for (s, sv), (d, dv) in itertools.product(signs, DECS):
        for gap in ('', ' '):
            w = ['dimen', float(sv * dv)]
            for typ in ('MuDimen', 'MuLength'):
                for rest in ('w', '5', r'\zm', '{5}', 'mu'):
                    yield ['a:' + typ, ' ' + s + d + gap + 'mu', [['a', w]], rest, False]


COMP = [(None, None), ('1pt', [65536.0, 0]), ('.5cm', [float(Fraction(1, 2) * UNIT['cm']), 0]), ('3fil', [3.0, 1]), ('1fill', [1.0, 2]), ('-2filll', [-2.0, 3]), ('0.5 fil', [0.5, 1]),
        (r'2\zl', [6 * 65536.0, 0]), ('0fil', [0.0, 1]), ('1.5FILL', [1.5, 2]), ('2.25fil', [2.25, 1]), (r'\zl', [3 * 65536.0, 0])]


def glues(tier):
    for base, bv in (('1pt', 65536.0), ('-2.5cm', float(-Fraction(5, 2) * UNIT['cm'])), ('- -1em', float(UNIT['em'])), (r'2\zl', 6 * 65536.0), ('0pt', 0.0)):
        for (p, pv), (m, mv) in itertools.product(COMP, repeat=2):
            for kw in (' plus %s', 'plus%s', ' PLUS %s'):
                if p is None and kw != ' plus %s':
                    continue
                if kw == 'plus%s' and base.startswith('2\\'):
                    continue
                t = base + (kw % p if p else '')
                if m:
                    t += ' minus ' + m
                w = ['glue', bv, pv, mv]
                for rest in ('w', ' w', '5', r'\relax', '{5}', 'plu', 'm', r'\zm'):
                    inv = t
                    if (p or m or base).endswith('\\zl') or inv.endswith('\\zl'):
                        if rest[:1].isalpha():
                            continue
                    if inv[-1:] == 'l' and rest == 'l':
                        continue
                    if rest[:1] == ' ':
                        inv, r = t + ' ', rest[1:]
                    else:
                        r = rest
                    if r.startswith('m') and m is None and r.startswith('minus'):
                        continue
                    for typ in ('Glue', 'Skip') if tier != 'quick' else ('Glue',):
                        yield ['a:' + typ, ' ' + inv, [['a', w]], r, True]
    for s, v in (('', 1), ('-', -1), ('--', 1)):
        w = ['glue', v * 3 * 65536.0, [v * 1.0, 1], [v * 2 * 65536.0, 0]]
        for rest in ('5', r'\zm', '{5}'):
            yield ['a:Glue', ' ' + s + r'\zs', [['a', w]], rest, False]
        w = ['glue', v * 3 * 65536.0, None, None]
        yield ['a:Dimen', ' ' + s + r'\zs', [['a', ['dimen', v * 3 * 65536.0]]], '5', False]
        yield ['a:Glue', ' ' + s + r'2\zs', [['a', ['glue', v * 6 * 65536.0, None, None]]], '5', False]
        yield ['a:MuGlue', ' ' + s + r'\zq', [['a', ['glue', v * 4.0, [v * 1.0, 2], None]]], '5', False]
    mc = [(None, None), ('3mu', [3.0, 0]), ('1.5fil', [1.5, 1]), ('-2fill', [-2.0, 2])]
    for (p, pv), (m, mv) in itertools.product(mc, repeat=2):
        for base, bv in (('1mu', 1.0), ('-2.5mu', -2.5)):
            t = base + (' plus ' + p if p else '') + (' minus ' + m if m else '')
            for rest in ('w', '5', r'\zm', '{5}'):
                yield ['a:MuGlue', ' ' + t, [['a', ['glue', bv, pv, mv]]], rest, False]


# ---- signatures -----------------------------------------------------------------------------

# kind of contents: (text, expected); nothing here ends the brackets it is put into
ANY = [('x', ['text', 'x']), (r'a\zm b', ['text', 'aMb']), ('', ['text', '']), (r'\emph{q}r', ['text', 'qr']), ('{p}q', ['text', 'pq']), ('{]})>', ['text', '])>']),
       (r'\zu{]}', ['text', '<]>']), ('a b', ['text', 'a b']), ('{[(<}', ['text', '[(<']), ('{x{y}])>}z', ['text', 'xy])>z']), ('{\\zu{x}]}', ['text', '<x>]']), (r'\[y\]', ['text', 'y']), ('$x$', ['text', 'x']), ('=', ['text', '=']), ('*', ['text', '*'])]
STR = [('x', ['str', 'x']), (r'a\zm b', ['str', 'aMb']), ('', ['str', '']), ('a1-2', ['str', 'a1-2']), (r'\zm', ['str', 'M'])]
NOX = [('x', ['toks', 'x']), (r'a\zm b', ['toks', r'a\zm b']), (r'\emph{q}', ['toks', r'\emph{q}']), (r'{]}y', ['toks', '{]}y'])]
INT = [('12', ['int', 12]), (r'-\zn', ['int', -7]), ('"1F', ['int', 31])]
FLO = [('1.5', ['float', 1.5]), ('-2', ['float', -2])]
DIM = [('1.5pt', ['dimen', 98304.0]), (r'2\zl', ['dimen', 393216.0]), ('-1in', ['dimen', float(-UNIT['in'])])]
LIS = [('a,b', ['list', [['text', 'a'], ['text', 'b']]]), ('a', ['list', [['text', 'a']]]), ('a,{b,c},d', ['list', [['text', 'a'], ['text', 'b,c'], ['text', 'd']]]),
       (r'\zm,\emph{x,y}', ['list', [['text', 'M'], ['text', 'x,y']]]), ('a,,b', ['list', [['text', 'a'], ['text', ''], ['text', 'b']]]), ('{]},b', ['list', [['text', ']'], ['text', 'b']]]), ('a,{b{c}d,e},f', ['list', [['text', 'a'], ['text', 'bcd,e'], ['text', 'f']]]), (' a , b c ', ['list', [['text', 'a'], ['text', 'b c']]])]
LIN = [('1,-2', ['list', [['int', 1], ['int', -2]]]), (r'\zn', ['list', [['int', 7]]])]
LID = [('1pt;2in', ['list', [['dimen', 65536.0], ['dimen', float(2 * UNIT['in'])]]])]
DIC = [('x=1,y', ['dict', {'x': ['text', '1'], 'y': ['true']}]), ('x={a,b},y=c', ['dict', {'x': ['text', 'a,b'], 'y': ['text', 'c']}]), ('k', ['dict', {'k': ['true']}]),
       ('x=a=b', ['dict', {'x': ['text', 'a=b']}]), (r'x=\zm,y=\emph{q,r}', ['dict', {'x': ['text', 'M'], 'y': ['text', 'q,r']}]), ('', ['dict', {}]),
       ('x=,y=1', ['dict', {'x': ['text', ''], 'y': ['text', '1']}]), ('x={]},y', ['dict', {'x': ['text', ']'], 'y': ['true']}]), ('x={a=b},y', ['dict', {'x': ['text', 'a=b'], 'y': ['true']}]),
       ('x={b{c}d,e},y', ['dict', {'x': ['text', 'bcd,e'], 'y': ['true']}]), ('x=a{b}c,y', ['dict', {'x': ['text', 'abc'], 'y': ['true']}]), ('x = 1, y = 2', ['dict', {'x': ['text', '1'], 'y': ['text', '2']}])]
DIN = [('x=1,y=22', ['dict', {'x': ['int', 1], 'y': ['int', 22]}])]
TYPES = {'': ANY, ':str': STR, ':nox': NOX, ':int': INT, ':float': FLO, ':dimen': DIM, ':list': LIS, ':list:int': LIN, ':list(;):dimen': LID, ':dict': DIC, ':dict:int': DIN}
NEST = {'[]': [('[y]', ['text', '[y]']), ('a[b[c]]d', ['text', 'a[b[c]]d'])], '()': [('(y)', ['text', '(y)'])], '<>': [('<y>', ['text', '<y>'])]}
BARE = {'': [('x', ['text', 'x']), (r'\zm ', ['text', 'M'])], ':str': [('x', ['str', 'x'])], ':nox': [(r'\zm ', ['toks', r'\zm'])], ':int': [('3', ['int', 3])],
        ':cs': [(r'\foo ', ['tok', r'\foo']), (r'{\foo}', ['tok', r'\foo']), (r'\+', ['tok', r'\+'])], ':Tok': [('x', ['tok', 'x']), (r'\zm ', ['tok', r'\zm']), (r'\+', ['tok', r'\+'])],
        ':XTok': [(r'\zm ', ['tok', 'M']), ('x', ['tok', 'x'])], ':Number': [('12 ', ['int', 12]), (r'-"F ', ['int', -15])], ':Dimen': [('1.5pt ', ['dimen', 98304.0]), (r'-\zl ', ['dimen', -196608.0])],
        ':Glue': [('1pt plus 3fil ', ['glue', 65536.0, [3.0, 1], None])], ':chr': [('x', ['str', 'x'])]}


def values(spec, rich):
    """list of (text, expected) for one argument of a signature; None as text: absent"""
    opener, typ = spec
    out = []
    if opener in ('*', '+', '-'):
        return [('', ['none']), (opener, ['char', opener])]
    if opener == '=':
        return [('', ['none']), ('=', ['char', '='])]
    src = list(TYPES.get(typ, []))
    if opener:
        out.append(('', ['none']))
        if typ == '':
            src = src[:1] + NEST.get(opener, []) + src[1:]
        if not rich:
            src = src[:3]
        for t, w in src:
            if not braced_ok(t, opener):
                continue
            out.append((opener[0] + t + opener[1], w))
    else:
        if not rich:
            src = src[:3]
        out += [('{' + t + '}', w) for t, w in src]
        out += BARE.get(typ, [])
    return out


def braced_ok(t, opener):
    """does every bracket of the kind in t stand inside braces or balance?"""
    n = d = 0
    i = 0
    while i < len(t):
        ch = t[i]
        if ch == '\\':
            i += 2
            continue
        if ch == '{':
            d += 1
        elif ch == '}':
            d -= 1
        elif not d and ch == opener[0]:
            n += 1
        elif not d and ch == opener[1]:
            n -= 1
            if n < 0:
                return False
        i += 1
    return n == 0


def specs(quick):
    out = [('*', ''), ('', ''), ('[]', ''), ('()', ''), ('<>', '')]
    out += [('', t) for t in (':str', ':nox', ':int', ':dimen', ':list', ':dict', ':cs', ':Tok', ':Number', ':Dimen')]
    out += [('[]', t) for t in (':str', ':int', ':dict', ':nox', ':list')]
    if not quick:
        out += [('', t) for t in (':float', ':list:int', ':XTok', ':Glue', ':chr', ':dict:int', ':list(;):dimen')] + [('[]', ':dimen'), ('()', ':list:int'), ('<>', ':str'), ('()', ':dict'), ('=', '')]
    return out


def argstring(sig):
    out = []
    for name, (opener, typ) in zip('abcdef', sig):
        if opener in ('*', '+', '-', '='):
            out.append(opener)
        elif opener:
            out.append('%s %s%s %s' % (opener[0], name, typ, opener[1]))
        else:
            out.append(name + typ)
    return ' '.join(out)


RAW = (':Number', ':Dimen', ':Glue')


def build(sig, vals, gap, rest):
    """one invocation, or None if it is not conforming"""
    inv = ''
    want = []
    tail = rest
    for i in range(len(sig) - 1, -1, -1):
        opener, typ = sig[i]
        t, w = vals[i]
        name = {'*': '*modifier*', '+': '*modifier*', '-': '*modifier*', '=': '*equals*'}.get(opener, 'abcdef'[i])
        want.insert(0, [name, w])
        follow = (inv + tail).lstrip()
        if w == ['none']:
            if follow[:1] == opener[0]:
                return None
            if not follow:
                return None
            continue
        if w[0] == 'int' and t == r'-\zn' or t.endswith('\\zl '):
            pass
        if not opener and typ in RAW and follow[:1] in '-+"\'`.0123456789=':
            pass
        inv = gap + t + inv
    loose = False
    for (opener, typ), (t, w) in reversed(list(zip(sig, vals))):
        if w == ['none']:
            loose = True
        else:
            loose = loose or typ in RAW
            break
    else:
        loose = True
    if not inv or inv[:1].isalpha():
        inv = ' ' + inv
    if inv[-1:] == ' ' and rest[:1] == ' ':
        return None
    return [argstring(sig), inv, want, rest, loose]


def signatures(n, speclist, rich, rests, gaps):
    for sig in itertools.product(speclist, repeat=n):
        if sum(s[0] in ('*', '+', '-') for s in sig) > 1 or any(s[0] in ('*', '=') for s in sig[1:]):
            continue
        for vals in itertools.product(*[values(s, rich) for s in sig]):
            for gap in gaps:
                for rest in rests:
                    b = build(sig, vals, gap, rest)
                    if b is not None:
                        yield b


def spaces(tier):
    q = tier == 'quick'
    allspecs = specs(False)
    return [
        FnSpace('integers', '%d sign prefixes x %d constants and registers x %d texts behind, for the TeX and LaTeX integer types' % (len(SIGNS), len(INTS), len(FOLLOW)),
                lambda: batches(integers()), run, timeout=120),
        FnSpace('dimens', '8 sign prefixes x %d decimals x all units, true, spacing and letter case, registers and multiples, for dimen, Dimen, float, MuDimen' % len(DECS),
                lambda: batches(dimens(tier), 200), run, timeout=120),
        FnSpace('glues', '5 natural sizes x %d stretch x %d shrink components and registers, for Glue and MuGlue' % (len(COMP), len(COMP)), lambda: batches(glues(tier)), run, timeout=120),
        FnSpace('sig-rich', 'signatures of <= 2 arguments from %d kinds, all listed values, two spacings, six texts behind' % len(allspecs),
                lambda: batches(itertools.chain(signatures(1, allspecs + [('+', ''), ('-', '')], True, ['w', ' w', '[w]', r'\zm', '*', '{w}', '(w)', '<w>', '$w$', '1pt', ',w'], ['', ' ', '\n', '%\n ']),
                                                signatures(2, allspecs if not q else specs(True), True, ['w', '[w]'] if q else ['w', '[w]', '{w}', ' w'], ['', ' '] if not q else ['']))), run, timeout=120),
        FnSpace('sig-deep', 'signatures of 3%s arguments, three values each' % ('' if q else ' and 4'),
                lambda: batches(itertools.chain(signatures(3, specs(True)[:12] if q else specs(True), False, ['w'] if q else ['w', '[w]'], ['']),
                                                () if q else signatures(4, specs(True)[:9] + [('[]', ':dict')], False, ['w'], ['']))), run, timeout=120),
    ]

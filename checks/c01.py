"""C01: the tokenizer against an explicit N/M/S reference lexer (TeXbook ch. 8, tex.web 343-357)."""
import itertools
import string

from mc import plas
from mc.core import Space, FnSpace, Violation

PROP = 'C01'
LEVEL = 'model_checking'
RULE = ('a case is one (catcode table or table-change schedule, input string); all strings over the space\'s '
        'alphabet up to its length are executed on the real tokenizer and compared token by token with the '
        'reference lexer; distinct_nontrivial counts distinct token streams observed')
ASSUMPTIONS = [
    'character 10 is the line terminator of the input text (plasTeX keeps it in the text instead of \\endlinechar)',
    'adjacent paragraph tokens coming from blank lines are merged into one (documented plasTeX behaviour, pinned by '
    'unittests/Tokenizer.py exercise 8.5); \\<newline> denotes a space token',
    'the line terminator is never given category 0, 7 or 11',
]

LETTERS = string.ascii_letters
DEFAULT = {'\\': 0, '{': 1, '}': 2, '$': 3, '&': 4, '\n': 5, '#': 6, '^': 7, '_': 8, '\0': 9, ' ': 10, '\t': 10,
           '\r': 10, '\f': 10, '~': 13, '%': 14}
DEFAULT.update({c: 11 for c in LETTERS})
VERB = {c: 11 for c in LETTERS}
HEX = '0123456789abcdef'
N, M, S = 'N', 'M', 'S'


class Lexer(object):
    """Reference lexer. table: dict char -> category (12 when absent)."""

    def __init__(self, text, table):
        self.t = text
        self.p = 0
        self.table = table
        self.state = N
        self.prev = None
        self.pushed = []
        self.cx = None

    def cat(self, c):
        return self.table.get(c, 12)

    def getc(self):
        """Next character after ^^ reduction -> (char, cat) or None at the end."""
        if self.p >= len(self.t):
            return None
        c = self.t[self.p]
        self.p += 1
        while self.cat(c) == 7 and self.p + 1 < len(self.t) and self.t[self.p] == c and ord(self.t[self.p + 1]) < 128:
            x = self.t[self.p + 1]
            if x in HEX and self.p + 2 < len(self.t) and self.t[self.p + 2] in HEX:
                c = chr(int(x + self.t[self.p + 2], 16))
                self.p += 3
            else:
                c = chr(ord(x) + 64) if ord(x) < 64 else chr(ord(x) - 64)
                self.p += 2
        return c, self.cat(c)

    def skipline(self):
        while self.p < len(self.t):
            self.p += 1
            if self.t[self.p - 1] == '\n':
                return

    def newline(self, c):
        if c == '\n':
            self.state = N

    def next(self):
        while True:
            if self.pushed:
                return self.pushed.pop(0)
            if self.cx is not None:
                self.cx.state((self.state, self.t[self.p:self.p + 3]))
                self.cx.trans()
            g = self.getc()
            if g is None:
                return None
            c, k = g
            if k in (9, 15):
                self.newline(c)
                continue
            if k == 10:
                if self.state != M:
                    self.newline(c)
                    continue
                self.state = S
                self.newline(c)
                tok = (10, ' ')
            elif k == 5:
                if c != '\n':
                    self.skipline()
                st, self.state = self.state, N
                if st == S:
                    continue
                if st == M:
                    tok = (10, ' ')
                else:
                    tok = (0, 'par')
                    if self.prev == tok:
                        continue
            elif k == 14:
                if c != '\n':
                    self.skipline()
                self.state = N
                continue
            elif k == 0:
                tok = self.escape()
            elif k == 13:
                self.state = M
                self.newline(c)
                tok = (0, 'active::' + c)
            else:
                self.state = M
                self.newline(c)
                tok = (k, c)
            self.prev = tok
            return tok

    def escape(self):
        g = self.getc()
        if g is None:
            self.state = M
            return (0, '')
        c, k = g
        if k == 11:
            name = c
            while True:
                save = self.p
                g = self.getc()
                if g is None:
                    break
                if g[1] != 11:
                    # the character is read again (decoded) under the categories in force then
                    self.t = self.t[:save] + g[0] + self.t[self.p:]
                    self.p = save
                    break
                name += g[0]
            self.state = S
            return (0, name)
        if k == 5 and c == '\n':
            self.state = N
            return (10, ' ')
        self.state = S if k == 10 else M
        self.newline(c)
        return (0, c)


CLASSCAT = None


def setup():
    plas.fresh()


class Impl(object):
    """One shared TeX instance: tokenization does not change the document."""

    def __init__(self):
        self.tex = plas.TeX()
        self.ctx = self.tex.ownerDocument.context
        self.ctx.push()

    def table(self, assigns, verb):
        self.ctx.pop()
        self.ctx.push()
        if verb:
            self.ctx.setVerbatimCatcodes()
        for c, k in assigns:
            self.ctx.catcode(c, k)

    def start(self, text):
        del self.tex.inputs[:]
        self.tex.input(text)
        return self.tex.itertokens()


_impl = None


def impl():
    global _impl
    if _impl is None:
        _impl = Impl()
    return _impl


def obs(t):
    return (int(t.catcode), str.__str__(t))


def mktable(assigns, verb=False):
    d = dict(VERB if verb else DEFAULT)
    for c, k in assigns:
        if k == 12:
            d.pop(c, None)
        else:
            d[c] = k
    return d


def classcheck(t, o):
    """every produced token carries the category its class denotes"""
    T = plas.plasTeX.Tokenizer
    want = {0: T.EscapeSequence, 1: T.BeginGroup, 2: T.EndGroup, 3: T.MathShift, 4: T.Alignment, 6: T.Parameter,
            7: T.Superscript, 8: T.Subscript, 10: T.Space, 11: T.Letter, 12: T.Other}
    return isinstance(t, want.get(o[0], ()))


def compare(text, assigns, verb, cx, fresh_tex=False):
    im = impl() if not fresh_tex else Impl()
    im.table(assigns, verb)
    lx = Lexer(text, mktable(assigns, verb))
    lx.cx = cx
    exp = []
    while True:
        t = lx.next()
        if t is None:
            break
        exp.append(t)
    got = []
    limit = 2 * len(text) + 8
    try:
        for t in im.start(text):
            o = obs(t)
            got.append(o)
            if not classcheck(t, o):
                return Violation('token %r of %r has class %s but category %s' % (o[1], text, type(t).__name__, o[0]))
            if len(got) > limit:
                return Violation('tokenizing %r does not end: %r...' % (text, got[:10]), kind='loop')
    except Exception as e:
        return Violation('tokenizing %r raised %s: %s (assignments %r)' % (text, type(e).__name__, e, assigns),
                         kind='raise-' + type(e).__name__)
    cx.trace()
    cx.outcome(tuple(got))
    if got != exp:
        return Violation('input %r with \\catcode assignments %r%s\n expected %r\n got      %r' % (
            text, assigns, ' on verbatim table' if verb else '', exp, got))
    return None


CORE = ['\\', 'a', ' ', '\n', '%', '^', '{', '1', '~', '\0', 'M', '@']
WIDE = ['\\', '{', '}', '$', '&', '\n', '#', '^', '_', '\0', ' ', '\t', '\r', 'a', 'Z', '7', '@', '\u00e9', '~', '%',
        '\f', '|']
CHUNKS = ['\\a', '\\', '@b', ' ', '  ', '\n', ' \n', '\n\n', '%c', '^^M', '^^', '^', '^^5e', '^^?', 'x', '{', '\t',
          '\\%', '~', '\0', '\x7f', '\u20ac', '^^6']


def strings(alpha, n):
    for k in range(n + 1):
        for t in itertools.product(alpha, repeat=k):
            yield ''.join(t)


def chunk_strings(n):
    for k in range(1, n + 1):
        for t in itertools.product(CHUNKS, repeat=k):
            yield ''.join(t)


def run_plain(case, cx):
    return compare(case, [], False, cx)


def run_fresh(case, cx):
    return compare(case, [], False, cx, True)


def run_table(case, cx):
    return compare(case[2], [tuple(a) for a in case[0]], case[1], cx)


BADNL = (0, 7, 11)


def table_cases(nstr, pairs):
    chars = ['\\', '{', ' ', '\n', '%', '^', 'a', '@', '|']
    alpha = ['\\', 'a', '@', ' ', '\n', '|', '^', 'M']
    singles = [(c, k) for c in chars for k in range(16) if not (c == '\n' and k in BADNL)]
    strs = list(strings(alpha, nstr))
    strs += [p + q for p in ('a', '\\a', ' ', '\n', '|', '^^') for q in ('{ b', '%x\ny', '^^M x', '\n\n b', 'b \n c')]
    if not pairs:
        for s in singles:
            for t in strs:
                yield [[s], False, t]
        for t in strs:
            yield [[], True, t]
        for s in singles:
            for t in strings(alpha, 2):
                yield [[s], True, t]
    else:
        chars2 = ['\\', ' ', '\n', '^', 'a', '@', '|']
        s2 = [(c, k) for c in chars2 for k in range(16) if not (c == '\n' and k in BADNL)]
        for x in s2:
            for y in s2:
                if x[0] < y[0]:
                    for t in strs:
                        yield [[x, y], False, t]


# ---- live changes: the table changes between two tokens; push-back in between

LIVE_ASSIGN = [('a', 12), ('@', 11), (' ', 12), (' ', 9), ('\n', 12), ('%', 12), ('\\', 12), ('^', 12), ('{', 13),
               ('~', 12), ('1', 11), ('|', 0), ('|', 5), ('1', 14)]
OPS = ['next', 'push', 'pushgroup', 'cat', 'verb', 'group']


def run_live(case, cx):
    """case: [text, schedule]; schedule entries applied after the given number of tokens"""
    text, sched = case
    im = impl()
    im.table([], False)
    table = mktable([])
    lx = Lexer(text, table)
    lx.cx = cx
    got, exp, stack = [], [], []
    it = im.start(text)
    i = 0
    done = False
    try:
        depth = 0
        while not done:
            for op in [o for o in sched if o[0] == i]:
                cx.trans()
                if op[1] == 'cat':
                    im.ctx.catcode(op[2], op[3])
                    lx.table = dict(lx.table)
                    if op[3] == 12:
                        lx.table.pop(op[2], None)
                    else:
                        lx.table[op[2]] = op[3]
                elif op[1] == 'verb':
                    im.ctx.setVerbatimCatcodes()
                    lx.table = dict(VERB)
                elif op[1] == 'push':
                    im.ctx.push()
                    depth += 1
                    stack.append(lx.table)
                elif op[1] == 'pop':
                    if stack:
                        im.ctx.pop()
                        depth -= 1
                        lx.table = stack.pop()
                elif op[1] == 'back':
                    # push the last op[2] tokens back: they must be re-read unchanged, before anything else
                    k = min(op[2], len(got))
                    if k:
                        toks = last[-k:]
                        if k == 1:
                            im.tex.pushToken(toks[0])
                        else:
                            im.tex.pushTokens(toks)
                        lx.pushed[0:0] = exp[-k:]
            i += 1
            t = next(it, None)
            if t is not None:
                if not got:
                    last = []
                last.append(t)
                got.append(obs(t))
            e = lx.next()
            if e is not None:
                exp.append(e)
            if (t is None) != (e is None) or (t is not None and got[-1] != e):
                while depth > 0:
                    im.ctx.pop()
                    depth -= 1
                return Violation('text %r, schedule %r: token %d differs\n expected %r\n got      %r' % (
                    text, sched, i, exp, got))
            done = t is None or i > 40
        while depth > 0:
            im.ctx.pop()
            depth -= 1
    except Exception as e:
        return Violation('text %r schedule %r raised %s: %s' % (text, sched, type(e).__name__, e),
                         kind='raise-' + type(e).__name__)
    cx.trace()
    cx.outcome(tuple(got))
    if i > 40:
        return Violation('text %r schedule %r does not end' % (text, sched))
    return None


LIVE_TEXTS = ['\\a b{c}', '\\a@b c', 'a  b\n c', '\\a\n\nb%c\nd', '^^Ma\\ b', 'a~b \\%c', '1|a@\n\nb', '{a}^^41x', '\\a1 2',
              'a%b\n%c\n\nd']


def live_cases(tier):
    acts = [['cat', c, k] for c, k in LIVE_ASSIGN] + [['verb'], ['push'], ['pop'], ['back', 1], ['back', 2]]
    for t in LIVE_TEXTS:
        for i in range(0, 6):
            for a in acts:
                yield [t, [[i] + a]]
        for i in range(0, 5):
            for j in range(i, 6):
                for a in acts:
                    for b in acts:
                        yield [t, [[i] + a, [j] + b]]
    if tier == 'thorough':
        acts3 = [['cat', 'a', 12], ['cat', '@', 11], ['cat', ' ', 12], ['verb'], ['push'], ['pop'], ['back', 1], ['back', 2],
                 ['cat', '\n', 12]]
        for t in LIVE_TEXTS:
            for i in range(0, 4):
                for j in range(i, 5):
                    for k in range(j, 6):
                        for a in acts3:
                            for b in acts3:
                                for c in acts3:
                                    yield [t, [[i] + a, [j] + b, [k] + c]]


# ---- the category table itself: all histories of assignments form a partition

TCH = ['a', '@', '\n', '^', '\\']


def table_histories(tier):
    codes = range(16)
    ops = [('c', c, k) for c in TCH for k in codes] + [('v',), ('push',), ('pop',)]
    for n in (1, 2):
        for h in itertools.product(ops, repeat=n):
            yield list(h)
    small = [('c', c, k) for c in ('a', '@') for k in (0, 5, 11, 12, 13)] + [('v',), ('push',), ('pop',)]
    for n in (3, 4) if tier == 'quick' else (3, 4, 5):
        for h in itertools.product(small, repeat=n):
            yield list(h)


PROBE = TCH + ['Z', '1', ' ', '\t', '\r', '\0', '%', '~', '\u00e9']


def run_history(case, cx):
    im = impl()
    im.table([], False)
    ctx = im.ctx
    depth = 0
    tab, stack = mktable([]), []
    v = None
    for op in case:
        cx.trans()
        if op[0] == 'c':
            ctx.catcode(op[1], op[2])
            tab = dict(tab)
            tab.pop(op[1], None)
            if op[2] != 12:
                tab[op[1]] = op[2]
        elif op[0] == 'v':
            ctx.setVerbatimCatcodes()
            tab = dict(VERB)
        elif op[0] == 'push':
            ctx.push()
            depth += 1
            stack.append(tab)
        elif stack:
            ctx.pop()
            depth -= 1
            tab = stack.pop()
        g = [int(ctx.whichCode(c)) for c in PROBE]
        e = [tab.get(c, 12) for c in PROBE]
        cx.state(tuple(e))
        if g != e:
            v = Violation('after %r: categories of %r expected %r, got %r' % (case, PROBE, e, g))
            break
        cats = ctx.categories
        if any(sum(str(s).count(c) for s in cats) > 1 for c in PROBE):
            v = Violation('after %r: a character is in two categories' % (case,))
            break
    while depth:
        ctx.pop()
        depth -= 1
    cx.trace()
    cx.outcome(tuple(g))
    return v


def spaces(tier):
    q = tier == 'quick'
    return [
        FnSpace('default-core', 'all strings of length <= %d over %d characters, default categories' % (5 if q else 6, len(CORE)),
                lambda: strings(CORE, 5 if q else 6), run_plain, setup),
        FnSpace('default-wide', 'all strings of length <= %d over %d characters' % (4 if q else 5, len(WIDE)),
                lambda: strings(WIDE, 4 if q else 5), run_plain, setup),
        FnSpace('chunks', 'all concatenations of <= %d of %d lexical chunks' % (4 if q else 5, len(CHUNKS)),
                lambda: chunk_strings(4 if q else 5), run_plain, setup),
        FnSpace('tables', 'every single category reassignment of 9 characters x all strings length <= %d over 8 characters, '
                'also on the verbatim table' % (3 if q else 4),
                lambda: table_cases(3 if q else 4, False), run_table, setup),
        FnSpace('table-pairs', 'every pair of reassignments of 7 characters x all strings of length <= %d' % (1 if q else 2),
                lambda: table_cases(1 if q else 2, True), run_table, setup),
        FnSpace('live', 'category changes, group push/pop and token push-back after every token position (<= %d events)' % (2 if q else 3),
                lambda: live_cases(tier), run_live, setup),
        FnSpace('histories', 'all histories of catcode/verbatim/push/pop operations on the context',
                lambda: table_histories(tier), run_history, setup),
        FnSpace('fresh', 'strings of length <= 2 on a fresh TeX instance each (binding of the shared-instance harness)',
                lambda: strings(WIDE, 2), run_fresh, setup),
    ]

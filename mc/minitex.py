r"""A small independent TeX: mouth, expander and just enough of a stomach.

The reference model for C02, C03 and C04.  Written from The TeXbook (chapters
7, 20, 24) and the LaTeX definitions of \newcommand & co; it shares no code
and no data with plasTeX.  Programs that TeX would reject (undefined control
sequences, arguments that do not match, unbalanced input, ...) raise Skip.
"""
from fractions import Fraction as Q


class Skip(Exception):
    """the program is not one the property speaks about"""


ESC, BG, EG, MATH, ALIGN, EOL, PARAM, SUP, SUB, IGN, SPACE, LETTER, OTHER, ACTIVE, COMMENT, INVALID = range(16)

DEFAULT = {'\\': ESC, '{': BG, '}': EG, '$': MATH, '&': ALIGN, '\n': EOL, '#': PARAM, '^': SUP, '_': SUB, '\0': IGN,
           ' ': SPACE, '\t': SPACE, '~': ACTIVE, '%': COMMENT, '\x7f': INVALID}
for _c in 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ':
    DEFAULT[_c] = LETTER
# LaTeX (the sources come with their own \makeatletter)

PRIMS = set('''def gdef edef xdef let global long relax newcommand renewcommand providecommand newif expandafter csname
endcsname iftrue iffalse ifnum ifdim ifodd ifcase ifx ifdefined if ifcat ifcsname else or fi begingroup endgroup bgroup
egroup begin end catcode number noexpand newcounter setcounter addtocounter stepcounter arabic value the newenvironment
renewenvironment string unless romannumeral newlength setlength par makeatletter makeatother chardef mbox emph textbf
undefined newsavebox newcount advance count futurelet textit texttt underline footnote fbox centerline sqrt frac bfseries itshape small
large ttfamily item hline ( ) [ ] \\'''.split()) - {'undefined', 'futurelet', 'newsavebox'}
IFS = set('iftrue iffalse ifnum ifdim ifodd ifcase ifx ifdefined if ifcat ifcsname'.split())

CS = lambda n: ('cs', n)


class Tex(object):
    LIMIT = 4000

    def __init__(self, src, localswitches=False):
        self.localswitches = localswitches
        self.chars = src
        self.pos = 0
        self.state = 'N'
        self.buf = []          # token stack, next token last
        self.eq = {}
        for p in PRIMS:
            self.eq[p] = ('prim', p)
        self.eq['bgroup'] = ('char', '{', BG)
        self.eq['egroup'] = ('char', '}', EG)
        self.eq['empty'] = ('macro', (), (), False)
        self.eq['space'] = ('macro', (), (('ch', ' ', SPACE),), False)
        self.cat = dict(DEFAULT)
        self.saves = []        # [kind, {('eq'|'cat'|'len'|'cnt', name): old}]
        self.conds = []
        self.counters = {}
        self.regs = {}
        self.out = []
        self.steps = 0
        self.maxdepth = 0

    # ---- mouth ---------------------------------------------------------

    def catof(self, c):
        return self.cat.get(c, OTHER)

    def mouth(self):
        while self.pos < len(self.chars):
            c = self.chars[self.pos]
            self.pos += 1
            k = self.catof(c)
            if k == ESC:
                if self.pos >= len(self.chars):
                    raise Skip('escape at end')
                n = self.chars[self.pos]
                self.pos += 1
                if self.catof(n) == LETTER:
                    while self.pos < len(self.chars) and self.catof(self.chars[self.pos]) == LETTER:
                        n += self.chars[self.pos]
                        self.pos += 1
                    self.state = 'S'
                else:
                    self.state = 'S' if self.catof(n) == SPACE else 'M'
                return CS(n)
            if k == SPACE:
                if self.state == 'M':
                    self.state = 'S'
                    return ('ch', ' ', SPACE)
                continue
            if k == EOL:
                st, self.state = self.state, 'N'
                if c != '\n':
                    while self.pos < len(self.chars) and self.chars[self.pos] != '\n':
                        self.pos += 1
                    self.pos += 1
                if st == 'N':
                    return CS('par')
                if st == 'M':
                    return ('ch', ' ', SPACE)
                continue
            if k == COMMENT:
                while self.pos < len(self.chars) and self.chars[self.pos] != '\n':
                    self.pos += 1
                self.pos += 1
                self.state = 'N'
                continue
            if k in (IGN, INVALID):
                continue
            self.state = 'M'
            if k == ACTIVE:
                return CS('active:' + c)
            return ('ch', c, k)
        return None

    def next(self):
        self.steps += 1
        if self.steps > self.LIMIT:
            raise Skip('too many steps')
        if self.buf:
            return self.buf.pop()
        return self.mouth()

    def need(self):
        t = self.next()
        if t is None:
            raise Skip('end of input')
        return t

    def push(self, toks):
        self.buf.extend(reversed(list(toks)))

    # ---- meanings --------------------------------------------------------

    def meaning(self, t):
        if t[0] == 'cs':
            return self.eq.get(t[1])
        if t[0] == 'noex':
            return ('relax*',)
        return ('char', t[1], t[2])

    def save(self, kind, name, table, glob):
        if glob:
            for s in self.saves:
                s[1].pop((kind, name), None)
        elif self.saves:
            self.saves[-1][1].setdefault((kind, name), table.get(name))

    def define(self, name, m, glob=False):
        self.save('eq', name, self.eq, glob)
        self.eq[name] = m

    def setcat(self, c, k, glob=False):
        self.save('cat', c, self.cat, glob)
        self.cat[c] = k

    def setreg(self, name, v, glob=False):
        self.save('reg', name, self.regs, glob)
        self.regs[name] = v

    def opengroup(self, kind):
        self.saves.append([kind, {}])
        self.maxdepth = max(self.maxdepth, len(self.saves))

    def closegroup(self, kind):
        if not self.saves or self.saves[-1][0] != kind:
            raise Skip('group mismatch')
        tables = {'eq': self.eq, 'cat': self.cat, 'reg': self.regs}
        for (k, n), old in self.saves.pop()[1].items():
            if old is None:
                tables[k].pop(n, None)
            else:
                tables[k][n] = old

    # ---- arguments -----------------------------------------------------

    def group(self):
        """the rest of a brace group whose { has been read"""
        out, level = [], 1
        while True:
            t = self.need()
            if t[0] == 'ch' and t[2] == BG:
                level += 1
            elif t[0] == 'ch' and t[2] == EG:
                level -= 1
                if level == 0:
                    return out
            out.append(t)

    def undelimited(self):
        t = self.need()
        while t[0] == 'ch' and t[2] == SPACE:
            t = self.need()
        if t == CS('par'):
            raise Skip('par in argument')
        if t[0] == 'ch' and t[2] == BG:
            return self.group()
        if t[0] == 'ch' and t[2] == EG:
            raise Skip('extra }')
        return [t]

    def delimited(self, delim):
        out, braces = [], 0
        n = len(delim)
        while True:
            t = self.need()
            if t == CS('par') and CS('par') not in delim:
                raise Skip('par in argument')
            if t[0] == 'ch' and t[2] == BG and not (n == 1 and delim[0] == t):
                out.append(t)
                g = self.group()
                out.extend(g)
                out.append(('ch', '}', EG))
                braces += 1
                continue
            if t[0] == 'ch' and t[2] == EG:
                raise Skip('extra }')
            out.append(t)
            if out[-n:] == delim:
                # the delimiter may not be (partly) inside braces: it contains none
                arg = out[:-n]
                if len(arg) > 1 and arg[0][0] == 'ch' and arg[0][2] == BG and arg[-1][0] == 'ch' and arg[-1][2] == EG:
                    lv = 0
                    for i, x in enumerate(arg):
                        if x[0] == 'ch' and x[2] == BG:
                            lv += 1
                        elif x[0] == 'ch' and x[2] == EG:
                            lv -= 1
                            if lv == 0 and i < len(arg) - 1:
                                break
                    else:
                        arg = arg[1:-1]
                return arg

    def call(self, m):
        kind, params, body, isopt = m[:4]
        args = {}
        if kind == 'nc':
            nargs, opt = params
            k = 1
            if isopt:
                t = self.next()
                while t is not None and t[0] == 'ch' and t[2] == SPACE:
                    t = self.next()
                if t == ('ch', '[', OTHER):
                    args[1] = self.delimited([('ch', ']', OTHER)])
                    lv = 0
                    for x in args[1]:
                        lv += (x[0] == 'ch' and x[2] == BG) - (x[0] == 'ch' and x[2] == EG)
                        if lv == 0 and x == ('ch', '[', OTHER):
                            raise Skip('nested brackets, which LaTeX does not match')
                else:
                    if t is not None:
                        self.push([t])
                    args[1] = list(opt)
                k = 2
            for i in range(k, nargs + 1):
                args[i] = self.undelimited()
        else:
            i = 0
            params = list(params)
            while i < len(params):
                p = params[i]
                if p[0] == 'par#':
                    j = i + 1
                    delim = []
                    while j < len(params) and params[j][0] != 'par#':
                        delim.append(params[j])
                        j += 1
                    if delim:
                        if delim[-1] == ('ch', '{', BG):
                            # \def\a#1#{..}: the brace is matched, not removed
                            args[p[1]] = self.delimited(delim)
                        else:
                            args[p[1]] = self.delimited(delim)
                    else:
                        args[p[1]] = self.undelimited()
                    i = j
                else:
                    t = self.need()
                    if t != p:
                        raise Skip('use does not match definition')
                    i += 1
        out = []
        for t in body:
            if t[0] == 'par#':
                out.extend(args[t[1]])
            else:
                out.append(t)
        self.push(out)

    # ---- expansion --------------------------------------------------------

    def expandable(self, t):
        if t[0] != 'cs':
            return False
        m = self.eq.get(t[1])
        if m is None:
            raise Skip('undefined \\%s' % t[1])
        if m[0] in ('macro', 'nc', 'newif'):
            return True
        return m[0] == 'prim' and m[1] in EXPANDABLE

    def expand(self, t):
        m = self.eq[t[1]]
        if m[0] in ('macro', 'nc'):
            return self.call(m)
        if m[0] == 'newif':
            return self.branch(self.regs['sw:' + m[1]])
        getattr(self, 'x_' + m[1])()

    def nextx(self):
        """the next unexpandable token"""
        while True:
            t = self.next()
            if t is None:
                return None
            if not self.expandable(t):
                return t
            self.expand(t)

    def x_expandafter(self):
        a = self.need()
        b = self.need()
        if self.expandable(b):
            m = self.eq[b[1]]
            if m[0] == 'nc' and m[3]:
                raise Skip('a command with an optional argument takes several expansion steps')
            self.expand(b)
        else:
            self.push([b])
        self.push([a])

    def x_noexpand(self):
        raise Skip('noexpand')

    def csnametext(self):
        s = ''
        while True:
            t = self.nextx()
            if t is None:
                raise Skip('end')
            if t[0] == 'ch':
                if t[2] not in (LETTER, OTHER, SPACE):
                    raise Skip('csname')
                s += t[1]
            elif self.eq.get(t[1]) == ('prim', 'endcsname'):
                if s not in self.eq and not s.replace('-', '').isalnum():
                    raise Skip('odd csname')
                return s
            else:
                raise Skip('csname')

    def x_csname(self):
        s = self.csnametext()
        if s not in self.eq:
            self.define(s, ('prim', 'relax'))
        self.push([CS(s)])

    def x_string(self):
        t = self.need()
        s = t[1] if t[0] == 'ch' else '\\' + t[1]
        self.push([('ch', c, SPACE if c == ' ' else OTHER) for c in s])

    def x_number(self):
        self.push([('ch', c, OTHER) for c in str(self.integer())])

    def x_arabic(self):
        n = self.name()
        if n not in self.counters:
            raise Skip('no counter')
        self.push([('ch', c, OTHER) for c in str(self.counters[n])])

    def x_unless(self):
        raise Skip('unless')

    # conditionals

    def branch(self, value):
        """value: bool"""
        self.conds.append('then')
        if not value:
            d = self.skip(('else', 'or'))
            if d == 'or':
                raise Skip('extra or')
            if d == 'fi':
                self.conds.pop()
            else:
                self.conds[-1] = 'else'

    def skip(self, stops):
        level = 0
        while True:
            t = self.need()
            if t[0] != 'cs':
                continue
            m = self.eq.get(t[1])
            if m is None:
                if t[1].startswith('if'):
                    # TeX does not count it; nobody writes this on purpose
                    raise Skip('undefined conditional in skipped text')
                continue
            if m[0] == 'newif' or (m[0] == 'prim' and m[1] in IFS):
                level += 1
            elif m[0] == 'prim' and m[1] == 'fi':
                if level == 0:
                    return 'fi'
                level -= 1
            elif m[0] == 'prim' and m[1] in stops and level == 0:
                return m[1]

    def x_iftrue(self):
        self.branch(True)

    def x_iffalse(self):
        self.branch(False)

    def x_ifnum(self):
        self.conds.append('test')
        a = self.integer()
        r = self.relation()
        b = self.integer()
        self.endtest()
        self.branch(a < b if r == '<' else a > b if r == '>' else a == b)

    def x_ifdim(self):
        self.conds.append('test')
        a = self.dimen()
        r = self.relation()
        b = self.dimen()
        self.endtest()
        self.branch(a < b if r == '<' else a > b if r == '>' else a == b)

    def endtest(self):
        if self.conds[-1] != 'test':
            raise Skip('incomplete if')
        self.conds.pop()

    def relation(self):
        t = self.nextx()
        while t is not None and t == ('ch', ' ', SPACE):
            t = self.nextx()
        if t is None or t[0] != 'ch' or t[1] not in '<>=' or t[2] != OTHER:
            raise Skip('relation')
        return t[1]

    def x_ifodd(self):
        self.conds.append('test')
        n = self.integer()
        self.endtest()
        self.branch(n % 2 == 1)

    def x_ifcase(self):
        self.conds.append('test')
        n = self.integer()
        self.endtest()
        self.conds.append('or')
        while n != 0:
            s = self.skip(('or', 'else'))
            if s == 'fi':
                self.conds.pop()
                return
            if s == 'else':
                self.conds[-1] = 'else'
                return
            n -= 1

    def x_ifx(self):
        a, b = self.need(), self.need()
        self.branch(self.ifxmeaning(a) == self.ifxmeaning(b))

    def ifxmeaning(self, t):
        m = self.meaning(t)
        if m and m[0] == 'nc' and not m[3]:
            # a command without optional argument is a \long macro (unless starred)
            n = m[1][0]
            body = tuple(x for x in m[2])
            return ('macro', tuple(('par#', i + 1) for i in range(n)), body, m[4] if len(m) > 4 else True)
        if m and m[0] == 'newif':
            return ('prim', 'iftrue' if self.regs['sw:' + m[1]] else 'iffalse')
        return m

    def x_ifdefined(self):
        t = self.need()
        if t[0] != 'cs':
            raise Skip('ifdefined')
        self.branch(self.eq.get(t[1]) is not None)

    def x_ifcsname(self):
        s = self.csnametext()
        self.branch(s in self.eq)

    def charcode(self, which):
        t = self.nextx()
        if t is None:
            raise Skip('end')
        if t[0] == 'cs':
            m = self.eq.get(t[1])
            if m and m[0] == 'char':
                return m[which]
            return (256, 16)[which - 1]
        return t[which]

    def x_if(self):
        self.conds.append('test')
        a, b = self.charcode(1), self.charcode(1)
        self.endtest()
        self.branch(a == b)

    def x_ifcat(self):
        self.conds.append('test')
        a, b = self.charcode(2), self.charcode(2)
        self.endtest()
        self.branch(a == b)

    def x_else(self):
        if not self.conds or self.conds[-1] not in ('then', 'or'):
            raise Skip('extra else')
        while self.skip(()) != 'fi':
            pass
        self.conds.pop()

    def x_or(self):
        if not self.conds or self.conds[-1] != 'or':
            raise Skip('extra or')
        while self.skip(()) != 'fi':
            pass
        self.conds.pop()

    def x_fi(self):
        if not self.conds or self.conds[-1] == 'test':
            raise Skip('extra fi')
        self.conds.pop()

    # ---- quantities ------------------------------------------------------

    def signs(self):
        s = 1
        while True:
            t = self.nextx()
            if t is None:
                raise Skip('number')
            if t[0] == 'ch' and t[2] == SPACE:
                continue
            if t[0] == 'ch' and t[2] == OTHER and t[1] in '+-':
                s = -s if t[1] == '-' else s
                continue
            return s, t

    def onespace(self):
        t = self.nextx()
        if t is not None and not (t[0] == 'ch' and t[2] == SPACE):
            self.push([t])

    def digits(self, t, base):
        n = 0
        found = False
        D = '0123456789ABCDEF'[:base]
        while t is not None and t[0] == 'ch' and t[1] in D and t[2] in (OTHER, LETTER) and (t[2] == OTHER or t[1] > '9'):
            n = n * base + D.index(t[1])
            found = True
            t = self.nextx()
        if not found:
            raise Skip('digits')
        if t is not None and not (t[0] == 'ch' and t[2] == SPACE):
            self.push([t])
        return n

    def integer(self):
        s, t = self.signs()
        if t[0] == 'cs':
            m = self.eq.get(t[1])
            if m and m[0] == 'chardef':
                return s * m[1]
            if m and m[0] == 'count':
                return s * self.regs.get(m[1], 0)
            if m == ('prim', 'value'):
                n = self.name()
                if n not in self.counters:
                    raise Skip('no counter')
                return s * self.counters[n]
            raise Skip('number')
        if t[2] != OTHER:
            raise Skip('number')
        if t[1] == "'":
            return s * self.digits(self.nextx(), 8)
        if t[1] == '"':
            return s * self.digits(self.nextx(), 16)
        if t[1] == '`':
            c = self.need()
            if c[0] == 'cs' and len(c[1]) > 1:
                raise Skip('alphabetic constant')
            self.onespace()
            return s * ord(c[1])
        return s * self.digits(t, 10)

    UNITS = {'pt': Q(1), 'pc': Q(12), 'in': Q(7227, 100), 'bp': Q(7227, 7200), 'cm': Q(7227, 254), 'mm': Q(7227, 2540),
             'dd': Q(1238, 1157), 'cc': Q(14856, 1157), 'sp': Q(1, 65536)}

    def dimen(self):
        s, t = self.signs()
        if t[0] == 'cs':
            m = self.eq.get(t[1])
            if m and m[0] == 'dimen':
                return s * self.regs.get(m[1], 0)
            raise Skip('dimen')
        txt = ''
        while t is not None and t[0] == 'ch' and t[1] in '0123456789.,':
            txt += '.' if t[1] == ',' else t[1]
            t = self.nextx()
        if txt.count('.') > 1 or not txt:
            raise Skip('dimen')
        if t is not None and t[0] == 'cs':
            m = self.eq.get(t[1])
            if m and m[0] == 'dimen':
                return s * Q(txt if txt != '.' else '0') * self.regs.get(m[1], 0)
        u = ''
        while len(u) < 2:
            if t is None or t[0] != 'ch':
                raise Skip('unit')
            if t[2] != SPACE or u:
                u += t[1]
            if len(u) < 2:
                t = self.nextx()
        if u.lower() not in self.UNITS:
            raise Skip('unit')
        self.onespace()
        return s * Q('0' + txt if txt != '.' else '0') * self.UNITS[u.lower()]

    # ---- the stomach -------------------------------------------------------

    def name(self):
        """a braced (or single token) name, fully expanded"""
        toks = self.undelimited()
        self.push(toks + [CS('\0stop')])
        s = ''
        while True:
            t = self.next()
            if t == CS('\0stop'):
                return s
            if self.expandable(t):
                self.expand(t)
                continue
            if t[0] != 'ch':
                raise Skip('name')
            s += t[1]

    def csname(self):
        """a control sequence argument, bare or in braces"""
        toks = [t for t in self.undelimited() if not (t[0] == 'ch' and t[2] == SPACE)]
        if len(toks) != 1 or toks[0][0] != 'cs':
            raise Skip('control sequence expected')
        return toks[0][1]

    def optional(self):
        t = self.next()
        while t is not None and t[0] == 'ch' and t[2] == SPACE:
            t = self.next()
        if t == ('ch', '[', OTHER):
            return self.delimited([('ch', ']', OTHER)])
        if t is not None:
            self.push([t])
        return None

    def star(self):
        t = self.next()
        while t is not None and t[0] == 'ch' and t[2] == SPACE:
            t = self.next()
        if t != ('ch', '*', OTHER) and t is not None:
            self.push([t])
            return False
        return True

    @staticmethod
    def compile(toks, n):
        """replace #k by parameter references, ## by #"""
        out = []
        it = iter(toks)
        for t in it:
            if t[0] == 'ch' and t[2] == PARAM:
                d = next(it, None)
                if d is None:
                    raise Skip('# at end')
                if d[0] == 'ch' and d[2] == PARAM:
                    out.append(d)
                elif d[0] == 'ch' and d[1] in '123456789' and d[1] and int(d[1]) <= n:
                    out.append(('par#', int(d[1])))
                else:
                    raise Skip('illegal parameter')
            else:
                out.append(t)
        return tuple(out)

    def s_def(self, glob, expand=False, long=False):
        t = self.need()
        while t[0] == 'ch' and t[2] == SPACE:
            t = self.need()
        if t[0] != 'cs':
            raise Skip('def')
        params, n = [], 0
        brace = False
        while True:
            p = self.need()
            if p[0] == 'ch' and p[2] == BG:
                break
            if p[0] == 'ch' and p[2] == EG:
                raise Skip('def')
            if p[0] == 'ch' and p[2] == PARAM:
                d = self.need()
                if d[0] == 'ch' and d[2] == BG:
                    params.append(d)
                    brace = True
                    break
                n += 1
                if d != ('ch', str(n), OTHER):
                    raise Skip('parameters in order')
                params.append(('par#', n))
            else:
                params.append(p)
        body = self.xgroup() if expand else self.group()
        body = self.compile(body, n)
        if brace:
            body += (('ch', '{', BG),)
        self.define(t[1], ('macro', tuple(params), body, long), glob)

    def xgroup(self):
        out, level = [], 1
        while True:
            t = self.need()
            if t[0] == 'cs' and self.eq.get(t[1]) == ('prim', 'noexpand'):
                out.append(self.need())
                continue
            if t[0] == 'cs' and self.expandable(t):
                self.expand(t)
                continue
            if t[0] == 'ch' and t[2] == BG:
                level += 1
            elif t[0] == 'ch' and t[2] == EG:
                level -= 1
                if level == 0:
                    return out
            out.append(t)

    def s_let(self, glob):
        t = self.need()
        while t[0] == 'ch' and t[2] == SPACE:
            t = self.need()
        if t[0] != 'cs':
            raise Skip('let')
        v = self.need()
        while v[0] == 'ch' and v[2] == SPACE:
            v = self.need()
        if v == ('ch', '=', OTHER):
            v = self.need()
            if v[0] == 'ch' and v[2] == SPACE:
                v = self.need()
        m = self.meaning(v)
        if m is None:
            raise Skip('let to undefined')
        if m[0] == 'newif':
            m = ('prim', 'iftrue' if self.regs['sw:' + m[1]] else 'iffalse')
        self.define(t[1], m, glob)

    def newcommand(self, how):
        starred = self.star()
        name = self.csname()
        n = self.optional()
        nargs = 0 if n is None else int(''.join(t[1] for t in n) or 0)
        opt = self.optional()
        body = self.undelimited()
        have = self.eq.get(name) not in (None, ('prim', 'relax'))
        if how == 'newcommand' and have:
            raise Skip('already defined')
        if how == 'renewcommand' and not have:
            raise Skip('not defined')
        if name in PRIMS:
            raise Skip('primitive redefined')
        body = self.compile(body, nargs)
        if how == 'providecommand' and have:
            return
        self.define(name, ('nc', (nargs, tuple(opt or ())), body, opt is not None, not starred))

    def newenvironment(self, how):
        self.star()
        name = self.name()
        n = self.optional()
        nargs = 0 if n is None else int(''.join(t[1] for t in n) or 0)
        opt = self.optional()
        a, b = self.undelimited(), self.undelimited()
        have = name in self.eq
        if have != (how == 'renewenvironment'):
            raise Skip('environment')
        self.define(name, ('nc', (nargs, tuple(opt or ())), self.compile(a, nargs), opt is not None))
        self.define('end' + name, ('nc', (0, ()), self.compile(b, 0), False))

    def begin(self):
        n = self.name()
        self.opengroup('env:' + n)
        if n not in self.eq and n not in self.BUILTIN_ENVS:
            raise Skip('no environment')
        if n in self.BUILTIN_ENVS:
            inmath = any(k[0].startswith('math') or k[0] in self.MATH_ENVS for k in self.saves[:-1])
            if n == 'array' and not inmath:
                raise Skip('math')
            if 'env:' + n in self.MATH_ENVS and inmath:
                raise Skip('math')
            if n == 'minipage':
                self.undelimited()
            if n in ('tabular', 'array'):
                self.optional()
                self.undelimited()
                self.opengroup('cell')
        elif n in self.eq:
            self.push([CS(n)])

    BUILTIN_ENVS = ('center', 'quote', 'flushleft', 'quotation', 'itemize', 'enumerate', 'minipage', 'tabular', 'array', 'equation', 'displaymath',
                    'math', 'small', 'bfseries', 'itshape', 'flushright')

    def end(self):
        n = self.name()
        if n in ('tabular', 'array'):
            self.closegroup('cell')
        self.push(([CS('end' + n)] if 'end' + n in self.eq and n not in self.BUILTIN_ENVS else []) + [('endenv', n)])

    def run(self):
        while True:
            t = self.next()
            if t is None:
                break
            if t[0] == 'endenv':
                self.closegroup('env:' + t[1])
                continue
            if t[0] == 'cs' and t[1].startswith('\0'):
                self.closegroup(t[1])
                continue
            if self.expandable(t):
                self.expand(t)
                continue
            self.execute(t, False)
        if self.saves or self.conds:
            raise Skip('unbalanced')
        return ''.join(self.out)

    def execute(self, t, glob, long=False):
        if t[0] == 'ch':
            m = ('char', t[1], t[2])
        else:
            m = self.eq[t[1]]
        k = m[0]
        if k == 'char':
            c = m[2]
            if glob:
                raise Skip('prefix')
            if c == BG:
                self.opengroup('brace')
            elif c == EG:
                self.closegroup('brace')
            elif c in (LETTER, OTHER):
                self.out.append(m[1])
            elif c == SPACE:
                pass
            elif c == MATH:
                if self.saves and self.saves[-1][0] == 'math':
                    self.closegroup('math')
                elif self.saves and self.saves[-1][0] == 'math$$':
                    if self.next() != ('ch', '$', MATH):
                        raise Skip('math')
                    self.closegroup('math$$')
                elif self.mathmode():
                    raise Skip('math')
                else:
                    t = self.need()
                    if t != ('ch', '$', MATH):
                        self.push([t])
                        self.opengroup('math')
                    elif any(k[0] == '\0box' for k in self.saves):
                        raise Skip('math')
                    else:
                        self.opengroup('math$$')
            elif c == ALIGN:
                if not self.saves or self.saves[-1][0] != 'cell':
                    raise Skip('alignment')
                self.closegroup('cell')
                self.opengroup('cell')
            elif c in (SUP, SUB):
                if not self.mathmode():
                    raise Skip('script')
                t = self.need()
                if t[0] != 'ch' or t[2] != BG:
                    raise Skip('script')
                self.push([t])
            else:
                raise Skip('character of category %d' % c)
            return
        if k == 'count':
            self.optequals()
            self.setreg(m[1], self.integer(), glob)
            return
        if k == 'dimen':
            self.optequals()
            self.setreg(m[1], self.dimen(), glob)
            return
        if k == 'setif':
            return self.setreg('sw:' + m[1], m[2], not self.localswitches)
        if k == 'chardef':
            self.out.append(chr(m[1]))
            return
        if k != 'prim':
            raise Skip(repr(m))
        n = m[1]
        if n == 'global' or n == 'long':
            x = self.nextx()
            while x is not None and (x == ('ch', ' ', SPACE)):
                x = self.nextx()
            if x is None:
                raise Skip('prefix')
            xm = self.meaning(x)
            if not xm or xm[0] not in ('prim', 'count', 'dimen') or (xm[0] == 'prim' and xm[1] not in (
                    'def', 'gdef', 'edef', 'xdef', 'let', 'catcode', 'global', 'long', 'advance', 'count')):
                raise Skip('prefix')
            return self.execute(x, glob or n == 'global', long or n == 'long')
        if n in ('def', 'gdef'):
            return self.s_def(glob or n == 'gdef', long=long)
        if n in ('edef', 'xdef'):
            return self.s_def(glob or n == 'xdef', True, long)
        if n == 'let':
            return self.s_let(glob)
        if glob:
            if n == 'catcode':
                pass
            else:
                raise Skip('prefix')
        if n == 'relax' or n == 'par':
            return
        if n in ('newcommand', 'renewcommand', 'providecommand'):
            return self.newcommand(n)
        if n in ('newenvironment', 'renewenvironment'):
            return self.newenvironment(n)
        if n == 'newif':
            name = self.csname()
            if not name.startswith('if') or self.eq.get(name) is not None:
                raise Skip('newif')
            # the switch commands of LaTeX are local assignments; plasTeX documents switches as global
            g = not self.localswitches
            self.define(name, ('newif', name), g)
            self.define(name[2:] + 'true', ('setif', name, True), g)
            self.define(name[2:] + 'false', ('setif', name, False), g)
            return self.setreg('sw:' + name, False, g)
        if n == 'begingroup':
            return self.opengroup('semi')
        if n == 'endgroup':
            return self.closegroup('semi')
        if n == 'begin':
            return self.begin()
        if n == 'end':
            return self.end()
        if n == 'catcode':
            c = self.integer()
            self.optequals()
            v = self.integer()
            if not 0 <= v < 16:
                raise Skip('catcode')
            return self.setcat(chr(c), v, glob)
        if n == 'newcounter':
            c = self.name()
            if c in self.counters:
                raise Skip('counter exists')
            self.counters[c] = 0
            self.optional()
            return
        if n in ('setcounter', 'addtocounter', 'stepcounter'):
            c = self.name()
            if c not in self.counters:
                raise Skip('no counter')
            if n == 'stepcounter':
                self.counters[c] += 1
                return
            toks = self.undelimited()
            self.push(toks + [CS('relax')])
            v = self.integer()
            if self.next() != CS('relax'):
                raise Skip('number')
            self.counters[c] = v + (self.counters[c] if n == 'addtocounter' else 0)
            return
        if n == 'newcount':
            return self.define(self.csname(), ('count', 'cnt%d' % len(self.regs)), True)
        if n == 'newlength':
            name = self.csname()
            return self.define(name, ('dimen', 'dim:' + name), True)
        if n == 'chardef':
            name = self.csname()
            self.optequals()
            return self.define(name, ('chardef', self.integer()))
        if n == 'makeatletter':
            return self.setcat('@', LETTER)
        if n == 'makeatother':
            return self.setcat('@', OTHER)
        if n in ('mbox', 'emph', 'textbf', 'textit', 'texttt', 'underline', 'footnote', 'fbox', 'centerline'):
            # argument material is typeset in a group of its own
            toks = self.undelimited()
            self.opengroup('\0box')
            self.push(list(toks) + [CS('\0box')])
            return
        if n in ('sqrt', 'frac'):
            if not self.mathmode():
                raise Skip('math')
            if n == 'sqrt':
                self.optional()
            args = [self.undelimited()] + ([self.undelimited()] if n == 'frac' else [])
            for a in reversed(args):
                self.push([('ch', '{', BG)] + list(a) + [('ch', '}', EG)])
            return
        if n in ('bfseries', 'itshape', 'small', 'large', 'ttfamily'):
            return
        if n == 'item':
            if not self.saves or self.saves[-1][0] not in ('env:itemize', 'env:enumerate'):
                raise Skip('item')
            self.optional()
            return
        if n in '()[]':
            kind = 'math' + ('()' if n in '()' else '[]')
            if n in '([':
                if self.mathmode() or (n == '[' and any(k[0] == '\0box' for k in self.saves)):
                    raise Skip('math')
                return self.opengroup(kind)
            return self.closegroup(kind)
        if n == '\\':
            if not self.saves or self.saves[-1][0] != 'cell':
                raise Skip('end of line')
            self.closegroup('cell')
            self.star()
            self.optional()
            return self.opengroup('cell')
        if n == 'hline':
            return
        raise Skip('primitive ' + n)

    def mathmode(self):
        for k in reversed(self.saves):
            if k[0] in ('\0box', 'env:tabular', 'env:minipage'):
                return False
            if k[0].startswith('math') or k[0] in self.MATH_ENVS:
                return True
        return False

    MATH_ENVS = ('env:equation', 'env:displaymath', 'env:math')

    def optequals(self):
        t = self.nextx()
        while t is not None and t[0] == 'ch' and t[2] == SPACE:
            t = self.nextx()
        if t is not None and t != ('ch', '=', OTHER):
            self.push([t])


EXPANDABLE = IFS | {'expandafter', 'csname', 'string', 'number', 'arabic', 'else', 'or', 'fi', 'noexpand', 'unless'}


def run(src, **kw):
    """visible text of a program, blanks removed"""
    return ''.join(Tex(src, **kw).run().split())

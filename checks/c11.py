r"""C11: verbatim text and mathematics pass through character for character.

Verbatim bodies are enumerated over alphabets of characters and over pieces of
end markers; formulas are enumerated as trees of a mathematical grammar, which
are written down twice: as the author writes them and with the macros of the
user expanded.  The tree's text content and its reconstructed source must agree
with them, character for character and token for token.
"""
import itertools
import re

from mc import plas
from mc.core import FnSpace, Violation

PROP = 'C11'
LEVEL = 'model_checking'
RULE = ('a state is a verbatim body with its delimiters and surroundings or an expanded formula; a transition is one character or one formula token; '
        'distinct_nontrivial counts distinct (surroundings, body) and (environment, formula) pairs')
ASSUMPTIONS = [
    'two sources agree if their TeX tokens are the same; blanks are ignored (except in control space), as the property says',
    '\\verb is not used in arguments (LaTeX forbids it), verbatim bodies have no blanks at the ends of lines (TeX removes them) except where noted',
    'the MathJax payload writes \\lt and \\gt for < and >',
    '\\( and \\) of formulas in text boxes may be reconstructed as $',
    'empty formulas are not generated; the braces \\verb{...} are not checked (LaTeX has no such form)',
    '\\ensuremath and mathematics made of unknown macros are not generated',
]

TOKEN = re.compile(r'\\[A-Za-z]+|\\.|\S', re.S)


def tokens(s):
    """TeX tokens of mathematics; blanks are dropped."""
    out = []
    for t in TOKEN.findall(s):
        if len(t) > 1 and t[1].isspace():
            t = '\\ '
        elif t in ('\\(', '\\)'):
            t = '$'                # formulas in text boxes are written with $
        out.append(t)
    return out


# ---- verbatim -----------------------------------------------------------------------

SPECIAL = 'a \\{}%$&#^_~\n-`\'<*'
PRINT = ''.join(chr(i) for i in range(32, 127)) + '\n'
PLACES = {
    'plain': ('', ''), 'text': ('before ', ''), 'quote': ('\\begin{quote}', '\\end{quote}'), 'item': ('\\begin{itemize}\\item ', '\\item zz\\end{itemize}'), 'group': ('{', '}'),
    'minipage': ('\\begin{minipage}{3cm}', '\\end{minipage}'), 'center': ('\\begin{center}', '\\end{center}'), 'bf': ('{\\bf x ', '}'), 'par': ('x\n\n', '\n\ny'), 'cond': ('\\iftrue ', '\\else y\\fi'),
    'cell': ('\\begin{tabular}{p{3cm}}', '\\end{tabular}'), 'document': ('\\documentclass{article}\\begin{document}\\section{x}', '\\end{document}'), 'letter': ('\\makeatletter ', '\\makeatother'),
    'active': ('\\catcode`\\!=13 \\def!{bang}', ''), 'escape': ('\\catcode`\\|=0 ', ''), 'comment': ('\\catcode`\\!=14 ', ''), 'obey': ('\\begin{verse}', '\\end{verse}'),
    'figure': ('\\begin{figure}', '\\caption{c}\\end{figure}'),
}
ENVS = {
    'verbatim': ('\\begin{verbatim}', '\\end{verbatim}', 'verbatim'), 'verbatim*': ('\\begin{verbatim*}', '\\end{verbatim*}', 'verbatim*'), 'command': ('\\verbatim ', '\\endverbatim ', 'verbatim'),
}
AFTER = 'qq--qq \\emph{rr} % c\n ss'


def judge_after(doc, src, want=1):
    e = doc.getElementsByTagName('emph')
    if len(e) != want or e[0].textContent != 'rr':
        return Violation('text behind the verbatim material is not processed: %r\n%r' % ([x.textContent for x in e], src), kind='after')
    t = ''.join(doc.textContent.split())
    if 'rrss' not in t or not re.search('qq(--|\u2013)qqrr', t) or '%' in t.split('rr')[-1]:
        return Violation('text behind the verbatim material is wrong: %r\n%r' % (doc.textContent, src), kind='after')
    return None


def run_verbatim(case, cx):
    b, e, name = ENVS[case['env']]
    p, q = PLACES[case['place']]
    for body in bodies(case):
        if e.strip() in body or case['env'] == 'command' and (body[:1] == '\n' or body[:1] == ' ' or '\\endverbatim' in body):
            continue
        src = p + b + body + e + AFTER + q
        try:
            doc = plas.parse(src)
        except Exception as ex:
            return Violation('parsing raised %s: %s\n%r' % (type(ex).__name__, ex, src), kind='raise')
        v = doc.getElementsByTagName(name)
        if len(v) != 1:
            return Violation('%d %s environments\n%r' % (len(v), name, src), kind='count')
        got = v[0].textContent
        if case['env'] == 'command' and got[:1] == ' ':
            got = got[1:]          # the blank behind the macro name
        if got != body:
            return Violation('content %r, expected %r\n%r' % (got, body, src), kind='body')
        r = judge_after(doc, src)
        if r:
            return r
        cx.state((case['place'], case['env'], body))
        cx.trans(len(body) + 1)
        cx.trace()
        cx.outcome((case['place'], case['env'], body))
    return None


def bodies(case):
    if 'body' in case:
        return [case['body']]
    alpha = case['alpha']
    return (case['first'] + ''.join(t) for n in range(case['n'] + 1) for t in itertools.product(alpha, repeat=n))


PIECES = ['\\end', '{verbatim', '}', '\\begin{verbatim}', '\\end{verbatim*}', '\\endverbatim', '\\end{verb', ' ', '\n', '\\end{verbatim\n', '\\end {verbatim}', 'x', '^^M', '^^5c', '%', '\\verb|', '--', '\\end{Verbatim}', '\\', '\\item', '&', '$']


def verb_cases(tier):
    q = tier == 'quick'
    yield dict(env='verbatim', place='plain', first='', alpha='', n=0)
    for c in SPECIAL:
        for d in SPECIAL:
            yield dict(env='verbatim', place='plain', first=c + d, alpha=SPECIAL, n=1 if q else 2)
    for c in PRINT:
        for env in ENVS:
            yield dict(env=env, place='plain', first=c, alpha=PRINT if not q or env == 'verbatim' else SPECIAL, n=1)
    for p in sorted(PLACES):
        for env in ENVS:
            for c in SPECIAL:
                yield dict(env=env, place=p, first=c, alpha=SPECIAL if env != 'command' else 'a', n=1)
    for n in (1, 2, 3):
        for t in itertools.product(range(len(PIECES)), repeat=n):
            if q and n == 3 and (t[0] + 3 * t[1] + 7 * t[2]) % 5:
                continue
            body = ''.join(PIECES[i] for i in t)
            for env in ('verbatim', 'verbatim*') if n < 3 else ('verbatim',):
                yield dict(env=env, place='plain', body=body)


DELIMS = [c for c in PRINT if not c.isalnum() and not c.isspace() and c not in '*{}']


def cmd_cases(tier):
    q = tier == 'quick'
    spec = SPECIAL.replace('\n', '')
    for d in DELIMS:
        for s in ('', '*'):
            for c in PRINT[:-1]:
                yield dict(delim=d, star=s, place='plain', first=c, alpha='', n=0)
            for p in sorted(PLACES):
                if q and d not in '|+#%' and p not in ('text', 'cell'):
                    continue
                yield dict(delim=d, star=s, place=p, first='', alpha='a%\\ {}&$^~-', n=1)
        for c in spec:
            yield dict(delim=d, star='', place='plain', first=c, alpha=spec, n=1 if q else 2)
    for c in spec:
        yield dict(delim='|', star='', place='text', first=c, alpha=spec, n=2)
    for c in PRINT[:-1]:
        for d in '+' if q else '|+!':
            yield dict(delim=d, star='', place='plain', first=c, alpha=PRINT[:-1], n=1)


def run_cmd(case, cx):
    p, q = PLACES[case['place']]
    d = case['delim']
    if case['place'] in ('active', 'comment', 'escape') and d in '!|':
        return None
    for body in bodies(case):
        if d in body or d == '^' and not body and not case['star'] or d == '@' and case['place'] == 'letter':
            continue               # ^^q is a single character; \verb@ is one name
        src = p + '\\verb%s%s%s%s' % (case['star'], d, body, d) + AFTER + q
        try:
            doc = plas.parse(src)
        except Exception as ex:
            return Violation('parsing raised %s: %s\n%r' % (type(ex).__name__, ex, src), kind='raise')
        v = doc.getElementsByTagName('verb')
        if len(v) != 1:
            return Violation('%d \\verb\n%r' % (len(v), src), kind='count')
        got = v[0].textContent
        if got != body:
            return Violation('content %r, expected %r\n%r' % (got, body, src), kind='body')
        if v[0].source != '\\verb%s%s%s%s' % (case['star'], d, body, d):
            return Violation('source %r\n%r' % (v[0].source, src), kind='source')
        r = judge_after(doc, src)
        if r:
            return r
        cx.state((case['place'], case['star'], d, body))
        cx.trans(len(body) + 1)
        cx.trace()
        cx.outcome((case['place'], case['star'], d, body))
    return None


def seq_cases(tier):
    parts = ['\\verb|a%b|', '\\verb*+\\x +', '\\begin{verbatim}\n--{ \n\\end{verbatim}', '\\verb"$"', '$x$', 'a--b', '\\emph{z}', '``c\'\'', '\n\n']
    for n in (2, 3) if tier == 'quick' else (2, 3, 4):
        for t in itertools.product(range(len(parts)), repeat=n):
            yield dict(parts=[parts[i] for i in t])


def run_seq(case, cx):
    want, src = [], ''
    for p in case['parts']:
        src += p
        if p.startswith('\\verb'):
            want.append(re.match(r'\\verb\*?(.)(.*)\1$', p).group(2))
        elif p.startswith('\\begin'):
            want.append(p[16:-14])
    doc = plas.parse('\\documentclass{article}\\begin{document}' + src + '\n\n\\end{document}')
    got = []

    def walk(n):
        for c in n.childNodes or []:
            if c.nodeType == 1:
                if c.nodeName in ('verb', 'verbatim'):
                    got.append(c.textContent)
                else:
                    walk(c)
    walk(doc)
    cx.trans(len(case['parts']))
    cx.trace()
    cx.state(tuple(case['parts']))
    cx.outcome(tuple(case['parts']))
    if got != want:
        return Violation('verbatim material %r, expected %r\n%r' % (got, want, src), kind='seq')
    return None


# ---- formulas -----------------------------------------------------------------------

# An operator is a pair of format strings (written, expanded) with %s for every
# argument; arguments marked with %a must be single tokens or groups.

ATOMS = ['x', 'X', '12', '+', '<', '>', '=', ',', '(', '\\alpha ', '\\le ', "f'", '\\,', '\\{', '\\}', '\\|', '~', '\\ ', '\\quad ', '\\ldots ', '\\sin ', '\\%', '\\#', '\\_', '\\&', '\\$', '\\infty ', '\\to ', '--', '``', '/', '[', ']', '*', '-', '\\!', '\\;', '\\:',
         "x''", '\\cdots ', '\\prime ', '\\hbar ', '\\Gamma ', '\\int ', '\\sum ', '\\langle ', '\\big(', '\\not= ', '\\colon ', '!', '?', '"', '@', '|', ';', '.', '\\backslash ', '\\emptyset ', '\\bmod ', '\\lim ', '\\ell ', '\\partial ', '\\nabla ', '\\neq ', '\\in ', '\\notin ', '\\cup ',
         '\\S ', '\\dots ', '\\vdots ', '\\ddots ', '\\displaystyle ', '\\textstyle ', '\\thinspace ', '\\negthinspace ', '\\hspace{3mm}', '\\mskip3mu ', '\\hskip 3pt ', '\\kern2pt ', '\\lbrace ', '\\vert ', '\\Vert ', '\\relax ', '\\/', '\\-', '\\par '[:0] + '\\oplus ', '{}', '\\null ', '\\-']
R = {'\\R ': '\\mathbf{R}', '\\fooo ': '\\frac{a}{b}', '\\nn ': 'n_1', '\\empt ': '', '\\let ': ''}

OPS = {
    'sup': ('x^%s', 1, 'a'), 'supg': ('x^{%s}', 1), 'sub': ('x_%s', 1, 'a'), 'subg': ('x_{%s}', 1), 'subsup': ('x_{%s}^{%s}', 2), 'supsub': ('x^{%s}_{%s}', 2), 'primesup': ("x'^{%s}", 1), 'emptysup': ('{}^{%s}x', 1), 'emptysub': ('_{%s}', 1),
    'frac': ('\\frac{%s}{%s}', 2), 'fracs': ('\\frac %s%s', 2, 'a'), 'frac1': ('\\frac%s{%s}', 2, 'b'), 'over': ('{%s\\over %s}', 2), 'choose': ('{%s\\choose %s}', 2), 'atop': ('{%s\\atop %s}', 2), 'sqrt': ('\\sqrt{%s}', 1), 'sqrts': ('\\sqrt %s', 1, 'a'), 'sqrtn': ('\\sqrt[3]{%s}', 1), 'sqrtnn': ('\\sqrt[{%s}]{%s}', 2),
    'paren': ('\\left(%s\\right)', 1), 'brace': ('\\left\\{%s\\right.', 1), 'bar': ('\\left.%s\\right|', 1), 'angle': ('\\left\\langle %s\\right\\rangle ', 1), 'brack': ('\\left[%s\\right]', 1), 'group': ('{%s}', 1), 'bf': ('{\\bf %s}', 1), 'it': ('{\\it %s}', 1), 'rm': ('\\rm %s', 1),
    'mathrm': ('\\mathrm{%s}', 1), 'mathbf': ('\\mathbf{%s}', 1), 'mathcal': ('\\mathcal %s', 1, 'a'), 'cal': ('{\\cal %s}', 1), 'mathbb': ('\\mathbb{%s}', 1), 'hat': ('\\hat{%s}', 1), 'hats': ('\\hat %s', 1, 'a'), 'vec': ('\\vec{%s}', 1), 'bar2': ('\\bar %s', 1, 'a'), 'overline': ('\\overline{%s}', 1), 'widetilde': ('\\widetilde{%s}', 1),
    'underbrace': ('\\underbrace{%s}_{%s}', 2), 'overbrace': ('\\overbrace{%s}^{%s}', 2), 'sum': ('\\sum_{%s}^{%s}', 2), 'limits': ('\\sum\\limits_{%s}', 1), 'int': ('\\int\\nolimits_%s', 1, 'a'), 'stackrel': ('\\stackrel{%s}{%s}', 2), 'mathop': ('\\mathop{%s}', 1), 'mathrel': ('\\mathrel{%s}', 1),
    'mbox': ('\\mbox{if $%s$ and}', 1), 'mboxt': ('\\mbox{for all}%s', 1), 'textrm': ('\\textrm{if $%s$}', 1), 'textbf': ('\\textbf{x}%s', 1), 'fbox': ('\\fbox{$%s$}', 1), 'hbox': ('\\hbox{ a $%s$}', 1), 'mboxp': ('\\mbox{a\\(%s\\)}', 1), 'textit': ('\\textit{if}%s', 1),
    'array': ('\\begin{array}{cc}%s&%s\\\\c&d\\end{array}', 2), 'array1': ('\\begin{array}{l}%s\\end{array}', 1), 'arrayp': ('\\begin{array}[t]{r|l}%s&\\\\&%s\\\\\\end{array}', 2), 'arrayl': ('\\left(\\begin{array}{c}%s\\\\[2pt]%s\\end{array}\\right)', 2), 'hline': ('\\begin{array}{c}\\hline %s\\\\\\hline\\end{array}', 1),
    'multicol': ('\\begin{array}{cc}\\multicolumn{2}{c}{%s}\\\\%s&\\end{array}', 2), 'pmod': ('\\pmod{%s}', 1), 'phantom': ('\\phantom{%s}', 1), 'underline': ('\\underline{%s}', 1), 'ds': ('{\\displaystyle %s}', 1), 'vphantom': ('\\vphantom{%s}x', 1), 'big': ('\\Big(%s\\Big)', 1), 'bigl': ('\\bigl\\{%s\\bigr\\}', 1), 'tt': ('\\mathtt{%s}', 1), 'not': ('\\not %s', 1, 'a'),
    'mm': ('\\mm{%s}', 1, '', '%s'), 'mms': ('\\mm %s', 1, 'ax', '%s'), 'pair': ('\\pair{%s}{%s}', 2, '', '\\left(%s,%s\\right)'), 'opt': ('\\opt[%s]{x}', 1, '', 'x_{%s}'), 'opt0': ('\\opt{%s}', 1, '', '%s_{n}'), 'sq': ('\\sq{%s}', 1, '', '{%s}^2'), 'fr': ('\\fr{%s}{%s}', 2, '', '\\frac{%s}{%s}'), 'half': ('\\half %s', 1, '', '\\frac12 %s'),
    'dlm': ('\\dlm(%s)', 1, '', '\\langle %s\\rangle '), 'env': ('\\begin{wrap}%s\\end{wrap}', 1, '', '{\\left(%s\\right)}'), 'twice': ('\\twice{%s}', 1, '', '%s+%s'), 'lmac': ('\\lm{%s}', 1, '', '\\mathbf{%s}'), 'arrm': ('\\mat{%s&b\\\\c&%s}', 2, '', '\\left(\\begin{array}{cc}%s&b\\\\c&%s\\end{array}\\right)'), 'edge': ('\\edge %s', 1, '', '\\longrightarrow %s'),
}
PRE = ('\\newcommand{\\mm}[1]{#1}\\newcommand{\\pair}[2]{\\left(#1,#2\\right)}\\newcommand{\\opt}[2][n]{#2_{#1}}\\newcommand{\\sq}[1]{{#1}^2}\\newcommand{\\fr}[2]{\\frac{#1}{#2}}\\newcommand{\\half}{\\frac12}'
       '\\def\\dlm(#1){\\langle #1\\rangle }\\newenvironment{wrap}{\\left(}{\\right)}\\newcommand{\\twice}[1]{#1+#1}\\let\\lm\\mathbf\\newcommand{\\mat}[1]{\\left(\\begin{array}{cc}#1\\end{array}\\right)}\\newcommand{\\R}{\\mathbf{R}}\\newcommand{\\nn}{n_1}\\newcommand{\\empt}{}\\def\\edge{\\longrightarrow }'
       '\\newcommand{\\lrang}[1]{\\langle#1\\rangle}')
AMS = {
    'text': ('\\text{if $%s$}', 1), 'operatorname': ('\\operatorname{rk}%s', 1), 'binom': ('\\binom{%s}{%s}', 2), 'dfrac': ('\\dfrac{%s}{%s}', 2), 'tfrac': ('\\tfrac12%s', 1), 'pmatrix': ('\\begin{pmatrix}%s&%s\\\\c&d\\end{pmatrix}', 2), 'cases': ('\\begin{cases}%s&\\text{if }x\\\\%s\\end{cases}', 2),
    'matrix': ('\\begin{matrix}%s\\end{matrix}', 1), 'bmatrix': ('\\begin{bmatrix}%s\\\\%s\\end{bmatrix}', 2), 'mathfrak': ('\\mathfrak{%s}', 1), 'boldsymbol': ('\\boldsymbol{%s}', 1), 'overset': ('\\overset{%s}{%s}', 2), 'xrightarrow': ('\\xrightarrow{%s}', 1), 'substack': ('\\sum_{\\substack{%s\\\\%s}}', 2), 'boxed': ('\\boxed{%s}', 1),
    'smallmatrix': ('\\begin{smallmatrix}%s&b\\end{smallmatrix}', 1), 'tag': ('%s', 1), 'eqtext': ('x\\quad\\text{and}\\quad %s', 1), 'aligned': ('\\begin{aligned}%s&=1\\\\&=%s\\end{aligned}', 2), 'iint': ('\\iint_{%s}', 1), 'mod': ('\\mod %s', 1), 'underset': ('\\underset{%s}{x}', 1), 'cfrac': ('\\cfrac{1}{%s}', 1), 'lvert': ('\\lvert %s\\rvert ', 1),
}


def fill(f, args):
    out, i = '', 0
    parts = f.split('%s')
    for k, p in enumerate(parts[:-1]):
        out += p + args[i % len(args)]
        i += 1
    return out + parts[-1]


def single(s, digit=True):
    """Can this be an argument without braces?"""
    t = tokens(s)
    if len(t) == 1:
        return t[0] not in ('{', '}', '^', '_', '&', '$', '~', '\\ ', "'") and t[0] not in NOARG
    return s.startswith('{') and s.endswith('}') and s[1:-1].count('{') == s[1:-1].count('}') and depth_ok(s)


NOARG = ('\\hspace', '\\mskip', '\\hskip', '\\kern', '\\big', '\\not', '\\left', '\\right', '\\sum', '\\displaystyle', '\\textstyle', '\\relax', '\\int', '\\mathbf', '\\rm')


def depth_ok(s):
    d = 0
    for i, t in enumerate(tokens(s)):
        d += (t == '{') - (t == '}')
        if d == 0 and i < len(tokens(s)) - 1:
            return False
    return True


def apply(name, args):
    """(written, expanded) of an operator applied to such pairs, or None."""
    op = OPS.get(name) or AMS[name]
    f, n = op[0], op[1]
    flag = op[2] if len(op) > 2 else ''
    g = op[3] if len(op) > 3 else f
    if 'a' in flag and not all(single(a[0]) for a in args) or 'b' in flag and not single(args[0][0]):
        return None
    if name in ('sup', 'sub', 'int') and any(tokens(a[0])[0].startswith('\\') and len(tokens(a[0])) == 1 and a[0] != a[1] for a in args):
        return None
    if 'a' in flag and any(a[0] != a[1] and not a[0].startswith('{') for a in args):
        return None
    if any(not tokens(a[1]) for a in args) and ('$%s$' in f or '\\(%s' in f):
        return None                # empty formulas
    if '\\\\%s' in f and args[-1][0][0] in '[*' or name == 'opt' and args[0][0][0] == '{':
        return None                # arguments of \\; braces that only delimit the argument
    if name == 'hline' and not tokens(args[0][1]):
        return None                # an array without rows
    if name == 'dlm' and args[0][0][0] == '{' and depth_ok(args[0][0]):
        return None                # braces around a whole delimited argument are dropped
    if name == 'sqrts' and args[0][0] == '[':
        return None
    if 'b' in flag and args[0][0] != args[0][1]:
        return None
    if name in ('sqrtnn', 'opt') and '[' in args[0][0] or name == 'dlm' and (')' in args[0][0]) or name in ('arrm',) and any('&' in a[0].replace('\\&', '') for a in args) and False:
        return None
    if name == 'opt' and ']' in args[0][0] or name == 'sqrtnn' and ']' in args[0][0]:
        return None
    if 'x' in flag:                # the braces of the argument of a user macro
        args = [(a[0], a[1][1:-1] if a[0].startswith('{') else a[1]) for a in args]
    return fill(f, [a[0] for a in args]), fill(g, [a[1] for a in args])


ATOMP = [(a, a) for a in ATOMS] + [('\\R ', '\\mathbf{R}'), ('\\nn ', 'n_1'), ('\\empt ', '')]
SMALL = [('x', 'x'), ('a<b', 'a<b'), ('\\alpha ', '\\alpha '), ('\\nn ', 'n_1'), ('{y}', '{y}')]

WRAP = {
    'dollar': ('$%s$', 'math'), 'paren': ('\\(%s\\)', 'math'), 'bracket': ('\\[%s\\]', 'displaymath'), 'ddollar': ('$$%s$$', 'displaymath'), 'equation': ('\\begin{equation}%s\\end{equation}', 'equation'), 'math': ('\\begin{math}%s\\end{math}', 'math'), 'displaymath': ('\\begin{displaymath}%s\\end{displaymath}', 'displaymath'),
    'emph': ('\\emph{a $%s$ b}', 'math'), 'section': ('\\section{A $%s$}', 'math'), 'footnote': ('x\\footnote{f $%s$}', 'math'), 'cell': ('\\begin{tabular}{cc}a&$%s$\\\\\\end{tabular}', 'math'), 'item': ('\\begin{itemize}\\item $%s$\\end{itemize}', 'math'), 'term': ('\\begin{description}\\item[{$%s$}] x\\end{description}', 'math'),
    'macro': ('\\mm{b $%s$}', 'math'), 'caption': ('\\begin{figure}\\caption{C $%s$}\\end{figure}', 'math'), 'group': ('{\\bf $%s$}', 'math'), 'mboxeq': ('\\mbox{$%s$}', 'math'), 'quote': ('\\begin{quote}\\[%s\\]\\end{quote}', 'displaymath'), 'two': ('$a$ $%s$', 'math'), 'par': ('x\n\n$%s$\n\ny', 'math'),
    'eqlabel': ('\\begin{equation}\\label{l}%s\\end{equation}', 'equation'), 'parbox': ('\\parbox{2cm}{x \\(%s\\)}', 'math'),
}
AWRAP = {
    'equation*': ('\\begin{equation*}%s\\end{equation*}', 'equation*'), 'gather': ('\\begin{gather}%s\\end{gather}', 'gather'), 'align': ('\\begin{align}%s&=1\\end{align}', 'align'), 'align*': ('\\begin{align*}a&=%s\\\\b&=%s\\end{align*}', 'align*'), 'multline': ('\\begin{multline}%s\\\\b\\end{multline}', 'multline'), 'alignat': ('\\begin{alignat}{2}%s&=1\\end{alignat}', 'alignat'),
    'eqnarray*': ('\\begin{eqnarray*}a&=&%s\\end{eqnarray*}', 'eqnarray*'), 'split': ('\\begin{equation}\\begin{split}a&=%s\\\\&=b\\end{split}\\end{equation}', 'equation'), 'eqnarray': ('\\begin{eqnarray}a&=&%s\\\\ %s&=&b\\end{eqnarray}', 'eqnarray'), 'dollar': WRAP['dollar'], 'bracket': WRAP['bracket'],
}


def strip_delims(src, name):
    """The body of a reconstructed formula."""
    if name == 'math':
        if src[:1] == '$' and src[-1:] == '$':
            return src[1:-1]
    elif name == 'displaymath':
        if src[:2] == '\\[' and src[-2:] == '\\]':
            return src[2:-2]
    b, e = '\\begin{%s}' % name, '\\end{%s}' % name
    if src.startswith(b) and src.endswith(e):
        return src[len(b):-len(e)]
    return None


def run_formula(case, cx):
    wraps = dict(WRAP, **AWRAP) if case.get('ams') else WRAP
    found = None
    for wrap in case['wraps']:
        f, name = wraps[wrap]
        todo = [x for x in formulas(case) if tokens(x[1])]      # not the empty ones
        while todo:
            # Several formulas share a document; they are separated when
            # something is wrong with it
            chunk, todo = todo[:12], todo[12:]
            v = judge(chunk, wrap, f, name, case)
            if v and len(chunk) > 1:
                for x in chunk:
                    w = judge([x], wrap, f, name, case)
                    if w:
                        w.case = dict(case, formula=list(x), wraps=[wrap])
                        if w.finding is None:
                            return w
                        v = w
                if v.case is None:
                    v.case = dict(case, chunk=chunk, wraps=[wrap])
            elif v:
                v.case = dict(case, formula=list(chunk[0]), wraps=[wrap])
            if v and v.finding is None:
                return v
            found = found or v
            for wr, ex in chunk:
                cx.trans(len(tokens(ex)))
                cx.trace()
                cx.state((wrap, ex))
                cx.outcome((wrap, wr))
    return found


def judge(chunk, wrap, f, name, case):
    """The document of these formulas."""
    src = ' zz '.join(fill(f, [wr]) for wr, ex in chunk)
    if case.get('ams'):
        src = '\\documentclass{article}\\usepackage{amsmath,amssymb}' + PRE + '\\begin{document}' + src + ' zz\\end{document}'
    else:
        src = PRE + src + ' zz'
    try:
        doc = plas.parse(src)
        nodes = find(doc, name)
    except Exception as e:
        return Violation('parsing raised %s: %s\n%s' % (type(e).__name__, e, src), kind='raise:' + str(e)[:30])
    m = 2 if wrap == 'two' else 1
    if len(nodes) != m * len(chunk):
        return Violation('%d %s in the document\n%s' % (len(nodes), name, src), kind='count')
    found = None
    for (wr, ex), node in zip(chunk, nodes[m - 1::m]):
        v = one(node, src, f, name, ex)
        if v and v.finding is None:
            return v
        found = found or v
    return found


def find(doc, name):
    """The formulas of that kind that are not inside other ones."""
    out = []

    def walk(n, inside):
        for c in list((n.attributes or {}).values() if n.nodeType == 1 else []) + list(n.childNodes or []):
            if not hasattr(c, 'nodeType') or c.nodeType == 3:
                continue
            if c.nodeType == 1 and c.nodeName == name:
                if not any(c is x for x in out):
                    out.append(c)
                continue
            if c.nodeType in (1, 11):
                walk(c, inside)
    walk(doc, False)
    return out


CELLS = re.compile(r'\\begin\{(array|eqnarray\*?|align\*?|alignat|gather|multline|split|[pb]?matrix|smallmatrix|cases|aligned)\}')


def unquote(s):
    for a, b in (('\u201c', '``'), ('\u201d', "''"), ('\u2018', '`'), ('\u2019', "'"), ('\u2014', '---'), ('\u2013', '--'), ('\u201e', ',,')):
        s = s.replace(a, b)
    return s


def one(node, src, f, name, ex):
    try:
        got = node.source
        js = node.mathjax_source
    except Exception as e:
        return Violation('source raised %s: %s\n%s' % (type(e).__name__, e, src), kind='raise:' + str(e)[:30])
    if name == 'math' or name == 'displaymath':
        want = ex
    else:
        b = '\\begin{%s}' % name
        k = f.find(b)
        want = fill(f[k + len(b):f.rfind('\\end{%s}' % name)], [ex])
    body = strip_delims(got, name)
    if body is None:
        return Violation('source %r is not a %s\n%s' % (got, name, src), kind='delims')
    if tokens(body) != tokens(want):
        if tokens(body) == tokens(want.replace('\\hskip 3pt', '\\hskip3.0pt')):
            return Violation('the dimension of \\hskip is rewritten in the source %r\n%s' % (body, src), finding='hskip-dimension')
        if CELLS.search(src) and tokens(unquote(body)) == tokens(unquote(want)):
            return Violation('quotes and dashes in cells are replaced in the source %r\n%s' % (body, src), finding='cell-quotes')
        return Violation('source   %s\nexpected %s\n%s' % (' '.join(tokens(body)), ' '.join(tokens(want)), src), kind='source')
    # the MathJax payload
    if name == 'math':
        if not (js[:2] == '\\(' and js[-2:] == '\\)'):
            return Violation('MathJax payload %r\n%s' % (js, src), kind='delims')
        jb = js[2:-2]
    else:
        jb = strip_delims(js, name)
    tr = {'<': '\\lt', '>': '\\gt'}
    if jb is None or tokens(jb) != [tr.get(t, t) for t in tokens(want)]:
        return Violation('MathJax  %s\nexpected %s\n%s' % (js, want, src), kind='mathjax')
    return None


def formulas(case):
    if 'formula' in case:
        yield tuple(case['formula'])
        return
    if 'chunk' in case:
        yield from map(tuple, case['chunk'])
        return
    yield from FAMILIES[case['fam']](case)


def fam_atoms(case):
    """Two atoms side by side."""
    a = ATOMP[case['a']]
    yield a
    for b in ATOMP:
        yield a[0] + b[0], a[1] + b[1]


def args_of(name, pool, limit=None):
    n = (OPS.get(name) or AMS[name])[1]
    return itertools.product(pool, repeat=n)


def fam_op_atoms(case):
    n = (OPS.get(case['op']) or AMS[case['op']])[1]
    if n == 1:
        pools = [ATOMP]
        it = ((a,) for a in ATOMP)
    else:
        it = itertools.chain(((a, ('x', 'x')) for a in ATOMP), ((('y', 'y'), a) for a in ATOMP))
    for args in it:
        r = apply(case['op'], args)
        if r:
            yield r
            yield 'a' + r[0] + '+b', 'a' + r[1] + '+b'


def nest(ops, depth, pool):
    """Formulas ops[0](ops[1](...)): the inner one stands in the first or the last argument."""
    if not ops:
        yield from pool
        return
    for inner in nest(ops[1:], depth, pool):
        n = (OPS.get(ops[0]) or AMS[ops[0]])[1]
        for args in ([inner], [inner, ('z', 'z')], [('z', 'z'), inner])[0 if n == 1 else 1:1 if n == 1 else 3]:
            r = apply(ops[0], args)
            if r is None and n == 1 and 'a' in ((OPS.get(ops[0]) or AMS[ops[0]]) + ('',))[2]:
                r = apply(ops[0], [('{%s}' % inner[0], '{%s}' % inner[1])])
            if r:
                yield r


def fam_nest(case):
    yield from nest(case['ops'], 0, [('x', 'x'), ('a<b', 'a<b')] if len(case['ops']) < 3 else [('x', 'x')])


def fam_seq(case):
    """Two operators one behind the other."""
    for a in nest([case['ops'][0]], 0, SMALL[:2]):
        for b in nest([case['ops'][1]], 0, SMALL[1:3]):
            yield a[0] + b[0], a[1] + b[1]


FAMILIES = {'atoms': fam_atoms, 'op': fam_op_atoms, 'nest': fam_nest, 'seq': fam_seq}
CORE = ['sup', 'subg', 'subsup', 'frac', 'over', 'sqrtn', 'paren', 'group', 'bf', 'mathrm', 'hats', 'sum', 'mbox', 'array', 'arrayp', 'pair', 'opt', 'sq', 'env', 'arrm', 'twice', 'stackrel', 'rm']


def math_cases(tier):
    q = tier == 'quick'
    ops = sorted(OPS)
    for i in range(len(ATOMP)):
        yield dict(fam='atoms', a=i, wraps=['dollar'])
        yield dict(fam='atoms', a=i, wraps=['equation']) if not q else dict(formula=list(ATOMP[i]), wraps=sorted(WRAP))
    for o in ops:
        yield dict(fam='op', op=o, wraps=['dollar'])
        for w in sorted(WRAP):
            yield dict(fam='nest', ops=[o], wraps=[w])
    for a in ops:
        for b in ops:
            yield dict(fam='nest', ops=[a, b], wraps=['dollar' if (ops.index(a) + ops.index(b)) % 2 else 'equation'] if q else ['dollar', 'equation', 'macro', 'cell'])
            if not q or (ops.index(a) + ops.index(b)) % 3 == 0:
                yield dict(fam='seq', ops=[a, b], wraps=['bracket'])
    for t in itertools.product(CORE, repeat=3):
        if q and sum((5 ** i) * CORE.index(x) for i, x in enumerate(t)) % 9:
            continue
        yield dict(fam='nest', ops=list(t), wraps=['dollar'] if q else ['dollar', 'section'])
    if not q:
        for t in itertools.product(CORE[:14], repeat=4):
            if sum((5 ** i) * CORE.index(x) for i, x in enumerate(t)) % 3 == 0:
                yield dict(fam='nest', ops=list(t), wraps=['dollar'])


def ams_cases(tier):
    for o in sorted(AMS):
        yield dict(fam='op', op=o, wraps=['dollar'], ams=1)
        for w in sorted(AWRAP):
            yield dict(fam='nest', ops=[o], wraps=[w], ams=1)
    for o in sorted(OPS):
        for w in sorted(AWRAP):
            if tier != 'quick' or (sorted(OPS).index(o) + sorted(AWRAP).index(w)) % 2 == 0:
                yield dict(fam='nest', ops=[o], wraps=[w], ams=1)
    for a, b in itertools.product(sorted(AMS), CORE):
        yield dict(fam='nest', ops=[a, b], wraps=['dollar'], ams=1)
        yield dict(fam='nest', ops=[b, a], wraps=['bracket'], ams=1)


def setup():
    plas.preload('plasTeX.Packages.article', 'plasTeX.Packages.amsmath', 'plasTeX.Packages.amssymb')


def spaces(tier):
    q = tier == 'quick'
    return [
        FnSpace('verbatim', 'all verbatim bodies of up to 3 special characters and up to 2 printable characters, up to 3 pieces of end markers, x environments x places', lambda: verb_cases(tier), run_verbatim, setup, 600),
        FnSpace('verb', 'all \\verb delimiters x contents of one or two characters (three special ones) x places', lambda: cmd_cases(tier), run_cmd, setup, 600),
        FnSpace('mixed', 'all sequences of up to %d verbatim and normal parts' % (3 if q else 4), lambda: seq_cases(tier), run_seq, setup),
        FnSpace('formulas', 'formulas: pairs of atoms, every operator on every atom, all nestings of two operators, nestings of %s core operators x environments and places' % ('three' if q else 'three and four'), lambda: math_cases(tier), run_formula, setup, 600),
        FnSpace('ams', 'the same with the constructs and environments of amsmath', lambda: ams_cases(tier), run_formula, setup, 600),
    ]

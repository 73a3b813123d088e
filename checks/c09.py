r"""C09: every reference resolves to the object its label names.

Documents are built from labelled objects and references; the model (LaTeX's
\@currentlabel, which is local to groups and environments, on top of the
counter model of C08) says which object every label belongs to and what its
number is.  Every reference node of the parsed document - wherever it stands -
must point at exactly that object, or at none if the label does not exist.
The table of pending references is also explored on its own, call by call.
"""
import itertools

from mc import plas
from mc.core import FnSpace, Violation
from checks import c08
from checks.c08 import Model, Skip, LEVELS

PROP = 'C09'
LEVEL = 'model_checking'
RULE = ('a state is the table of labels and pending references (API space) or the sequence of label owners and numbers of a document; '
        'a transition is one label or reference; distinct_nontrivial counts distinct (objects, placements, resolution) combinations')
ASSUMPTIONS = [
    'a reference to a label that does not exist may hold a placeholder, which is no object of the document and has no number',
    'labels behind starred sections belong to the section (as the property says); the number printed for them is not compared',
    'labels behind itemize items, \\item[..] and footnotes, which have no number of their own, are not generated',
    'a label is used for one object only (multiply defined labels are errors in LaTeX)',
    'an object with two labels has the last one as its identifier and is found by both',
    'the first row of an eqnarray and the eqnarray itself are both accepted for a label in the first row',
]

PRE = '\\newtheorem{thm}{T}[section]\\newtheorem{lem}[thm]{L}\\newcounter{zc}\\newcommand{\\lb}[1]{\\label{#1}}\\newcommand{\\rf}[1]{(\\ref{#1})}\n' \
      '\\newenvironment{meq}{\\begin{equation}}{\\end{equation}}\\newenvironment{mgr}{\\refstepcounter{zc}}{}\n'


class Builder(object):
    def __init__(self, cls):
        self.m = Model(cls, 2)
        self.m.newtheorem('thm', 'within', 'section')
        self.m.newtheorem('lem', 'shared', 'thm')
        self.m.new('zc')
        self.src = ''
        self.cur = None
        self.stack = []
        self.owner = {}
        self.refs = []

    # labels and references
    def label(self, l, mac=r'\label'):
        if self.cur is None:
            raise Skip()
        if l in self.owner:
            raise Skip()
        self.owner[l] = self.cur
        self.src += '%s{%s}' % (mac, l)

    def ref(self, l, mac=r'\ref'):
        self.refs.append(l)
        self.src += '%s{%s}' % (mac, l)

    # objects
    def obj(self):
        return len(self.m.out) - 1

    def number(self, kind, c):
        self.m.number(kind, c)
        self.cur = self.obj()

    def push(self):
        self.stack.append((self.cur, dict(self.m.fmt)))

    def pop(self):
        self.cur, self.m.fmt = self.stack.pop()


# An object template takes a builder, an iterator of labels and a function that
# writes references inside; it uses as many labels as it has places for.

def t_section(where, name='section', star=''):
    def t(b, lab, inner):
        b.src += '\\%s%s{T' % (name, star)
        b.m.section(name, bool(star))
        b.cur = b.obj()
        if where == 'title':
            inner(b)
            b.label(lab())
            b.src += '} t\n'
        elif where == 'after':
            b.src += '}'
            b.label(lab())
            b.src += ' t '
            inner(b)
            b.src += '\n'
        elif where == 'lines':
            b.src += '}\n'
            b.label(lab())
            b.src += '\n\nt '
            inner(b)
            b.src += '\n'
        else:
            b.src += '} some text '
            inner(b)
            b.label(lab())
            b.src += ' t\n'
    return t


def t_equation(where, env='equation'):
    def t(b, lab, inner):
        b.src += '\\begin{%s}' % env
        b.push()
        b.number('equation', 'equation')
        if where == 'pre':
            b.label(lab())
        b.src += 'x_1'
        inner(b)
        if where == 'two':
            b.label(lab())
            b.src += '+y'
        if where != 'pre':
            b.label(lab())
        b.src += '\\end{%s}\n' % env
        b.pop()
    return t


def t_rows(which):
    def t(b, lab, inner):
        b.push()
        b.src += '\\begin{eqnarray}'
        for i in range(3):
            b.number('row', 'equation')
            b.src += 'a'
            if which & (1 << i) and i != 1:
                b.label(lab())
            b.src += '&=&b'
            if i == 1:
                inner(b)
            if which & (1 << i) and i == 1:
                b.label(lab())
            b.src += '\\\\\n' if i < 2 else ''
        b.src += '\\end{eqnarray}\n'
        b.pop()
    return t


def t_rows_nonumber(b, lab, inner):
    b.push()
    b.src += '\\begin{eqnarray}a&=&b\\nonumber\\\\ c&=&'
    b.m.out.append(('row', None))
    b.number('row', 'equation')
    inner(b)
    b.label(lab())
    b.src += 'd\\\\ e&=&f\\nonumber\\end{eqnarray}\n'
    b.m.out.append(('row', None))
    b.pop()


def t_float(where, env='figure'):
    def t(b, lab, inner):
        b.push()
        b.src += '\\begin{%s}' % env
        if where == 'before':
            b.label(lab())
        b.number('caption', env.rstrip('*'))
        b.src += '\\caption{C'
        inner(b)
        if where == 'in':
            b.label(lab())
        b.src += '}'
        if where == 'after':
            b.label(lab())
        if where == 'two':
            b.label(lab())
            b.number('caption', env)
            b.src += '\\caption{D}'
            b.label(lab())
        b.src += '\\end{%s}\n' % env
        b.pop()
        if where == 'behind':
            b.label(lab())
    return t


def t_table(b, lab, inner):
    b.push()
    b.src += '\\begin{table}\\begin{tabular}{cc}a&'
    inner(b)
    b.src += '\\\\c&d\\end{tabular}'
    b.number('caption', 'table')
    b.src += '\\caption[s]{C}'
    b.label(lab())
    b.src += '\\end{table}\n'
    b.pop()


def t_theorem(where, name='thm'):
    def t(b, lab, inner):
        b.push()
        b.src += '\\begin{%s}' % name
        b.number('thmenv', 'thm')
        if where == 'early':
            b.label(lab())
        if where == 'title':
            b.src += '[N'
            b.label(lab())
            b.src += ']'
        b.src += 'text '
        inner(b)
        if where in ('late', 'both'):
            # behind an equation with a label of its own
            b.push()
            b.src += '\\begin{equation}'
            b.number('equation', 'equation')
            if where == 'both':
                b.label(lab())
            b.src += 'y\\end{equation}'
            b.pop()
            b.src += ' more '
            b.label(lab())
        if where == 'list':
            b.push()
            b.src += '\\begin{enumerate}'
            b.m.begin('enumerate')
            b.m.item(False)
            b.cur = b.obj()
            b.src += '\\item '
            b.label(lab())
            b.m.end()
            b.src += ' i\\end{enumerate}'
            b.pop()
            b.label(lab())
        b.src += '\\end{%s}\n' % name
        b.pop()
    return t


def t_list(where):
    def t(b, lab, inner):
        b.push()
        b.src += '\\begin{enumerate}'
        b.m.begin('enumerate')
        for i in range(2):
            b.src += '\\item '
            b.m.item(False)
            b.cur = b.obj()
            if where == 'item%d' % i:
                b.label(lab())
            b.src += 'x '
            if i == 0:
                inner(b)
            if where == 'nested' and i == 0:
                b.push()
                b.m.begin('enumerate')
                b.src += '\\begin{enumerate}\\item '
                b.m.item(False)
                b.cur = b.obj()
                b.label(lab())
                b.src += 'y\\end{enumerate}'
                b.m.end()
                b.pop()
                b.label(lab())
        b.m.end()
        b.src += '\\end{enumerate}\n'
        b.pop()
    return t


def t_itemize(b, lab, inner):
    b.push()
    b.src += '\\begin{itemize}\\item x'
    b.m.begin('itemize')
    b.push()
    b.src += '\\begin{equation}'
    b.number('equation', 'equation')
    b.label(lab())
    inner(b)
    b.src += 'x\\end{equation}'
    b.pop()
    b.m.end()
    b.src += '\\end{itemize}\n'
    b.pop()


def t_refstep(b, lab, inner):
    b.number('refstep', 'zc')
    b.src += '\\refstepcounter{zc}'
    b.label(lab())
    b.src += 'text '
    inner(b)


def t_own(b, lab, inner):
    """An environment of the user with a counter, then the enclosing object again."""
    b.push()
    b.src += '\\begin{mgr}'
    b.number('refstep', 'zc')
    b.src += 'text '
    inner(b)
    b.label(lab())
    b.src += '\\end{mgr}'
    b.pop()
    b.label(lab())


def t_group(b, lab, inner):
    """A group around something numbered, then the enclosing object again."""
    b.push()
    b.src += '{'
    b.number('refstep', 'zc')
    b.src += '\\refstepcounter{zc}'
    b.label(lab())
    b.src += ' x '
    inner(b)
    b.src += '}'
    b.pop()
    b.label(lab())


def t_macro(b, lab, inner):
    b.push()
    b.src += '\\begin{meq}a'
    b.number('equation', 'equation')
    b.label(lab(), '\\lb')
    inner(b)
    b.src += '\\end{meq}\n'
    b.pop()


def t_array(b, lab, inner):
    """A label behind an array or a math text inside an equation."""
    b.push()
    b.src += '\\begin{equation}\\begin{array}{c}a\\\\b\\end{array}'
    b.number('equation', 'equation')
    inner(b)
    b.label(lab())
    b.src += '\\end{equation}\n'
    b.pop()


TEMPLATES = {
    'sec-title': t_section('title'), 'sec-after': t_section('after'), 'sec-lines': t_section('lines'), 'sec-text': t_section('text'),
    'ssec-after': t_section('after', 'subsection'), 'ssec-title': t_section('title', 'subsection'), 'sec*-after': t_section('after', 'section', '*'), 'sec*-title': t_section('title', 'section', '*'),
    'eq-pre': t_equation('pre'), 'eq-post': t_equation('post'), 'eq-two': t_equation('two'), 'meq': t_macro,
    'rows1': t_rows(1), 'rows2': t_rows(2), 'rows4': t_rows(4), 'rows7': t_rows(7), 'rowsn': t_rows_nonumber,
    'fig-after': t_float('after'), 'fig-in': t_float('in'), 'fig-before': t_float('before'), 'fig-two': t_float('two'), 'fig-behind': t_float('behind'), 'fig*': t_float('after', 'figure*'),
    'tab-in': t_float('in', 'table'), 'table': t_table,
    'thm-early': t_theorem('early'), 'thm-title': t_theorem('title'), 'thm-late': t_theorem('late'), 'thm-both': t_theorem('both', 'lem'), 'thm-list': t_theorem('list'),
    'item0': t_list('item0'), 'item1': t_list('item1'), 'nested': t_list('nested'), 'itemize': t_itemize,
    'refstep': t_refstep, 'own': t_own, 'group': t_group, 'array': t_array,
}
NAMES = sorted(TEMPLATES)
CORE = ['sec-after', 'ssec-title', 'sec*-after', 'eq-post', 'rows7', 'fig-after', 'table', 'thm-both', 'nested', 'own']

# where the references of a document stand: at the start, inside every object,
# between the objects and at the end; and in which order and how often
PATTERNS = {
    'fwd': dict(start='f'), 'fwd2': dict(start='fr'), 'bwd': dict(end='f'), 'bwd2': dict(end='rr'), 'all': dict(start='f', mid='f', inner='f', end='f'),
    'inner': dict(inner='f'), 'innerr': dict(inner='r', end='r'), 'mid': dict(mid='rf'), 'odd': dict(start='1', mid='2', end='f'), 'dup': dict(start='11', mid='1', end='2'),
}


def build(case):
    b = Builder(case['cls'])
    pat = PATTERNS[case['pat']]
    names = ['L%d' % i for i in range(1, 20)]

    def count():
        c = Builder(case['cls'])
        it = iter(names)
        c.src = ''
        c.m.section('section', False)
        c.cur = 0
        for n in case['objs']:
            TEMPLATES[n](c, lambda: next(it), lambda b: None)
        return len(c.owner)
    try:
        n = count()
        labels = names[:n] + ['zz']

        def put(spec, macs=(r'\ref', r'\pageref', r'\rf')):
            def f(b):
                for ch in spec or '':
                    ls = labels if ch == 'f' else labels[::-1] if ch == 'r' else [labels[int(ch) - 1]] if int(ch) <= len(labels) else []
                    for l in ls:
                        b.ref(l, macs[len(b.refs) % len(macs)])
                        b.src += ' '
            return f
        it = iter(names)
        b.src = '\\documentclass{%s}\n' % case['cls'] + PRE + '\\begin{document}\n'
        put(pat.get('start'))(b)
        b.src += '\\section{S}s\n'
        b.m.section('section', False)
        b.cur = 0
        for i, o in enumerate(case['objs']):
            if i:
                put(pat.get('mid'))(b)
                b.src += '\n\n'
            TEMPLATES[o](b, lambda: next(it), put(pat.get('inner'), (r'\ref', r'\pageref')))
        b.src += '\n'
        put(pat.get('end'))(b)
        b.src += '\\end{document}\n'
    except Skip:
        return None
    return b


def objects(doc):
    """The numbered objects, in the order of the document."""
    out = []

    def walk(n):
        for c in n.childNodes or []:
            if c.nodeType != 1:
                continue
            k = c.nodeName
            if k in LEVELS:
                out.append(('sec', c))
            elif k in ('equation', 'caption', 'thmenv'):
                out.append((k, c))
            elif k == 'refstepcounter':
                out.append(('refstep', c))
            elif k == 'ArrayRow' and c.parentNode is not None and c.parentNode.nodeName == 'eqnarray':
                out.append(('row', c))
            elif k == 'item' and c.parentNode is not None and c.parentNode.nodeName == 'enumerate':
                out.append((k, c))
            walk(c)
    walk(doc)
    return out


REFS = ('ref', 'pageref', 'eqref', 'autoref', 'nameref', 'cref', 'Cref', 'vref')


def references(doc):
    """All reference nodes of the document, in children and attributes."""
    out = []
    seen = set()

    def walk(n):
        if id(n) in seen:
            return
        seen.add(id(n))
        if getattr(n, 'nodeType', None) == 1 and n.nodeName in REFS:
            out.append(n)
        for c in (n.childNodes or []) if hasattr(n, 'childNodes') else []:
            walk(c)
        a = getattr(n, 'attributes', None)
        if a:
            for v in a.values():
                for x in v if isinstance(v, list) and not hasattr(v, 'nodeType') else [v]:
                    if hasattr(x, 'nodeType'):
                        walk(x)
    walk(doc)
    return out


def inside(node, doc):
    """Is this node an object of the document?"""
    n = 0
    while node is not None and n < 100:
        if node is doc:
            return True
        node = node.parentNode
        n += 1
    return False


def judge(doc, b, cx, key):
    objs = objects(doc)
    want = b.m.out
    if [k for k, n in objs] != [k for k, v in want]:
        return Violation('objects %r, expected %r\n%s' % ([k for k, n in objs], want, b.src), kind='objects')
    refs = references(doc)
    got = {}
    for r in refs:
        got.setdefault(r.attributes['label'], []).append(r)
    for l in set(b.refs):
        if len(got.get(l, [])) != b.refs.count(l):
            return Violation('%d references to %s in the document, expected %d\n%s' % (len(got.get(l, [])), l, b.refs.count(l), b.src), kind='count')
    used = {}
    for l, o in b.owner.items():
        kind, node = objs[o]
        first = kind == 'row' and node.parentNode.childNodes[0] is node
        cands = [node, node.parentNode] if first else [node]
        last = [x for x in b.owner if b.owner[x] == o][-1]
        hit = [c for c in cands if c.id == last]
        if not hit:
            return Violation('the object of label %s has the identifier %r, not %r\n%s' % (l, node.id, last, b.src), kind='id')
        target = hit[0]
        used[l] = target
        for i, r in enumerate(got.get(l, [])):
            t = r.idref.get('label')
            if t is not target:
                return Violation('reference %d to %s resolves to %s, not to %s (object %d)\n%s' % (
                    i, l, '%s with id %r' % (t.nodeName, t.id) if t is not None else None, node.nodeName, o, b.src), kind='target')
            num = c08.reftext(t)
            if kind != 'sec' or want[o][1]:
                if num != want[o][1]:
                    return Violation('reference to %s prints %r, the number is %r\n%s' % (l, num, want[o][1], b.src), kind='number')
    ids = {}
    for l, t in used.items():
        for x, u in used.items():
            if t is not u and t.id == u.id:
                return Violation('labels %s and %s give the same identifier %r\n%s' % (l, x, t.id, b.src), kind='ids')
    for l in set(b.refs) - set(b.owner):
        for r in got.get(l, []):
            t = r.idref.get('label')
            if t is not None and (inside(t, doc) or any(t is n for k, n in objs) or c08.reftext(t)):
                return Violation('reference to the unknown label %s resolves to %s %r\n%s' % (l, t.nodeName, t.id, b.src), kind='dangling')
    cx.state(tuple(sorted(b.owner.items())) + tuple(b.refs))
    cx.outcome((key, tuple(want)))
    cx.trans(len(b.owner) + len(b.refs))
    cx.trace()
    return None


def run(case, cx):
    b = build(case)
    if b is None:
        return None
    try:
        doc = plas.parse(b.src)
    except Exception as e:
        return Violation('parsing raised %s: %s\n%s' % (type(e).__name__, e, b.src), kind='raise:' + type(e).__name__)
    return judge(doc, b, cx, (tuple(case['objs']), case['pat']))


def documents(tier):
    for o in NAMES:
        for p in PATTERNS:
            for cls in ('article', 'book'):
                yield dict(cls=cls, objs=[o], pat=p)
    for o in itertools.product(NAMES, repeat=2):
        for i, p in enumerate(sorted(PATTERNS)):
            if tier == 'quick' and not (o[0] in CORE and o[1] in CORE) and (NAMES.index(o[0]) * 7 + NAMES.index(o[1]) * 3 + i) % 5:
                continue
            yield dict(cls='article', objs=list(o), pat=p)
    for o in itertools.product(CORE if tier == 'quick' else CORE, repeat=3):
        for i, p in enumerate(sorted(PATTERNS)):
            if tier == 'quick' and (sum((3 ** j) * CORE.index(x) for j, x in enumerate(o)) + i) % 10:
                continue
            yield dict(cls='article', objs=list(o), pat=p)


# ---- places of references ----------------------------------------------------------

PLACES = {
    'text': '%s', 'group': '{%s}', 'emph': '\\emph{x %s}', 'title': '\\section*{T %s}', 'titleopt': '\\section*[u]{T %s}', 'caption': '\\begin{figure}\\caption*{C %s}\\end{figure}',
    'footnote': 'x\\footnote{f %s}', 'cell': '\\begin{tabular}{ll}a&%s\\\\c&d\\end{tabular}', 'cell0': '\\begin{tabular}{ll}%s&b\\\\c&d\\end{tabular}',
    'mcell': '\\begin{tabular}{ll}\\multicolumn{2}{c}{%s}\\\\c&d\\end{tabular}', 'math': '$x_{%s}$', 'mbox': '$a \\mbox{ by %s}$', 'term': '\\begin{description}\\item[%s] x\\end{description}',
    'item': '\\begin{itemize}\\item %s\\end{itemize}', 'thmtitle': '\\begin{rem}[by %s]x\\end{rem}', 'proof': '\\begin{quote}%s\\end{quote}', 'macroarg': '\\twice{%s}',
    'center': '\\begin{center}%s\\end{center}', 'display': '\\[ x \\mbox{%s} \\]', 'parbox': '\\parbox{3cm}{%s}', 'minipage': '\\begin{minipage}{3cm}%s\\end{minipage}',
    'cond': '\\iftrue %s\\else x\\fi', 'after': '\\noindent%s', 'verse': 'x~%s.', 'bf': '{\\bf %s}', 'envopt': '\\begin{table}[t]%s\\end{table}', 'let': '\\rr{%s}', 'def': '\\def\\use{%s}\\use',
}
TARGETS = ['sec-after', 'eq-post', 'rows4', 'fig-after', 'thm-late', 'nested']
MACS = [r'\ref', r'\pageref']


def place_cases(tier):
    for p in sorted(PLACES):
        for t in TARGETS:
            for when in ('before', 'after', 'both', 'twice'):
                for mac in MACS:
                    yield dict(place=p, target=t, when=when, mac=mac)


def run_place(case, cx):
    b = Builder('article')
    b.src = '\\documentclass{article}\n' + PRE + '\\newtheorem*{rem}{R}\\newcommand{\\twice}[1]{#1 #1}\\let\\rr=\\emph\n\\begin{document}\n\\section{S}s\n'
    b.m.section('section', False)
    b.cur = 0
    it = iter(['L1', 'L2'])
    p = case['place']

    def put(l):
        for k in range(2 if case['when'] == 'twice' else 1):
            n = 2 if p == 'macroarg' else 1
            if p.startswith('title'):
                b.m.section('section', True)
            if p == 'caption':
                b.m.out.append(('caption', None))
            if p == 'thmtitle':
                b.m.out.append(('thmenv', None))
            b.refs += [l] * n
            b.src += PLACES[p] % ('%s{%s}' % (case['mac'], l)) + '\n\n'
    if case['when'] != 'after':
        put('L1')
        put('zz')
    if p.startswith('title'):
        b.src += '\\section{S}'
        b.m.section('section', False)
        b.cur = b.obj()
    TEMPLATES[case['target']](b, lambda: next(it), lambda b: None)
    b.src += '\n'
    if case['when'] != 'before':
        put('L1')
        put('zz')
    b.src += '\\end{document}\n'
    try:
        doc = plas.parse(b.src)
    except Exception as e:
        return Violation('parsing raised %s: %s\n%s' % (type(e).__name__, e, b.src), kind='raise:' + type(e).__name__)
    v = judge(doc, b, cx, ('place', p, case['target'], case['when']))
    if v:
        v.kind = (v.kind or '') + ':' + p
    return v


# ---- spelling of labels --------------------------------------------------------------

SPELL = ['a', 'A', 'a b', 'a  b', 'sec:a', 'eq_1', 'x_y_z', 'a.b', 'a-b', 'a--b', 'a---b', "a'b", "a''b", 'a`b', '1', '12', 'L1', 'a/b', 'a,b', 'a;b', 'a+b=c', 'a*', '(a)', 'a!b', '\u00e9t\u00e9', 'a"b', 'a|b', 'a<b>', 'a@b', 'id', 'label', 'None', 'a0000000001', 'a?b']


def spell_cases(tier):
    for a, b in itertools.permutations(range(len(SPELL)), 2):
        if ' '.join(SPELL[a].split()) == ' '.join(SPELL[b].split()):
            continue
        for pat in ('fb', 'bf', 'ff'):
            if tier == 'quick' and (a + b) % 3 and b != a + 1 and pat != 'fb':
                continue
            yield dict(a=a, b=b, pat=pat)


def run_spell(case, cx):
    b = Builder('article')
    A, B = SPELL[case['a']], SPELL[case['b']]
    pat = case['pat']
    b.src = '\\documentclass{article}\n' + PRE + '\\begin{document}\n'
    if pat[0] == 'f':
        b.ref(A)
    if pat[1] == 'f':
        b.ref(B)
    b.m.section('section', False)
    b.cur = 0
    b.src += '\\section{S}'
    b.label(A)
    b.src += '\\begin{equation}x'
    b.push()
    b.number('equation', 'equation')
    b.label(B)
    b.src += '\\end{equation}'
    b.pop()
    b.ref(B)
    b.ref(A)
    b.src += '\\end{document}\n'
    doc = plas.parse(b.src)
    # labels are compared as LaTeX compares them: blanks collapse
    objs = objects(doc)
    refs = references(doc)
    want = [n for k, n in objs]
    if [k for k, n in objs] != ['sec', 'equation']:
        return Violation('objects %r\n%s' % (objs, b.src), kind='objects')
    seq = ([0] if pat[0] == 'f' else []) + ([1] if pat[1] == 'f' else []) + [1, 0]
    refs = [n for n in refs]
    got = [[i for i, w in enumerate(want) if r.idref.get('label') is w] for r in refs]
    cx.trans(len(refs) + 2)
    cx.trace()
    cx.state((A, B, pat))
    cx.outcome((A, B, tuple(seq)))
    if got != [[s] for s in seq]:
        return Violation('references resolve to %r, expected %r\n%s' % (got, seq, b.src), kind='spell')
    if want[0].id == want[1].id:
        return Violation('%r and %r give the same identifier %r' % (A, B, want[0].id), kind='ids')
    for n, l in zip(want, (A, B)):
        if ''.join(n.id.split()) != ''.join(l.split()) and not any(x in l for x in "-'`"):
            return Violation('label %r gives identifier %r' % (l, n.id), kind='idtext')
    return None


# ---- the table itself -----------------------------------------------------------------

def api_ops():
    ops = [('label', l, n) for l in 'ABC' for n in (0, 1, None)]
    ops += [('ref', o, k, l) for o in (0, 1) for k in ('p', 'q') for l in 'ABC']
    ops += [('cur', 0), ('cur', 1)]
    return ops


def api_cases(tier):
    ops = api_ops()
    for a in range(len(ops)):
        for c in range(len(ops)):
            yield dict(first=[a, c], depth=4 if tier == 'quick' else 5)


def run_api(case, cx):
    from plasTeX import TeXDocument, Command
    ops = api_ops()
    bad = []
    plas.fresh()
    doc = TeXDocument()

    def replay(seq):
        ctx = doc.context
        ctx.labels.clear()
        ctx.refs.clear()
        ctx.persistentLabels.clear()
        nodes = [doc.createElement('section') for i in range(2)]
        robj = [doc.createElement('ref') for i in range(2)]
        ctx.currentlabel = None
        labels = {}
        refs = {}
        cur = None
        for op in seq:
            if op[0] == 'cur':
                cur = op[1]
                ctx.currentlabel = nodes[cur]
            elif op[0] == 'label':
                if op[1] in labels:
                    return None
                n = op[2]
                if n is None:
                    if cur is None:
                        return None
                    n = cur
                    ctx.label(op[1])
                else:
                    ctx.label(op[1], nodes[n])
                labels[op[1]] = n
            else:
                if (op[1], op[2]) in refs:
                    return None
                ctx.ref(robj[op[1]], op[2], op[3])
                refs[op[1], op[2]] = op[3]
        last = {}
        for l, n in labels.items():
            last[n] = l
        for n, l in last.items():
            if nodes[n].id != l:
                return 'node %d has id %r, its last label is %s' % (n, nodes[n].id, l)
        for (o, k), l in refs.items():
            t = robj[o].idref.get(k)
            if l in labels:
                if t is not nodes[labels[l]]:
                    return 'reference %s.%s to %s is not resolved to node %d' % (o, k, l, labels[l])
            elif t is not None and (t in nodes and any(t is n for n in nodes) or getattr(t, 'ref', None)):
                return 'reference %s.%s to the unknown %s is resolved' % (o, k, l)
            # nothing else may appear
        for o in (0, 1):
            if set(robj[o].idref) != {k for (p, k) in refs if p == o}:
                return 'idref of %d has the names %s' % (o, sorted(robj[o].idref))
        cx.state((tuple(sorted(labels.items())), tuple(sorted(refs.items())), cur))
        return True

    def grow(seq, depth):
        for op in ops if len(seq) >= 2 else [ops[case['first'][len(seq)]]]:
            s = seq + [op]
            cx.trans()
            r = replay(s)
            if r is None:
                continue
            cx.count('states_checked')
            if r is not True:
                bad.append((s, r))
                return
            if len(s) < depth:
                grow(s, depth)
            if bad:
                return
    grow([], case['depth'])
    cx.trace()
    cx.outcome(tuple(case['first']))
    if bad:
        return Violation('%s after %s' % (bad[0][1], bad[0][0]), kind='api')
    return None


# ---- bibliography ------------------------------------------------------------------------

def cite_cases(tier):
    entries = [('k1', None), ('k2', 'lab'), ('k3', None)]
    cites = [['k1'], ['k2'], ['k3', 'k1'], ['k1', 'k2', 'k3'], ['zz'], ['k1', 'zz', 'k3'], ['k2', 'k2']]
    for perm in itertools.permutations(entries):
        for n in (1, 2, 3):
            for before in cites:
                for after in cites:
                    for text in (None, 'p. 3'):
                        yield dict(items=[list(p) for p in perm[:n]], before=before, after=after, text=text)


def run_cite(case, cx):
    def c(keys):
        return '\\cite%s{%s} ' % ('[%s]' % case['text'] if case['text'] else '', ','.join(keys))
    src = '\\documentclass{article}\\begin{document}\n' + c(case['before']) + '\n\\begin{thebibliography}{9}\n'
    num = 0
    lab = {}
    for k, l in case['items']:
        src += '\\bibitem%s{%s} text %s\n' % ('[%s]' % l if l else '', k, k)
        if not l:
            num += 1
        lab[k] = l or str(num)
    src += '\\end{thebibliography}\n' + c(case['after']) + '\\end{document}'
    doc = plas.parse(src)
    cites = doc.getElementsByTagName('cite')
    items = doc.getElementsByTagName('bibitem')
    cx.trans(4)
    cx.trace()
    cx.state((tuple(lab), tuple(case['before'])))
    cx.outcome((tuple(lab.items()), tuple(case['before']), tuple(case['after'])))
    if [i.id for i in items] != [k for k, l in case['items']]:
        return Violation('identifiers %r\n%s' % ([i.id for i in items], src), kind='bibid')
    if len(cites) != 2:
        return Violation('%d citations\n%s' % (len(cites), src), kind='cites')
    for node, keys in zip(cites, (case['before'], case['after'])):
        want = [next(i for i, (x, l) in enumerate(case['items']) if x == k) for k in keys if k in lab]
        got = node.bibitems
        if len(got) != len(want) or any(g is not items[w] for g, w in zip(got, want)):
            return Violation('citation of %r resolves to %r\n%s' % (keys, [g.id for g in got], src), kind='cite')
        t = node.citation().textContent
        w = '[' + ', '.join(lab[k] for k in keys if k in lab) + (', ' + case['text'] if case['text'] else '') + ']'
        if want and t != w:
            return Violation('citation of %r prints %r, expected %r\n%s' % (keys, t, w, src), kind='citetext')
    return None


# ---- packages --------------------------------------------------------------------------------

PKG = {'amsmath': ['eqref'], 'hyperref': ['autoref'], 'nameref': ['nameref'], 'cleveref': ['cref', 'Cref']}


def pkg_cases(tier):
    for p, macs in sorted(PKG.items()):
        for mac in macs:
            for t in NAMES:
                for when in ('before', 'after', 'both'):
                    yield dict(pkg=p, mac='\\' + mac, target=t, when=when)


def run_pkg(case, cx):
    b = Builder('article')
    b.src = '\\documentclass{article}\\usepackage{%s}\n' % case['pkg'] + PRE + '\\begin{document}\n\\section{S}s\n'
    b.m.section('section', False)
    b.cur = 0
    it = iter(['L1', 'L2', 'L3'])

    def put():
        for l in ('L1', 'zz', 'L1'):
            b.ref(l, case['mac'])
            b.src += ' '
    if case['when'] != 'after':
        put()
    try:
        TEMPLATES[case['target']](b, lambda: next(it), lambda b: None)
    except Skip:
        return None
    if case['when'] != 'before':
        put()
    b.src += '\\end{document}\n'
    try:
        doc = plas.parse(b.src)
    except Exception as e:
        return Violation('parsing raised %s: %s\n%s' % (type(e).__name__, e, b.src), kind='raise:' + type(e).__name__)
    return judge(doc, b, cx, ('pkg', case['mac'], case['target'], case['when']))


def setup():
    plas.preload('plasTeX.Packages.article', 'plasTeX.Packages.book', 'plasTeX.Packages.report', 'plasTeX.Packages.amsmath')


def spaces(tier):
    q = tier == 'quick'
    S = lambda name, bound, fn, rn: FnSpace(name, bound, fn, rn, setup)
    return [
        S('documents', 'one and two labelled objects out of %d templates, three out of %d, x %d placements of references to all labels and an unknown one%s' % (
            len(NAMES), len(CORE), len(PATTERNS), ' (a fifth of the pairs outside the core, a tenth of the triples)' if q else ''), lambda: documents(tier), run),
        S('places', '%d kinds of place for a reference x %d targets x before/after/both/twice x ref, pageref' % (len(PLACES), len(TARGETS)), lambda: place_cases(tier), run_place),
        S('spelling', 'all pairs of %d spellings of labels, forward and backward references' % len(SPELL), lambda: spell_cases(tier), run_spell),
        FnSpace('table', 'all sequences of %d calls (3 labels, 2 nodes, 2 referencing objects with 2 slots, current object) on Context.label and Context.ref' % (4 if q else 5), lambda: api_cases(tier), run_api, setup, timeout=300),
        S('citations', 'bibliographies of up to 3 entries in every order x 7 citations before x 7 behind x optional text', lambda: cite_cases(tier), run_cite),
        S('packages', 'eqref, autoref, nameref, cref, Cref x all templates x before, after, both', lambda: pkg_cases(tier), run_pkg),
    ]

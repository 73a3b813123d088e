"""C16: configuration layering against a layer model (defaults < files in order < command line)."""
import itertools
import json
import os
from argparse import ArgumentParser

from mc import plas
from mc.core import FnSpace, Violation
from plasTeX.Config import defaultConfig
from plasTeX.client import collect_renderer_config

PROP = 'C16'
LEVEL = 'model_checking'
RULE = ('a case is an assignment of values to configuration layers (three files, command line, direct setting); after '
        'applying it every option of every section is read back and compared with the layer model; distinct_nontrivial '
        'counts distinct observed configurations')
ASSUMPTIONS = [
    'the table of options, types, defaults and command-line spellings (checks/c16_table.json) is the documented one '
    '(Doc/command.tex and --help)',
    'interpolation applies to string and list options (as documented), not to dictionary values',
]

HERE = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(HERE, 'c16_table.json')) as f:
    TABLE = [tuple(r) for r in json.load(f)]
TYPES = {(s, k): t for s, k, t, d, o in TABLE}
CLI = {(s, k): o for s, k, t, d, o in TABLE}
DEFAULTS = {(s, k): d for s, k, t, d, o in TABLE}
KEYS = [(s, k) for s, k, t, d, o in TABLE]
CAST = {('counters', 'counters'): int, ('images', 'scales'): float}

# ---- values: (text written in a file, command-line words or None, value it denotes)
BOOLTEXT = [('yes', True), ('no', False), ('true', True), ('false', False), ('on', True), ('off', False), ('Yes', True),
            ('NO', False), ('False', False), ('TRUE', True), ('1', True), ('0', False), ('Off', False)]


def values(key, full=False):
    """file values: list of (text, denoted value or list/dict to merge)"""
    t = TYPES[key]
    if t == 'StringOption':
        v = ['v one', 'x', '', 'a,b = "c" [d]', '100%%', '-1', 'yes']
        return [(x, x) for x in (v if full else v[:2])]
    if t == 'IntegerOption':
        v = ['7', '-3', '0', '+4', '12345']
        return [(x, int(x)) for x in (v if full else v[:2])]
    if t == 'FloatOption':
        v = ['2.5', '-0.25', '3', '1e3', '.5']
        return [(x, float(x)) for x in (v if full else v[:2])]
    if t == 'BooleanOption':
        return BOOLTEXT if full else BOOLTEXT[:2]
    if t == 'MultiStringOption':
        v = [('a b', ['a', 'b']), ('"c d" e', ['c d', 'e']), ('', []), ("f 'g  h'", ['f', 'g  h']), ('x', ['x']), ('a a', ['a', 'a'])]
        return v if full else v[:2]
    cast = CAST.get(key, str)
    nums = cast is not str
    a = [[('One', '1'), ('two', '2')], [('two', '5'), ('Three.x', '3')], [('One', '-4')]]
    if not nums:
        a = [[('One', 'u v'), ('two-url', 'http://x/y?z=1')], [('two-url', 'B'), ('Three.x', 'c=d')], [('One', 'W')]]
    v = [({k: x for k, x in e}, {k: cast(x) for k, x in e}) for e in a]
    return v if full else v[:2]


def cli_values(key, full=False):
    """command-line forms: list of (argv words, denoted value)"""
    t = TYPES[key]
    opts = [o for o in CLI[key] if not o.startswith('!')]
    dis = [o[1:] for o in CLI[key] if o.startswith('!')]
    out = []
    if t == 'BooleanOption':
        out = [([o], True) for o in opts] + [([o], False) for o in dis]
        if full and dis:
            out += [([opts[0], dis[0]], False), ([dis[0], opts[0]], True)]
    elif t == 'StringOption':
        for o in opts if full else opts[:1]:
            out += [([o, 'cli'], 'cli'), ([o, ''], ''), ([o, 'p q'], 'p q')]
            if o.startswith('--') and full:
                out += [([o + '=-z=1'], '-z=1'), ([o, 'a', o, 'b'], 'b')]
    elif t == 'IntegerOption':
        out = [([opts[0], '9'], 9), ([opts[0], '0'], 0), ([opts[0], '-5'], -5), ([opts[0] + '=6'], 6)]
    elif t == 'FloatOption':
        out = [([opts[0], '9.5'], 9.5), ([opts[0], '0'], 0.0)]
    elif t == 'MultiStringOption':
        o = opts[0]
        out = [([o, 'm', 'n'], ['m', 'n']), ([o, 'p', o, 'q q', 'm'], ['p', 'q q', 'm']), ([o], [])]
    elif key == ('links', 'links'):
        o = opts[0]
        out = [([o, 'next', 'Title'], {'next-title': 'Title'}),
               ([o, 'One', 'u', 'T T', o, 'b', 'c'], {'One-url': 'u', 'One-title': 'T T', 'b-title': 'c'})]
    else:
        o = opts[0]
        cast = CAST.get(key, str)
        out = [([o, 'two', '8'], {'two': cast('8')}), ([o, 'One', '6', o, 'Zed', '7'], {'One': cast('6'), 'Zed': cast('7')})]
    return out if full else out[:2]


# ---- layer model

class Model(object):
    def __init__(self):
        self.v = {k: (list(d) if isinstance(d, list) else dict(d) if isinstance(d, dict) else d) for k, d in DEFAULTS.items()}

    def apply(self, key, val):
        t = TYPES[key]
        if t == 'MultiStringOption':
            self.v[key] = self.v[key] + list(val)
        elif t == 'DictOption':
            self.v[key] = dict(self.v[key], **val)
        else:
            self.v[key] = val

    def set(self, key, val):
        self.v[key] = val

    def read(self, key, depth=0):
        if depth > 8:
            raise RecursionError
        v = self.v[key]
        if isinstance(v, str):
            return self.interp(v, depth)
        if isinstance(v, list):
            return [self.interp(x, depth) for x in v]
        return v

    def interp(self, s, depth):
        out, i = '', 0
        while i < len(s):
            if s[i] != '%':
                out += s[i]
                i += 1
            elif s[i + 1] == '%':
                out += '%'
                i += 2
            else:
                j = s.index(')', i)
                name, conv = s[i + 2:j], s[j + 1]
                val = next(self.read(k, depth + 1) for k in KEYS if k[1] == name)
                out += str(int(val)) if conv == 'd' else str(val)
                i = j + 2
        return out


def mkconfig():
    c = defaultConfig()
    collect_renderer_config(c)
    return c


def same(a, b):
    return a == b and type(a) is type(b)


def compare(c, m, case, only=None):
    seen = []
    for key in (only or KEYS):
        g = c[key[0]][key[1]]
        e = m.read(key)
        seen.append(repr(g))
        if not same(g, e):
            return Violation('%s.%s: expected %r, read back %r\ncase %s' % (key[0], key[1], e, g, json.dumps(case))), None
    return None, tuple(seen)


def ini(assign):
    """assign: {key: file text or dict}"""
    secs = {}
    for (s, k), txt in assign:
        if isinstance(txt, dict):
            secs.setdefault(s, []).extend('%s = %s' % kv for kv in txt.items())
        else:
            secs.setdefault(s, []).append('%s = %s' % (k, txt))
    return '\n'.join('[%s]\n%s\n' % (s, '\n'.join(l)) for s, l in secs.items())


def run_layers(case, cx):
    """case: {'files': [[[key, text, value], ...] or None, ...], 'cli': [[key, words, value], ...], 'mode': ...}"""
    m = Model()
    names = []
    for i, fl in enumerate(case['files']):
        if fl is None:
            continue
        name = 'f%d.ini' % i
        if fl != 'missing':
            with open(name, 'w', encoding='utf-8') as f:
                f.write(ini([(tuple(k), t) for k, t, v in fl]))
            for k, t, v in fl:
                m.apply(tuple(k), v)
                cx.trans()
        else:
            name = 'does-not-exist.ini'
        names.append(name)
    argv = []
    for k, words, v in case['cli']:
        argv += words
        m.apply(tuple(k), v)
        cx.trans()
    cx.state(json.dumps(sorted((str(k), v) for k, v in m.v.items() if v != DEFAULTS[k]), default=str))
    cwd = os.getcwd()
    try:
        if case.get('mode') == 'main':
            import plasTeX.client as client
            box = []
            old = client.run
            client.run = lambda filename, config: box.append((filename, config))
            try:
                client.main([x for n in names for x in ('-c', n)] + argv + ['--', 'in.tex'])
            finally:
                client.run = old
            if len(box) != 1 or box[0][0] != 'in.tex':
                return Violation('client.main did not hand the document over: %r' % (box,))
            c = box[0][1]
        else:
            c = mkconfig()
            if case.get('mode') == 'one' and len(names) == 1:
                c.read(names[0])
            elif case.get('mode') == 'list':
                c.read(names)
            else:
                for n in names:
                    c.read([n])
            if argv:
                p = ArgumentParser('x')
                c.registerArgparse(p)
                c.updateFromDict(vars(p.parse_args(argv)))
    except (Exception, SystemExit) as e:
        return Violation('%s: %s\ncase %s' % (type(e).__name__, e, json.dumps(case)), kind='raise-' + type(e).__name__)
    finally:
        for n in names:
            if os.path.exists(n):
                os.unlink(n)
    cx.trace()
    v, seen = compare(c, m, case)
    if v is None:
        cx.outcome(seen)
    return v


def single_cases(tier):
    """every option: all layerings of its values over three files and the command line"""
    q = tier == 'quick'
    yield {'files': [], 'cli': []}
    yield {'files': [], 'cli': [], 'mode': 'main'}
    for key in KEYS:
        fv = [[None]] + [[[list(key), t, v]] for t, v in values(key)]
        cv = [[]] + [[[list(key), w, v]] for w, v in cli_values(key)]
        for a in fv:
            for b in fv:
                for c in (fv[:2] if q else fv):
                    for d in cv:
                        files = [x if x != [None] else None for x in (a, b, c)]
                        yield {'files': files, 'cli': d, 'mode': 'list'}


def value_cases(tier):
    """every value of every option type, alone in a file / on the command line, through the API and through main"""
    for key in KEYS:
        for t, v in values(key, True):
            for mode in ('one', 'main'):
                yield {'files': [[[list(key), t, v]]], 'cli': [], 'mode': mode}
        for w, v in cli_values(key, True):
            for mode in ('list', 'main'):
                yield {'files': [], 'cli': [[list(key), w, v]], 'mode': mode}
            for t, fvv in values(key):
                yield {'files': ['missing', [[list(key), t, fvv]]], 'cli': [[list(key), w, v]], 'mode': 'main'}


def pair_cases(tier):
    """all ordered pairs of options, one in a file and one on the command line / in another file"""
    for a in KEYS:
        for b in KEYS:
            if a == b:
                continue
            t, v = values(a)[1]
            w, cv = cli_values(b)[-1]
            t2, v2 = values(b)[0]
            yield {'files': [[[list(a), t, v]], [[list(b), t2, v2], [list(a), values(a)[0][0], values(a)[0][1]]]], 'cli': [[list(b), w, cv]], 'mode': 'list'}
            if tier != 'quick':
                yield {'files': [[[list(a), t, v], [list(b), t2, v2]]], 'cli': [[list(b), w, cv], [list(a)] + list(cli_values(a)[0])], 'mode': 'main'}


# ---- direct setting and interpolation histories

STR = [k for k in KEYS if TYPES[k] == 'StringOption']
FIRST = {}
for k in KEYS:
    FIRST.setdefault(k[1], k)


def run_interp(case, cx):
    """case: list of operations on one configuration; every read is compared with the model"""
    c = mkconfig()
    m = Model()
    for op in case:
        cx.trans()
        if op[0] == 'set':
            val = op[2]
            c[op[1][0]][op[1][1]] = list(val) if isinstance(val, list) else val
            m.set(tuple(op[1]), list(val) if isinstance(val, list) else val)
        elif op[0] == 'file':
            with open('i.ini', 'w') as f:
                f.write(ini([(tuple(op[1]), op[2])]))
            c.read('i.ini')
            os.unlink('i.ini')
            m.apply(tuple(op[1]), op[3])
        elif op[0] == 'read':
            key = tuple(op[1])
            e = m.read(key)
            try:
                g = c[key[0]][key[1]]
                g2 = c[key[0]].get(key[1])
            except Exception as ex:
                return Violation('reading %s.%s raised %s: %s after %s' % (key[0], key[1], type(ex).__name__, ex, json.dumps(case)),
                                 kind='raise-' + type(ex).__name__)
            if not same(g, e) or not same(g2, e):
                return Violation('%s.%s: expected %r, read back %r / get %r\nafter %s' % (key[0], key[1], e, g, g2, json.dumps(case)))
            cx.outcome(repr(g))
    cx.state(json.dumps(sorted((str(k), v) for k, v in m.v.items() if v != DEFAULTS[k]), default=str))
    cx.trace()
    v, _ = compare(c, m, case)
    return v


def interp_cases(tier):
    q = tier == 'quick'
    names = sorted(FIRST)
    dst = [('general', 'theme'), ('document', 'title'), ('files', 'filename'), ('general', 'plugins'), ('html5', 'extra-css')]
    # a reference to every option by name, from a string and from a list option, in every layer order
    for name in names:
        src = FIRST[name]
        for d in dst:
            if d == src or TYPES[src] == 'DictOption':
                continue
            conv = 'd' if TYPES[src] == 'IntegerOption' else 's'
            for text in ('%%(%s)%s' % (name, conv), 'a-%%(%s)%s-%%%%-%%(%s)%s' % (name, conv, name, conv)):
                lst = TYPES[d] == 'MultiStringOption'
                val = [text, 'plain', '50%%'] if lst else text
                ops = [['set', list(d), val], ['read', list(d)]]
                for t, v in values(src):
                    ops += [['file', list(src), t, v], ['read', list(d)], ['read', list(src)]]
                ops += [['set', list(src), v], ['read', list(d)]]
                yield ops
    # chains: a -> b -> c
    s3 = [('general', 'theme'), ('general', 'kpsewhich'), ('document', 'title'), ('files', 'directory'), ('html5', 'theme-css')]
    for a, b, c in itertools.permutations(s3, 3):
        for texts in itertools.product(['%(X)s', 'p%(X)sq%%', '%(X)s%(X)s'], repeat=2):
            yield [['set', list(a), texts[0].replace('X', b[1])], ['set', list(b), texts[1].replace('X', c[1])],
                   ['read', list(a)], ['set', list(c), 'z%%'], ['read', list(a)], ['file', list(b), 'k', 'k'], ['read', list(a)],
                   ['read', list(c)]]
    # every value of every option set directly and read back
    for key in KEYS:
        for t, v in values(key, True):
            yield [['set', list(key), v], ['read', list(key)], ['read', list(key)]]
    for txt in ('%%', '%%%%', '%%x', 'x%%', '%%(theme)s', '%%%(theme)s', '%(theme)s%%', '%%s', '%%d'):
        for d in dst:
            if d == ('general', 'theme'):
                continue
            val = [txt, txt] if TYPES[d] == 'MultiStringOption' else txt
            yield [['set', list(d), val], ['read', list(d)]]
            yield [['file', list(d), txt, [txt] if isinstance(val, list) else txt], ['read', list(d)]]


def spaces(tier):
    return [
        FnSpace('single', 'every option x all layerings over 3 files and the command line (2 values each)', lambda: single_cases(tier), run_layers),
        FnSpace('values', 'every value form of every option, in a file and on the command line, via API and via client.main',
                lambda: value_cases(tier), run_layers),
        FnSpace('pairs', 'all ordered pairs of options in different layers', lambda: pair_cases(tier), run_layers),
        FnSpace('interpolation', 'set/read/file histories with references between options', lambda: interp_cases(tier), run_interp),
    ]

r"""C20: label data survives a round trip and never blocks processing.

roundtrip  documents with up to three labelled objects are processed by the real
           pipeline (Compile.run), then another document refers to all their
           labels - by the saved file in the directory, or by \externaldocument.
           Numbers and titles are those of the parsed first document, locations
           must exist in its rendered files.
damage     every truncation, every bit flip, every damaged window of a saved
           file: restoring yields labels that were saved, unchanged, or nothing;
           the next save yields the complete file.
foreign    files that were never saved by plasTeX, through the whole pipeline.
histories  all sequences of saving, damaging, restoring across two renderers,
           against a model of the file.
others     processing a document is not changed by the labels that were restored.
"""
import contextlib
import html
import io
import itertools
import logging
import os
import pickle
import re
import shutil
import string
import tempfile
import types

from mc import plas
from mc.core import FnSpace, Violation

PROP = 'C20'
LEVEL = 'model_checking'
RULE = ('a state is the content of the saved file together with the labels restored from it; a transition is one save, restore or damage '
        'step; distinct_nontrivial counts distinct (labelled objects, renderer, damage, result) combinations')
ASSUMPTIONS = [
    'the value of a label is what the first document shows: number and title of the parsed node, a location that exists in the rendered files',
    'titles are compared as text (markup removed); titles with mathematics are not compared',
    'damage that keeps the labels readable must keep them unchanged; a damaged file may lose all its labels, also those of the other renderer',
    'burst damage is confined to windows of four bytes',
    'labels of starred sections have no number; labels without an object are not saved',
    'the document itself is never restored from its own file',
]


# ---------------------------------------------------------------- pipeline

_doc = []


def _hook():
    from plasTeX import Compile
    if getattr(Compile, '_mc20', None) is None:
        orig = Compile.parse

        def parse(filename, config):
            tex = orig(filename, config)
            _doc.append(tex.ownerDocument)
            return tex
        Compile._mc20 = orig
        Compile.parse = parse


def setup():
    plas.preload('plasTeX.Packages.article', 'plasTeX.Packages.book', 'plasTeX.Packages.hyperref', 'plasTeX.Packages.xr',
                 'plasTeX.Compile', 'plasTeX.Renderers.HTML5', 'plasTeX.Renderers.XHTML', 'plasTeX.Renderers.Text')
    _hook()


def config(rend, split=0, base=''):
    from plasTeX.Config import defaultConfig
    c = defaultConfig()
    if rend == 'HTML5':
        from plasTeX.Renderers.HTML5.Config import addConfig
        addConfig(c)
    c['general']['renderer'] = rend
    c['general']['copy-theme-extras'] = False
    c['images']['enabled'] = False
    c['images']['imager'] = 'none'
    c['images']['vector-imager'] = 'none'
    c['files']['split-level'] = split
    c['document']['base-url'] = base
    return c


def run(d, name, src, rend, split=0, base='', dirs=()):
    """Process a document as the command line does; returns the document."""
    from plasTeX import Compile
    plas.fresh()
    with open(os.path.join(d, name + '.tex'), 'w', encoding='utf-8') as f:
        f.write(src)
    old = os.getcwd()
    del _doc[:]
    from plasTeX.DOM import Node
    try:
        os.chdir(d)
        with contextlib.redirect_stdout(io.StringIO()):
            c = config(rend, split, base)
            c['general']['paux-dirs'] = list(dirs)
            Compile.run(name + '.tex', c)
    finally:
        os.chdir(old)
        if hasattr(Node, 'renderer'):
            # an exception left the rendering mix-ins behind
            from plasTeX.Renderers import unmix
            r = Node.renderer
            try:
                del Node.renderer
                unmix(Node, type(r).renderableClass)
            except Exception:
                pass
    return _doc[-1]


def scratch():
    return tempfile.mkdtemp(prefix='mc20-')


# ---------------------------------------------------------------- round trip

TITLES = ['Plain', r'A \& \emph{b} c', r'Caf\'e --- x', r'\textbf{p} $x<y$', 'a<b>c']
LABELS = ['one', 'sec:two', 'b b', 'x_1', 'é', 'A/B', 'a.b-c', "o'k"]
OBJECTS = {
    'section': r'\section{%(t)s}\label{%(l)s} w',
    'sectionin': r'\section{%(t)s\label{%(l)s}} w',
    'star': r'\section*{%(t)s}\label{%(l)s} w',
    'short': r'\section[s]{%(t)s}\label{%(l)s} w',
    'subsection': r'\subsection{%(t)s}\label{%(l)s} w',
    'subsubsection': r'\subsubsection{%(t)s}\label{%(l)s} w',
    'figure': r'\begin{figure}x\caption{%(t)s}\label{%(l)s}\end{figure}',
    'table': r'\begin{table}x\caption{%(t)s\label{%(l)s}}\end{table}',
    'equation': r'\begin{equation}a\label{%(l)s}\end{equation}',
    'eqnarray': r'\begin{eqnarray}a&=&b\\ c&=&d\label{%(l)s}\end{eqnarray}',
    'item': r'\begin{enumerate}\item p\item q\label{%(l)s} r\end{enumerate}',
    'theorem': r'\begin{thm}\label{%(l)s}w\end{thm}',
    'named': r'\begin{thm}[%(t)s]\label{%(l)s}w\end{thm}',
    'counter': r'\refstepcounter{zz}\label{%(l)s} w',
    'twice': r'\section{%(t)s}\label{%(l)s}\label{%(l)s.z} w',
    'chapter': r'\chapter{%(t)s}\label{%(l)s} w',
    'paragraph': r'\paragraph{%(t)s}\label{%(l)s} w',
}
HEAD = '\\documentclass{%s}\\newtheorem{thm}{Thm}\\newcounter{zz}\\begin{document}\nstart\n\n%s\n\nend\n\\end{document}\n'
FILES = {}


def words(s, rend=None):
    if rend != 'Text':
        s = html.unescape(re.sub(r'<[^>]*>', '', s))
    s = s.replace('\xad', '')
    return ' '.join(s.split())


def plain(frag):
    if frag is None:
        return None
    return ' '.join(str(getattr(frag, 'textContent', frag)).split())


def run_roundtrip(case, cx):
    cls, objs, ti, li, rend, split, base = case
    parts, names = [], []
    for i, o in enumerate(objs):
        l = LABELS[(li + i) % len(LABELS)]
        parts.append(OBJECTS[o] % {'t': TITLES[(ti + i) % len(TITLES)], 'l': l})
        names.append(l)
        if o == 'twice':
            names.append(l + '.z')
    parts.append(' '.join('\\ref{%s}' % l for l in names))
    src = HEAD % (cls, '\n\n'.join(parts))
    d = scratch()
    try:
        doc = run(d, 'A', src, rend, split, base)
        want = {}
        for l in names:
            n = doc.context.labels.get(l)
            if n is None:
                return Violation('%r: the label %r has no object' % (src, l))
            title = getattr(n, 'title', None)
            text = plain(title)
            if any('$' in t and plainmath(title) for t in TITLES):
                text = Ellipsis
            want[l] = (plain(getattr(n, 'ref', None)), text)
        cx.state((src, rend, split, base))
        cx.trace(1)
        if not os.path.exists(os.path.join(d, 'A.paux')):
            return Violation('%r: no label data was saved' % src)
        # another document, which finds the file in its directory ...
        refs = ''.join('(\\ref{%s})' % l for l in names)
        b = '\\documentclass{article}\\begin{document}%s\\section{Own}\\label{own}\\ref{own}\\end{document}\n' % refs
        docb = run(d, 'B', b, rend, 0)
        cx.trans(2)
        err = compare(d, doc, docb.context.labels, want, rend, base, names, '')
        if err is None:
            err = shown(d, rend, names, want)
        if err is None:
            # ... and one that names it, with a prefix
            e = '\\documentclass{article}\\usepackage{xr}\\externaldocument[P-]{../A}\\begin{document}%s\\end{document}\n' % \
                ''.join('(\\ref{P-%s})' % l for l in names)
            os.mkdir(os.path.join(d, 'E'))
            doce = run(os.path.join(d, 'E'), 'E', e, rend, 0)
            cx.trans()
            err = compare(d, doc, doce.context.labels, want, rend, base, names, 'P-')
        cx.outcome(('rt', cls, tuple(objs), rend, split, bool(base)))
        cx.count('round_trips', 2)
        if err:
            return Violation('%r rendered with %s (split level %s): %s' % (src, rend, split, err))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def plainmath(title):
    try:
        return len(title.getElementsByTagName('math')) > 0
    except Exception:
        return False


def attr(n, name):
    if isinstance(n, dict):
        return n.get(name)
    if name == 'url':
        return getattr(n, 'urloverride', None)
    return getattr(n, name, None)


def compare(d, doc, labels, want, rend, base, names, prefix):
    got = {k for k in labels if k.startswith(prefix) and k != 'own'}
    expect = {prefix + l for l in names}
    if got != expect:
        return 'the labels %s were saved but %s were restored' % (sorted(expect), sorted(got))
    for l in names:
        n = labels[prefix + l]
        num, title = want[l]
        v = attr(n, 'ref')
        v = None if v is None else words(str(v), rend)
        if v != num:
            return 'the label %r has the number %r but %r is restored' % (l, num, v)
        if title is not Ellipsis:
            v = attr(n, 'title')
            v = None if v is None else words(str(v), rend)
            if v != title:
                return 'the label %r has the title %r but %r is restored' % (l, title, v)
        url = attr(n, 'url')
        if not url:
            return 'the label %r is restored without a location' % l
        url = str(url)
        if base:
            if not url.startswith(base + '/'):
                return 'the label %r has the location %r, not below %r' % (l, url, base)
            url = url[len(base) + 1:]
        fname, _, frag = url.partition('#')
        path = os.path.join(d, 'A', fname)
        if not os.path.isfile(path):
            return 'the label %r has the location %r, but there is no such file' % (l, url)
        if rend != 'Text' and num is not None:
            # the references of the document itself lead to the same place
            hrefs = set()
            for f in os.listdir(os.path.join(d, 'A')):
                if f.endswith('.html'):
                    with open(os.path.join(d, 'A', f), encoding='utf-8') as fh:
                        hrefs |= {html.unescape(x) for x in re.findall(r'<a\b[^>]*?href="([^"]*)"', fh.read())}
            if (base + '/' if base else '') + url not in hrefs:
                return 'the label %r has the location %r, but the document itself refers to %s' % (l, url, sorted(hrefs))
        if frag and frag != doc.context.labels[l].id:
            return 'the label %r has the location %r, but its object is %r' % (l, url, doc.context.labels[l].id)
        if not frag and not filenode(doc, l, fname):
            return 'the label %r has the location %r, which is not its object' % (l, url)
    return None


def filenode(doc, l, fname):
    """Only sectioning units have files of their own."""
    return getattr(doc.context.labels.get(l), 'blockType', False) and doc.context.labels[l].level < 100


def shown(d, rend, names, want):
    """The references of the second document show the numbers."""
    ext = 'txt' if rend == 'Text' else 'html'
    out = ''
    for f in sorted(os.listdir(os.path.join(d, 'B'))):
        if f.endswith('.' + ext):
            with open(os.path.join(d, 'B', f), encoding='utf-8') as fh:
                out += fh.read()
    got = re.findall(r'\(([^()]*)\)', words(out.split('<body')[-1], rend))
    expect = [want[l][0] for l in names]
    for g, e in zip(got, expect):
        if e is None:
            continue
        if g.strip() != e:
            return 'the references to %s show %s instead of %s' % (names, got, expect)
    if len(got) < len(expect):
        return 'the references to %s show %s instead of %s' % (names, got, expect)
    return None


def cases_roundtrip(tier):
    art = [o for o in OBJECTS if o != 'chapter']
    out = []
    i = 0
    rends = ['HTML5', 'XHTML', 'Text']
    for o in art:
        for ti in range(len(TITLES)):
            for r in rends:
                out.append(('article', (o,), ti, i, r, 0 if ti % 2 else 2, '' if ti % 3 else '../A'))
                i += 1
    for a, b in itertools.product(art, repeat=2):
        out.append(('article', (a, b), i % 5, i % 8, rends[i % 3], (0, 2, 1)[i % 3 if i % 2 else 0], ('', '../A')[i % 2]))
        i += 1
    for a, b in itertools.product([o for o in OBJECTS if o != 'star'], repeat=2):
        out.append(('book', ('chapter', a, b), i % 5, i % 8, rends[i % 2], (0, 1, 2)[i % 3], ('', '../A')[i % 2]))
        i += 1
    if tier != 'quick':
        for a, b, c in itertools.product(art, repeat=3):
            out.append(('article', (a, b, c), i % 5, i % 8, rends[i % 3], (0, 2, 1)[i % 3 if i % 2 else 0], ('', '../A')[i % 2]))
            i += 1
    return out


# ---------------------------------------------------------------- damage

SETS = {
    'none': r'\documentclass{article}\begin{document}x\end{document}',
    'one': r'\documentclass{article}\begin{document}\section{T}\label{a}\end{document}',
    'many': r'\documentclass{article}\begin{document}\section{T \& U}\label{a}\subsection{V}\label{b}'
            r'\begin{equation}x\label{c}\end{equation}\begin{enumerate}\item x\label{d d}\end{enumerate}\end{document}',
    'other': r'\documentclass{article}\begin{document}\section{N}\label{n}\section{M}\label{a}\end{document}',
}


def saved(doc, rtype='HTML5', path=None):
    """What a save into an empty directory yields."""
    d = scratch()
    try:
        p = os.path.join(d, 'x.paux')
        doc.context.persist(p, rtype)
        with open(p, 'rb') as f:
            data = f.read()
        return data
    finally:
        shutil.rmtree(d, ignore_errors=True)


def load(data):
    return pickle.loads(data)


_cache = {}


def material():
    if not _cache:
        d = scratch()
        try:
            docs = {k: run(d, k, src, 'HTML5') for k, src in sorted(SETS.items())}
            run(d, 'many', SETS['many'], 'XHTML')
            with open(os.path.join(d, 'many.paux'), 'rb') as f:
                _cache['file'] = f.read()
            with open(os.path.join(d, 'one.paux'), 'rb') as f:
                _cache['small'] = f.read()
        finally:
            shutil.rmtree(d, ignore_errors=True)
        _cache['docs'] = docs
        _cache['saved'] = {k: load(saved(v)).get('HTML5') for k, v in docs.items()}
        _cache['dir'] = scratch()
        import atexit
        atexit.register(shutil.rmtree, _cache['dir'], True)
    return _cache


def variants(data, kind, lo, hi):
    """The damaged files of one kind with positions lo..hi."""
    n = len(data)
    if kind == 'truncate':
        for i in range(lo, min(hi, n)):
            yield ('truncated to %d bytes' % i, data[:i])
    elif kind == 'flip':
        for i in range(lo, min(hi, n)):
            for b in range(8):
                yield ('bit %d of byte %d flipped' % (b, i), data[:i] + bytes([data[i] ^ (1 << b)]) + data[i + 1:])
    elif kind == 'burst':
        for i in range(lo, min(hi, n)):
            for w in (1, 2, 4):
                for name, f in (('zeroed', lambda x: 0), ('inverted', lambda x: x ^ 255), ('bit 0 flipped', lambda x: x ^ 1)):
                    s = bytes(f(x) for x in data[i:i + w])
                    if s != data[i:i + w]:
                        yield ('bytes %d-%d %s' % (i, i + w - 1, name), data[:i] + s + data[i + w:])
    elif kind == 'cut':
        for i in range(lo, min(hi, n)):
            for w in (1, 3, 16):
                yield ('bytes %d-%d missing' % (i, i + w - 1), data[:i] + data[i + w:])
    elif kind == 'tail':
        for i in range(lo, min(hi, n)):
            # an interrupted write over a longer file
            yield ('%d bytes of the new file, then the old one' % i, data[:i] + data[:max(0, n - i)])


DKINDS = ['truncate', 'flip', 'burst', 'cut', 'tail']


def cases_damage(tier):
    sizes = {'small': 600, 'file': 1800}
    out = []
    for which, n in sizes.items():
        for kind in DKINDS:
            for lo in range(0, n, 40):
                out.append((which, kind, lo, lo + 40))
    return out


def labelset(labels):
    return {k: {a: attr(n, a) for a in ('ref', 'title', 'url', 'id', 'captionName')} for k, n in labels.items()}


def entry(v):
    return {a: v.get(a) for a in ('ref', 'title', 'url', 'id', 'captionName')}


def context():
    from plasTeX import TeXDocument
    plas.fresh()
    return TeXDocument(config=config('HTML5')).context


def clip(v):
    return {k: x for k, x in v.items() if x is not None and x != ''}


def subset(got, ref):
    """None, or what is wrong with the restored labels."""
    for k, v in got.items():
        if k not in ref:
            return 'the label %r was never saved' % k
        if clip(v) != clip(entry(ref[k])):
            return 'the label %r is restored as %r but was %r' % (k, clip(v), clip(entry(ref[k])))
    return None


def judge(path, orig, docs, cx, ctx):
    """Restore from, then save over, the file at path."""
    m = material()
    for r in ('HTML5', 'XHTML', 'Text'):
        ctx.labels.clear()
        wou = ctx.warnOnUnrecognized
        try:
            ctx.restore(path, r)
        except Exception as e:
            return 'restoring fails with %s: %s' % (type(e).__name__, e)
        cx.trans()
        err = subset(labelset(ctx.labels), orig.get(r, {}))
        if err:
            return err
        if ctx.warnOnUnrecognized != wou:
            return 'warnings about unknown commands are %s after restoring' % ctx.warnOnUnrecognized
    from plasTeX.Packages import xr
    try:
        xr.load_paux(path)
    except Exception as e:
        return '\\externaldocument fails with %s: %s' % (type(e).__name__, e)
    name = docs
    try:
        m['docs'][name].context.persist(path, 'HTML5')
    except Exception as e:
        return 'saving fails with %s: %s' % (type(e).__name__, e)
    cx.trans()
    try:
        with open(path, 'rb') as f:
            new = pickle.load(f)
    except Exception as e:
        return 'the file cannot be loaded after the next save: %s: %s' % (type(e).__name__, e)
    if new.get('HTML5') != m['saved'][name]:
        return 'the next save yields %r instead of %r' % (new.get('HTML5'), m['saved'][name])
    for r, v in new.items():
        if r != 'HTML5':
            for k, e in v.items():
                if orig.get(r, {}).get(k) != e:
                    return 'the next save yields the label %r of %s as %r' % (k, r, e)
    ctx.labels.clear()
    ctx.restore(path, 'HTML5')
    got = labelset(ctx.labels)
    if set(got) != set(m['saved'][name]) or subset(got, m['saved'][name]):
        return 'the labels restored after the next save are %r instead of %r' % (got, m['saved'][name])
    return None


def run_damage(case, cx):
    which, kind, lo, hi = case
    m = material()
    data = m[which]
    orig = load(data)
    path = os.path.join(m['dir'], 'x.paux')
    ctx = context()
    for i, (what, bad) in enumerate(variants(data, kind, lo, hi)):
        with open(path, 'wb') as f:
            f.write(bad)
        cx.state((which, bad))
        cx.count('damaged_files')
        err = judge(path, orig, ('other', 'many', 'none')[i % 3], cx, ctx)
        if err:
            return Violation('label data of %r, %s: %s' % (SETS['many' if which == 'file' else 'one'], what, err), case=[which, kind, lo, hi])
        cx.outcome(('damage', which, kind, lo // 40))


# ---------------------------------------------------------------- foreign files

class Foreign(object):
    pass


def foreign():
    e = {'ref': '1', 'title': 'T', 'id': 'a', 'url': 'index.html#a', 'macroName': 'section'}
    p = pickle.dumps
    out = {
        'empty': b'', 'newline': b'\n', 'text': b'hello world\n', 'html': b'<html></html>', 'nul': b'\0' * 64, 'latin1': bytes(range(256)),
        'stop': b'.', 'xml': b'<?xml version="1.0"?>', 'gzip': b'\x1f\x8b\x08\0\0\0', 'protocol 9': b'\x80\x09.', 'json': b'{"HTML5": {}}',
    }
    values = [None, 1, 1.5, 'x', b'x', [], ['HTML5'], (), {}, {1: 2}, {'HTML5': None}, {'HTML5': 1}, {'HTML5': []}, {'HTML5': ['a']},
              {'HTML5': 'x'}, {'HTML5': {}}, {'HTML5': {'a': None}}, {'HTML5': {'a': 1}}, {'HTML5': {'a': []}}, {'HTML5': {'a': 'xy'}},
              {'HTML5': {1: e}}, {'HTML5': {None: e}}, {None: {'a': e}}, {'HTML5': {'a': {}}}, {'HTML5': {'a': {1: 2}}},
              {'HTML5': {'a': {'macroName': None}}}, {'HTML5': {'a': {'macroName': 1}}}, {'HTML5': {'a': {'macroName': 'nosuchmacro', 'ref': '1'}}},
              {'HTML5': {'a': dict(e, macroName='')}}, {'HTML5': {'a': dict(e, macroName='par')}}, {'HTML5': {'a': dict(e, macroName='def')}},
              {'HTML5': {'a': dict(e, macroName='active::~')}}, {'HTML5': {'a': dict(e, ref=None)}}, {'HTML5': {'a': dict(e, ref=7)}},
              {'HTML5': {'a': dict(e, title=['x'])}}, {'HTML5': {'a': dict(e, url=None)}}, {'HTML5': {'a': dict(e, url=3)}},
              {'HTML5': {'a': dict(e, id=None)}}, {'HTML5': {'a': dict(e, id='')}}, {'HTML5': {'a': dict(e, id=5)}},
              {'HTML5': {'a': dict(e, **{'': 'x'})}}, {'HTML5': {'a': dict(e, parentNode='x')}}, {'HTML5': {'a': dict(e, textContent='x')}},
              {'HTML5': {'a': dict(e, ownerDocument='x')}}, {'HTML5': {'a': dict(e, nodeName='x')}}, {'HTML5': {'a': dict(e, attributes='x')}},
              {'HTML5': {'': e}}, {'HTML5': {' a ': e}}, {'HTML5': {'a': e, 'b': None}}, {'HTML5': {'b': None, 'a': e}},
              {'XHTML': {'a': e}}, {'XHTML': None}, {'XHTML': {'a': e}, 'HTML5': None}, [e], {'a': e}, {'HTML5': {'a': types.SimpleNamespace()}},
              {'HTML5': types.SimpleNamespace()}, types.SimpleNamespace(), [[[[[]]]]]]
    for i, v in enumerate(values):
        for proto in (0, 2, 4):
            out['pickle %d protocol %d of %.80r' % (i, proto, v)] = p(v, proto)
    # classes of another installation, values whose construction fails
    out['missing module'] = b'cnosuchmodule\nThing\n.'
    out['missing class'] = b'cplasTeX\nNoSuchThing\n.'
    out['failing constructor'] = b'cbuiltins\nint\n(Vx\ntR.'
    out['recursive'] = b"(dp0\nV0\ng0\ns."
    out['recursive labels'] = b"(dp0\nVHTML5\ng0\ns."
    return out


def keysfor(data):
    return sorted(data)


def run_foreign(case, cx):
    name, place = case
    if name in ('directory', 'dangling', 'fifo'):
        data = None
    else:
        data = foreign()[name]
    d = scratch()
    try:
        path = os.path.join(d, {'another': 'A.paux', 'own': 'B.paux', 'named': 'A.paux'}[place])
        if name == 'directory':
            os.mkdir(path)
        elif name == 'dangling':
            os.symlink(os.path.join(d, 'nowhere'), path)
        else:
            with open(path, 'wb') as f:
                f.write(data)
        b = ('\\documentclass{article}%s\\begin{document}(\\ref{a})\\section{O}\\label{own}(\\ref{own})(\\ref{P-a})\\end{document}\n' %
             (r'\usepackage{xr}\externaldocument[P-]{A}[http://x/]' if place == 'named' else ''))
        try:
            run(d, 'B', b, 'HTML5')
        except Exception as e:
            return Violation('a file with the content %s (%s) makes processing fail with %s: %s' % (name, place, type(e).__name__, e))
        cx.state((name, place))
        cx.trans(2)
        cx.outcome(('foreign', name, place))
        cx.count('foreign_files')
        with open(os.path.join(d, 'B', 'index.html'), encoding='utf-8') as f:
            out = re.findall(r'\(([^()]*)\)', words(f.read().split('<body')[-1]))
        if len(out) < 3 or out[1].strip() != '1':
            return Violation('with a file with the content %s (%s) the references show %s' % (name, place, out))
        own = os.path.join(d, 'B.paux')
        if name == 'directory' and place == 'own':
            return None
        try:
            with open(own, 'rb') as f:
                got = pickle.load(f)['HTML5']['own']['ref']
        except Exception as e:
            return Violation('after a file with the content %s (%s) the next save cannot be loaded: %s: %s' % (name, place, type(e).__name__, e))
        if str(got) != '1':
            return Violation('after a file with the content %s (%s) the next save has the number %r' % (name, place, got))
        # and the other way: the restored file in a third document
        ctx = context()
        ctx.restore(own, 'HTML5')
        if set(ctx.labels) != {'own'}:
            return Violation('after a file with the content %s (%s) the next save has the labels %s' % (name, place, sorted(map(str, ctx.labels))))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def cases_foreign(tier):
    names = sorted(foreign()) + ['directory', 'dangling']
    return [(n, p) for n in names for p in ('another', 'own', 'named')]


# ---------------------------------------------------------------- histories

OPS = [('save', 'HTML5', 'one'), ('save', 'HTML5', 'many'), ('save', 'XHTML', 'other'), ('save', 'XHTML', 'one'), ('save', 'HTML5', 'none'),
       ('truncate', 2), ('truncate', 1), ('flip', 3), ('flip', 2), ('empty',), ('foreign',), ('remove',), ('keep',)]


def run_history(case, cx):
    m = material()
    path = os.path.join(m['dir'], 'h.paux')
    if os.path.exists(path):
        os.remove(path)
    ctx = context()
    model, exact = {}, True
    log = []
    for i in case:
        op = OPS[i]
        log.append(' '.join(map(str, op)))
        exists = os.path.exists(path)
        if op[0] == 'save':
            try:
                m['docs'][op[2]].context.persist(path, op[1])
            except Exception as e:
                return Violation('%s: saving fails with %s: %s' % (', '.join(log), type(e).__name__, e))
            if not exact:
                # whatever survived of the other renderer
                try:
                    with open(path, 'rb') as f:
                        now = pickle.load(f)
                except Exception as e:
                    return Violation('%s: the saved file cannot be loaded: %s' % (', '.join(log), e))
                for r in set(now) - {op[1]}:
                    for k, v in now[r].items():
                        if model.get(r, {}).get(k) != v:
                            return Violation('%s: the save invents the label %r of %s' % (', '.join(log), k, r))
                model = {r: dict(now.get(r, {})) for r in now}
                exact = True
            model = dict(model)
            model[op[1]] = dict(m['saved'][op[2]])
        elif op[0] in ('truncate', 'flip'):
            if not exists:
                continue
            with open(path, 'rb') as f:
                data = f.read()
            if not data:
                continue
            if op[0] == 'truncate':
                data = data[:len(data) * op[1] // 3]
            else:
                p = len(data) // op[1]
                data = data[:p] + bytes([data[p] ^ 4]) + data[p + 1:]
            with open(path, 'wb') as f:
                f.write(data)
            exact = False
        elif op[0] == 'empty':
            open(path, 'wb').close()
            model, exact = {}, True
        elif op[0] == 'foreign':
            with open(path, 'wb') as f:
                f.write(pickle.dumps([1, 2]))
            model, exact = {}, True
        elif op[0] == 'remove':
            if exists:
                os.remove(path)
            model, exact = {}, True
        cx.trans()
        for r in ('HTML5', 'XHTML'):
            ctx.labels.clear()
            try:
                ctx.restore(path, r)
            except Exception as e:
                return Violation('%s: restoring fails with %s: %s' % (', '.join(log), type(e).__name__, e))
            cx.trans()
            got = labelset(ctx.labels)
            ref = model.get(r, {})
            err = subset(got, ref)
            if err is None and exact and set(got) != set(ref):
                err = 'the labels %s are restored instead of %s' % (sorted(got), sorted(ref))
            if err:
                return Violation('%s: %s: %s' % (', '.join(log), r, err))
        cx.state((exact, tuple(sorted((r, tuple(sorted(v))) for r, v in model.items())), op))
    cx.outcome(('history', exact, tuple(sorted((r, tuple(sorted(v))) for r, v in model.items())), tuple(case[-2:])))
    cx.count('histories')


def cases_history(tier):
    n = 4 if tier == 'quick' else 5
    return [p for p in itertools.product(range(len(OPS) - 1), repeat=n)]


# ---------------------------------------------------------------- sessions

RUNS = [(n, v, r) for n, v in (('A', 0), ('A', 1), ('B', 0)) for r in ('HTML5', 'XHTML')]
VERSIONS = {
    ('A', 0): [('a1', '1', 'First'), ('a2', '2', 'Second')],
    ('A', 1): [('a2', '1', 'Second'), ('a3', '2', 'Third')],
    ('B', 0): [('b1', '1', 'Bfirst'), ('a3', '2', 'Bthird')],
}


def run_session(case, cx):
    layout, seq = case
    import glob
    orig = glob.glob
    d = scratch()
    try:
        # the order of directory listings is up to the file system
        glob.glob = lambda *a, **k: sorted(orig(*a, **k), reverse=layout == 'reversed')
        dirs = {'A': d, 'B': d}
        if layout == 'apart':
            dirs = {n: os.path.join(d, n) for n in 'AB'}
            for p in dirs.values():
                os.mkdir(p)
        model = {}
        log = []
        for i in seq:
            n, v, r = RUNS[i]
            log.append('%s%d %s' % (n, v, r))
            body = ''.join(r'\section{%s}\label{%s}' % (t, l) for l, num, t in VERSIONS[n, v])
            refs = ''.join('(\\ref{%s})' % l for l in ('a1', 'a2', 'a3', 'b1'))
            src = r'\documentclass{article}\begin{document}%s%s\end{document}' % (body, refs)
            doc = run(dirs[n], n, src, r, 0, '../' + n, [dirs['B' if n == 'A' else 'A']] if layout == 'apart' else ())
            own = {l for l, num, t in VERSIONS[n, v]}
            model[n, r] = {l: (num, t) for l, num, t in VERSIONS[n, v]}
            want = {l: e for l, e in model.get(('B' if n == 'A' else 'A', r), {}).items() if l not in own}
            for l in own:
                if getattr(doc.context.labels.get(l), 'parentNode', None) is None:
                    return Violation('%s: the label %r of the document itself is another document\'s' % (log, l))
            got = {}
            for l, node in doc.context.labels.items():
                if l not in own:
                    url = str(attr(node, 'url'))
                    got[l] = (words(str(attr(node, 'ref'))), words(str(attr(node, 'title'))))
                    if url.split('/')[1:2] != ['B' if n == 'A' else 'A'] or not url.endswith('#' + l):
                        return Violation('%s: the label %r is restored with the location %r' % (log, l, url))
            if got != want:
                return Violation('%s (files %s): the labels %s of the other document are restored instead of %s' % (log, layout, got, want))
            with open(os.path.join(dirs[n], n, 'index.html'), encoding='utf-8') as f:
                shown = re.findall(r'\(([^()]*)\)', words(f.read().split('<body')[-1]))
            expect = [{**want, **model[n, r]}.get(l, ('??',))[0] for l in ('a1', 'a2', 'a3', 'b1')]
            for s, e in zip(shown[-4:], expect):
                if e != '??' and s.strip() != e:
                    return Violation('%s: the references show %s instead of %s' % (log, shown[-4:], expect))
            cx.trans(2)
            cx.state((layout, n, r, tuple(sorted((k, tuple(sorted(x))) for k, x in model.items()))))
        cx.trace(1)
        cx.outcome(('session', layout, tuple(seq)))
    finally:
        glob.glob = orig
        shutil.rmtree(d, ignore_errors=True)


def cases_session(tier):
    n = 3 if tier == 'quick' else 4
    return [(lay, p) for lay in ('together', 'reversed', 'apart') for p in itertools.product(range(len(RUNS)), repeat=n)]


# ---------------------------------------------------------------- others

LATER = {
    'newtheorem': r'\newtheorem{X}{N}\begin{document}\begin{X}a\end{X}\begin{X}b\label{q}\end{X}\ref{q}\end{document}',
    'newcommand': r'\newcommand{\X}[1]{[#1]}\begin{document}\X{u}v\end{document}',
    'providecommand': r'\providecommand{\X}[1]{[#1]}\begin{document}\X{u}v\end{document}',
    'newenvironment': r'\newenvironment{X}{(}{)}\begin{document}\begin{X}u\end{X}v\end{document}',
    'def': r'\def\X#1{[#1]}\begin{document}\X{u}v\end{document}',
    'ifundefined': r'\makeatletter\begin{document}\@ifundefined{X}{yes}{no}\end{document}',
    'ifx': r'\begin{document}\ifx\X\undefined yes\else no\fi\end{document}',
    'let': r'\let\Y=\X\begin{document}\ifx\Y\relax r\else u\fi\end{document}',
    'newif': r'\newif\ifX\begin{document}\ifX a\else b\fi\Xtrue\ifX a\else b\fi\end{document}',
    'newcounter': r'\newcounter{X}\begin{document}\stepcounter{X}\theX\end{document}',
    'unknown': r'\begin{document}\X{u}v\end{document}',
    'ownlabel': r'\begin{document}\section{S}\section{T}\label{a}\ref{a}\end{document}',
    'ownlabel2': r'\begin{document}\section{S}\ref{a}\section{T}\label{a}\end{document}',
    'sectioning': r'\begin{document}\section{S}p\subsection{U}q\begin{enumerate}\item r\end{enumerate}\begin{equation}s\end{equation}\end{document}',
}
EARLIER = ['X', 'section', 'subsection', 'item', 'equation', 'caption', 'thm', 'Macro', 'figure', 'q', 'newcommand', 'begin']


def run_other(case, cx):
    name, later = case
    body = r'\documentclass{article}' + LATER[later].replace('X', 'X')
    from plasTeX import TeXDocument
    from plasTeX.TeX import TeX
    m = material()
    path = os.path.join(m['dir'], 'o.paux')
    e = {'ref': '7', 'title': 'T', 'id': 'a', 'url': 'x.html#a', 'macroName': name}
    out = []
    for restore in (False, True):
        plas.fresh()
        doc = TeXDocument(config=config('HTML5'))
        if restore:
            with open(path, 'wb') as f:
                pickle.dump({'HTML5': {'a': e, 'zz': dict(e, id='zz')}}, f)
            doc.context.restore(path, 'HTML5')
            if set(doc.context.labels) != {'a', 'zz'}:
                return Violation('labels of %s objects: %s restored' % (name, sorted(doc.context.labels)))
        tex = TeX(doc)
        tex.input(body)
        tex.parse()
        x = doc.toXML()
        x = re.sub(r'\b(id|idref|ref|href)="[^"]*"', '', x)
        out.append(re.sub(r'\ba\d{10}\b', 'ID', x))
        cx.trans()
    if out[0] != out[1]:
        return Violation('%r yields %r, but %r when a label of another document names a %s' % (body, out[0][-300:], out[1][-300:], name))
    cx.state((name, later))
    cx.outcome(('other', name, later))


def cases_other(tier):
    return [(n, l) for n in EARLIER for l in LATER]


def spaces(tier):
    return [
        FnSpace('roundtrip', 'all sequences of %s labelled objects (16 kinds, article and book), titles and label names in rotation, 3 renderers, '
                'split levels 0-2, with and without base-url; restored from the directory and by \\externaldocument' %
                ('up to 2' if tier == 'quick' else 'up to 3'), lambda: cases_roundtrip(tier), run_roundtrip, setup, timeout=60),
        FnSpace('damage', 'two saved files (one label; four labels for each of two renderers): every truncation, every single bit flip, every window of '
                '1, 2, 4 bytes zeroed/inverted/flipped, every hole of 1, 3, 16 bytes, every overwritten prefix', lambda: cases_damage(tier), run_damage, setup, timeout=120),
        FnSpace('foreign', 'all foreign files of a table as the file of another document, of the document itself and of \\externaldocument',
                lambda: cases_foreign(tier), run_foreign, setup, timeout=60),
        FnSpace('histories', 'all sequences of %d steps over 12 (5 saves by 2 renderers, damage, foreign, empty, removal), both renderers restored after each step' %
                (4 if tier == 'quick' else 5), lambda: cases_history(tier), run_history, setup, timeout=60),
        FnSpace('sessions', 'all sequences of %d runs over 6 (two versions of one document, another document, 2 renderers), in one directory (both listing orders) and with '
                'paux-dirs' % (3 if tier == 'quick' else 4), lambda: cases_session(tier), run_session, setup, timeout=60),
        FnSpace('others', 'all pairs of a restored label of 12 kinds of object and one of %d documents' % len(LATER), lambda: cases_other(tier), run_other, setup),
    ]

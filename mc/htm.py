"""Rendering documents with the real pipeline, and reading the HTML it writes.

render() runs Compile.run in a scratch directory, as the command line does.
Compiled template code is kept from one run to the next (jinja2's and simpleTAL's
compilation is a function of the template source only).
"""
import contextlib
import html
import html.parser
import io
import os
import shutil
import tempfile

from mc import plas

_doc = []
SCRATCH = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
VOID = {'area', 'base', 'br', 'col', 'embed', 'hr', 'img', 'input', 'link', 'meta', 'source', 'track', 'wbr'}


def setup(*mods):
    plas.preload('plasTeX.Packages.article', 'plasTeX.Packages.book', 'plasTeX.Compile', 'plasTeX.Renderers.HTML5', 'plasTeX.Renderers.XHTML', *mods)
    from plasTeX import Compile
    if getattr(Compile, '_mchtm', None) is None:
        orig = Compile.parse

        def parse(filename, config):
            tex = orig(filename, config)
            _doc.append(tex.ownerDocument)
            return tex
        Compile._mchtm = orig
        Compile.parse = parse
    import jinja2
    if not hasattr(jinja2.Environment, '_mchtm'):
        comp = jinja2.Environment.compile
        memo = {}

        def compile(self, source, name=None, filename=None, *args, **kw):
            if args or kw or name or filename or not isinstance(source, str):
                return comp(self, source, name, filename, *args, **kw)
            key = (source, self.autoescape if isinstance(self.autoescape, bool) else None, self.trim_blocks, self.lstrip_blocks)
            if key not in memo:
                memo[key] = comp(self, source)
            return memo[key]
        jinja2.Environment._mchtm = comp
        jinja2.Environment.compile = compile
    from plasTeX.Renderers.PageTemplate.simpletal import simpleTAL
    if not hasattr(simpleTAL, '_mchtm'):
        simpleTAL._mchtm = True
        for name in ('compileHTMLTemplate', 'compileXMLTemplate'):
            def wrap(f):
                memo = {}

                def g(s, *args, **kw):
                    if args or kw or not isinstance(s, str):
                        return f(s, *args, **kw)
                    if s not in memo:
                        memo[s] = f(s)
                    return memo[s]
                return g
            setattr(simpleTAL, name, wrap(getattr(simpleTAL, name)))


def config(rend, opts=None):
    from plasTeX.Config import defaultConfig
    c = defaultConfig()
    if rend == 'HTML5':
        from plasTeX.Renderers.HTML5.Config import addConfig
        addConfig(c)
    c['general']['renderer'] = rend
    c['general']['copy-theme-extras'] = False
    c['general']['kpsewhich'] = '\0'      # (no process is started: files are then looked for in the directory)
    c['images']['enabled'] = False
    c['images']['imager'] = 'none'
    c['images']['vector-imager'] = 'none'
    for (sec, key), value in (opts or {}).items():
        c[sec][key] = value
    return c


class Result:
    def __init__(self, files, doc, raw, names):
        self.files, self.doc, self.raw, self.names = files, doc, raw, names


def render(src, rend, opts=None, name='doc', more=None):
    """Processes a document; returns the HTML files (text and bytes) by name, and the document."""
    from plasTeX import Compile
    from plasTeX.DOM import Node
    plas.fresh()
    d = tempfile.mkdtemp(prefix='mchtm-', dir=SCRATCH)
    old = os.getcwd()
    del _doc[:]
    try:
        enc = (opts or {}).get(('files', 'output-encoding'), 'utf-8')
        ienc = (opts or {}).get(('files', 'input-encoding'), 'utf-8')
        with open(os.path.join(d, name + '.tex'), 'w', encoding=ienc) as f:
            f.write(src)
        for n, t in (more or {}).items():
            with open(os.path.join(d, n), 'w', encoding='utf-8') as f:
                f.write(t)
        os.chdir(d)
        with contextlib.redirect_stdout(io.StringIO()):
            c = config(rend, opts)
            Compile.run(name + '.tex', c)
        doc = _doc[-1]
        out, raw, names = {}, {}, []
        root = os.path.join(d, name)
        for dp, dn, fn in os.walk(d):
            for n in sorted(fn):
                p = os.path.join(dp, n)
                rel = os.path.relpath(p, root)
                if n == name + '.tex' or n.endswith('.paux') or n in (more or {}):
                    continue
                names.append(rel)
                if n.endswith(('.html', '.xhtml', '.htm')):
                    with open(p, 'rb') as f:
                        raw[rel] = f.read()
                    out[rel] = raw[rel].decode(enc, 'strict')
        return Result(out, doc, raw, sorted(names))
    finally:
        os.chdir(old)
        # (one exception object is raised again and again, and keeps every frame it went through)
        from plasTeX.Renderers.PageTemplate.simpletal import simpleTALES
        exc = getattr(simpleTALES, 'PATHNOTFOUNDEXCEPTION', None)
        if exc is not None:
            exc.__traceback__ = exc.__context__ = None
        if hasattr(Node, 'renderer'):
            from plasTeX.Renderers import unmix
            r = Node.renderer
            try:
                del Node.renderer
                unmix(Node, type(r).renderableClass)
            except Exception:
                pass
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- reading HTML

class El:
    __slots__ = ('tag', 'attrs', 'children', 'parent')

    def __init__(self, tag, attrs, parent):
        self.tag, self.attrs, self.children, self.parent = tag, attrs, [], parent

    def walk(self):
        yield self
        for c in self.children:
            if isinstance(c, El):
                yield from c.walk()

    def pieces(self, skip=()):
        for c in self.children:
            if isinstance(c, El):
                if c.tag not in skip:
                    yield from c.pieces(skip)
            else:
                yield c

    def text(self, skip=()):
        return ''.join(self.pieces(skip))

    def find(self, pred):
        return [e for e in self.walk() if pred(e)]

    def cls(self):
        return (self.attrs.get('class') or '').split()

    def shape(self):
        """The element without its text."""
        return (self.tag, tuple(sorted(self.attrs)), tuple(c.shape() for c in self.children if isinstance(c, El)))


class _Parser(html.parser.HTMLParser):
    CDATA_CONTENT_ELEMENTS = ('script', 'style')

    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.root = self.cur = El('#root', {}, None)
        self.odd = []

    def handle_starttag(self, tag, attrs):
        d = {}
        for k, v in attrs:
            if k in d:
                self.odd.append('attribute %s twice in <%s>' % (k, tag))
            d.setdefault(k, v)
        e = El(tag, d, self.cur)
        self.cur.children.append(e)
        if tag not in VOID:
            self.cur = e

    def handle_startendtag(self, tag, attrs):
        self.handle_starttag(tag, attrs)
        if tag not in VOID:
            self.cur = self.cur.parent

    def handle_endtag(self, tag):
        e = self.cur
        while e is not None and e.tag != tag:
            e = e.parent
        if e is None or e.parent is None:
            self.odd.append('</%s> without <%s>' % (tag, tag))
            return
        while self.cur is not e:
            self.odd.append('<%s> not closed' % self.cur.tag)
            self.cur = self.cur.parent
        self.cur = e.parent

    def handle_data(self, data):
        self.cur.children.append(data)

    def handle_comment(self, data):
        self.cur.children.append(El('#comment', {'data': data}, self.cur))

    def handle_decl(self, decl):
        self.cur.children.append(El('#decl', {'data': decl}, self.cur))

    def unknown_decl(self, data):
        self.cur.children.append(El('#unknown', {'data': data}, self.cur))

    def handle_pi(self, data):
        self.cur.children.append(El('#pi', {'data': data}, self.cur))


def parse(text):
    p = _Parser()
    p.feed(text)
    p.close()
    return p.root, p.odd

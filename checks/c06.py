"""C06: the DOM stays a consistent tree under every bounded edit history.

Explicit-state exploration of the real plasTeX.DOM objects.  A state is a set
of named nodes; from every reachable state every enabled operation of the menu
is executed on the real nodes and on a list-of-lists model, and the complete
set of structural invariants and derived views is compared.  States reached by
several histories are explored once (the key contains everything an operation
can read: child lists, parent links, owner documents, fragment state).
"""
import itertools

from mc.core import Space, FnSpace, Violation
from plasTeX.DOM import Document, Node, Text

PROP = 'C06'
LEVEL = 'model_checking'
RULE = ('every enabled operation in every state reachable within the depth bound is executed on real DOM nodes; an '
        'outcome is a distinct canonical forest (names, child order, parent links)')
ASSUMPTIONS = [
    'inserted nodes are detached (or children of the same parent, for insertBefore/insertAfter/replaceChild); a '
    'fragment is consumed by being inserted and not looked at again',
    'item assignment uses integer indices (in range), not slices',
    'a shallow clone shares its children with the original by documentation; it is checked and then dropped',
]

P = Node


class Bad(Exception):
    pass


class World(object):
    """Real nodes + model.  Node ids are small strings."""

    def __init__(self, init):
        self.doc = Document()
        self.real = {'doc': self.doc}
        self.ch = {'doc': []}
        self.kind = {'doc': 'd'}
        self.name = {'doc': '#document'}
        self.text = {}
        self.attr = {}       # element id -> {attr: fragment id}
        self.dead = set()
        self.pos = {}        # node id -> position history relevant flag
        self.n = 0
        for spec in init['nodes']:
            i, k = spec[0], spec[1]
            self.kind[i] = k
            if k == 'e':
                self.real[i] = self.doc.createElement(spec[2])
                self.name[i] = spec[2]
                self.ch[i] = []
            elif k == 't':
                self.real[i] = self.doc.createTextNode(spec[2])
                self.text[i] = spec[2]
            else:
                self.real[i] = self.doc.createDocumentFragment()
                self.ch[i] = []
                self.name[i] = '#document-fragment'
        for e, a, f in init.get('attrs', []):
            self.real[e].attributes[a] = self.real[f]
            self.attr.setdefault(e, {})[a] = f
            if a == 'self':
                # the fragment is the element's child list
                self.ch[e] = self.ch[f]
        for op in init.get('pre', []):
            self.apply(op)

    # ---- model helpers
    def alias(self, p):
        """ids that list the same children as p"""
        return [q for q in self.ch if self.ch[q] is self.ch[p]]

    def parent(self, x):
        for p, c in self.ch.items():
            if p in self.dead:
                continue
            if x in c:
                # an element stands for its 'self' fragment
                for q in self.alias(p):
                    if self.kind[q] == 'e':
                        return q
                return p
        return None

    def held(self, f):
        return any(f in d.values() for d in self.attr.values())

    def live(self):
        return [i for i in self.kind if i not in self.dead]

    def targets(self):
        return [i for i in self.live() if self.kind[i] in 'edf' and not self.isself(i)]

    def isself(self, f):
        return any(d.get('self') == f for d in self.attr.values())

    def above(self, p):
        out = set()
        while p is not None:
            out.add(p)
            q = self.parent(p)
            if q is None:
                for e, d in self.attr.items():
                    if p in d.values():
                        q = e
            p = q
        return out

    def detached(self, p):
        """nodes that can be inserted below p"""
        up = self.above(p)
        out = []
        for i in self.live():
            if i in up or self.kind[i] == 'd' or self.held(i) or self.parent(i) is not None:
                continue
            out.append(i)
        return out

    def menu(self, opt):
        """Every enabled operation, deterministically ordered."""
        ops = []
        for p in self.targets():
            n = len(self.ch[p])
            det = self.detached(p)
            same = [c for c in self.ch[p]] if opt.get('moves') else []
            for x in det + (['$s'] if opt.get('strings') else []):
                ops.append(['append', p, x])
                for i in range(-n if opt.get('neg') else 0, n + 1):
                    ops.append(['insert', p, i, x])
                for i in range(-n if opt.get('neg') else 0, n):
                    ops.append(['set', p, i, x])
            for x in det + same + (['$s'] if opt.get('strings') else []):
                for r in self.ch[p]:
                    if r == x:
                        continue
                    ops.append(['before', p, x, r])
                    ops.append(['after', p, x, r])
                    ops.append(['replace', p, x, r])
            for r in self.ch[p]:
                ops.append(['remove', p, r])
            if n:
                ops.append(['pop', p, None])
                for i in range(-n if opt.get('neg') else 0, n):
                    ops.append(['pop', p, i])
            for x, y in itertools.permutations(det, 2):
                if opt.get('extend', True):
                    ops.append(['extend', p, [x, y]])
            for x in det:
                if self.kind[x] == 'f' and opt.get('extend', True):
                    ops.append(['extendf', p, x])
            ops.append(['normalize', p])
            if self.kind[p] != 'd':
                ops.append(['shallow', p])
        for p in self.live():
            if len(self.live()) < opt.get('maxnodes', 0) and self.kind[p] in 'etf' and not self.isself(p):
                ops.append(['clone', p])
        return ops

    # ---- execution
    def new(self, real, kind):
        self.n += 1
        i = 'n%d' % self.n
        self.real[i] = real
        self.kind[i] = kind
        return i

    def content(self, x):
        """ids that appear when x is inserted"""
        return list(self.ch[x]) if self.kind[x] == 'f' else [x]

    def consume(self, x):
        if self.kind[x] == 'f':
            self.dead.add(x)

    def apply(self, op):
        o, p = op[0], op[1]
        R = self.real[p]
        L = self.ch.get(p)

        def arg(x):
            if x == '$s':
                return 'S', None
            return self.real[x], self.content(x)

        def settle(x, at, k):
            """after inserting x as k model nodes at position `at`"""
            if x == '$s':
                real = R.childNodes[at]
                if not isinstance(real, Text) or str.__str__(real) != 'S':
                    raise Bad('inserting a string did not create a text node at %d: %r' % (at, real))
                i = self.new(real, 't')
                self.text[i] = 'S'
                L[at] = i
            else:
                self.consume(x)
        if o == 'append':
            a, c = arg(op[2])
            if op[2] == '$s':
                L.append(None)
            else:
                L.extend(c)
            R.append(a)
            settle(op[2], len(L) - 1, 1)
        elif o == 'insert':
            a, c = arg(op[3])
            i = op[2] if op[2] >= 0 else len(L) + op[2]
            L[i:i] = [None] if c is None else c
            R.insert(op[2], a)
            settle(op[3], i, 1)
        elif o == 'set':
            a, c = arg(op[3])
            i = op[2] if op[2] >= 0 else len(L) + op[2]
            L[i:i + 1] = [None] if c is None else c
            R[op[2]] = a
            settle(op[3], i, 1)
        elif o in ('before', 'after', 'replace'):
            a, c = arg(op[2])
            if op[2] in L:
                L.remove(op[2])
            i = L.index(op[3])
            if o == 'before':
                L[i:i] = [None] if c is None else c
                r = R.insertBefore(a, self.real[op[3]])
            elif o == 'after':
                i += 1
                L[i:i] = [None] if c is None else c
                r = R.insertAfter(a, self.real[op[3]])
            else:
                L[i:i + 1] = [None] if c is None else c
                r = R.replaceChild(a, self.real[op[3]])
                if r is not self.real[op[3]]:
                    raise Bad('replaceChild did not return the replaced child')
            settle(op[2], i, 1)
        elif o == 'remove':
            L.remove(op[2])
            r = R.removeChild(self.real[op[2]])
            if r is not self.real[op[2]]:
                raise Bad('removeChild did not return the removed child')
        elif o == 'pop':
            i = L.pop() if op[2] is None else L.pop(op[2])
            r = R.pop() if op[2] is None else R.pop(op[2])
            if r is not self.real[i]:
                raise Bad('pop did not return the removed child')
        elif o == 'extend':
            rs = []
            for x in op[2]:
                rs.append(self.real[x])
                L.extend(self.content(x))
            R.extend(rs)
            for x in op[2]:
                self.consume(x)
        elif o == 'extendf':
            L.extend(self.ch[op[2]])
            R.extend(self.real[op[2]])
            self.consume(op[2])
        elif o == 'normalize':
            before = self.textof(p)
            R.normalize()
            self.normalized(p)
            if self.textof(p) != before:
                raise Bad('normalize changed the text content')
            R.normalize()
            self.same_after(p)
        elif o == 'shallow':
            self.shallow(p)
        elif o == 'clone':
            self.clone(p)
        else:
            raise ValueError(o)

    def normalized(self, p, attrs=True):
        """adopt the child list normalize() should have produced"""
        if attrs:
            for f in self.attr.get(p, {}).values():
                if not self.isself(f):
                    self.normalized(f)
        L = self.ch[p]
        R = self.real[p]
        got = list(R.childNodes)
        want = []
        for k, g in itertools.groupby(L, lambda i: self.kind[i] == 't'):
            g = list(g)
            if k:
                want.append(''.join(self.text[i] for i in g))
                self.dead.update(g)
            else:
                want += g
        if len(got) != len(want):
            raise Bad('normalize: %d children instead of %d' % (len(got), len(want)))
        new = []
        for (g, w) in zip(got, want):
            if w in self.real and self.real[w] is g:
                new.append(w)
                continue
            if isinstance(g, Text) and w not in self.real and str.__str__(g) == w:
                i = self.new(g, 't')
                self.text[i] = w
                new.append(i)
                continue
            raise Bad('normalize: child %r instead of %r' % (g, w))
        L[:] = new
        for c in new:
            if self.kind[c] != 't':
                self.normalized(c)

    def same_after(self, p):
        """second normalize: nothing may change except the identity of text"""
        for f in self.attr.get(p, {}).values():
            if not self.isself(f):
                self.same_after(f)
        got = list(self.real[p].childNodes)
        L = self.ch[p]
        if len(got) != len(L):
            raise Bad('normalize is not idempotent')
        for k, (g, w) in enumerate(zip(got, L)):
            if self.kind[w] == 't':
                if not isinstance(g, Text) or str.__str__(g) != self.text[w]:
                    raise Bad('normalize is not idempotent')
                self.real[w] = g
            else:
                if g is not self.real[w]:
                    raise Bad('normalize is not idempotent')
                self.same_after(w)

    def textof(self, p):
        if self.kind[p] == 't':
            return self.text[p]
        return ''.join(self.textof(c) for c in self.ch[p])

    def nodes_of(self, r, seen):
        """every real node below r (children and attribute values)"""
        seen.append(r)
        if isinstance(r, Text):
            return seen
        for v in (r.attributes or {}).values():
            if isinstance(v, Node):
                self.nodes_of(v, seen)
        for c in list(r.childNodes):
            self.nodes_of(c, seen)
        return seen

    def shallow(self, p):
        R = self.real[p]
        c = R.cloneNode(False)
        if c is R or type(c) is not type(R):
            raise Bad('cloneNode returned %r' % (c,))
        if self.kind[p] == 'e' and c.nodeName != R.nodeName:
            raise Bad('cloneNode changed the name')

    def clone(self, p):
        """deep clone; registers the clone's nodes"""
        R = self.real[p]
        c = R.cloneNode(True)
        old = {id(x) for x in self.real.values()}
        if self.kind[p] != 't':
            if not (c == R) or not (R == c) or not c.isEqualNode(R):
                raise Bad('deep clone is not equal to the original')
        elif str.__str__(c) != self.text[p]:
            raise Bad('text clone differs')
        for x in self.nodes_of(c, []):
            if id(x) in old:
                raise Bad('deep clone shares the node %r with the original' % (x,))
        self.register(p, c)

    def register(self, p, c):
        i = self.new(c, self.kind[p])
        if self.kind[p] == 't':
            self.text[i] = self.text[p]
            if str.__str__(c) != self.text[p]:
                raise Bad('clone of text differs')
            return i
        self.name[i] = self.name[p]
        if c.nodeName != self.name[p]:
            raise Bad('clone has another name')
        self.ch[i] = []
        for a, f in self.attr.get(p, {}).items():
            v = (c.attributes or {}).get(a)
            if v is None:
                raise Bad('deep clone lost attribute %s' % a)
            j = self.register(f, v)
            self.attr.setdefault(i, {})[a] = j
            if a == 'self':
                self.ch[i] = self.ch[j]
        if set((c.attributes or {}).keys()) != set(self.attr.get(p, {})):
            raise Bad('deep clone has other attributes')
        if 'self' not in self.attr.get(p, {}):
            got = list(c.childNodes)
            if len(got) != len(self.ch[p]):
                raise Bad('deep clone has %d children instead of %d' % (len(got), len(self.ch[p])))
            for q, r in zip(self.ch[p], got):
                self.ch[i].append(self.register(q, r))
        return i

    # ---- invariants
    def key(self):
        """everything later behaviour can depend on, up to renaming of n* ids"""
        out = []
        ids = {id(self.real[i]): i for i in self.kind}
        for i in sorted(self.live()):
            r = self.real[i]
            if self.kind[i] == 't':
                pr = r.parentNode
                out.append((i, self.text[i], str.__str__(r), r.ownerDocument is self.doc,
                            ids.get(id(pr), '?') if pr is not None else None))
            else:
                pr = r.parentNode
                out.append((i, self.name.get(i), r.nodeName, tuple(self.ch[i]), r.ownerDocument is self.doc,
                            tuple([ids.get(id(x), '?') for x in list(r)]),
                            ids.get(id(pr), '?') if pr is not None else None,
                            tuple(self.attr.get(i, {}).items())))
        return tuple(out)

    def check(self):
        real = self.real
        live = self.live()
        doc = self.doc
        par = {}
        for p in live:
            if self.kind[p] == 't':
                continue
            for k, c in enumerate(self.ch[p]):
                if self.kind[p] == 'f' and self.isself(p):
                    continue
                par[c] = (p, k)
        for p in live:
            R = real[p]
            if R.ownerDocument is not doc:
                raise Bad('ownerDocument of %s is %r' % (p, R.ownerDocument))
            if self.kind[p] == 't':
                if str.__str__(R) != self.text[p] or R.textContent != self.text[p]:
                    raise Bad('text %s changed' % p)
                continue
            L = self.ch[p]
            got = list(R.childNodes)
            if len(got) != len(L) or any(g is not real[c] for g, c in zip(got, L)):
                raise Bad('children of %s are %r, the list model says %r' % (
                    p, [self.show(g) for g in got], L))
            it = list(R)
            if len(R) != len(L) or len(it) != len(L) or any(a is not b for a, b in zip(it, got)):
                raise Bad('iteration over %s differs from childNodes' % p)
            if L:
                if R.firstChild is not real[L[0]] or R.lastChild is not real[L[-1]]:
                    raise Bad('firstChild/lastChild of %s' % p)
                if R[0] is not real[L[0]] or R[-1] is not real[L[-1]]:
                    raise Bad('indexing of %s' % p)
            elif R.firstChild is not None or R.lastChild is not None:
                raise Bad('firstChild/lastChild of the empty %s' % p)
            al = [real[q] for q in self.alias(p)]
            for k, c in enumerate(L):
                C = real[c]
                if not any(C.parentNode is q for q in al):
                    raise Bad('%s is listed by %s but its parentNode is %s' % (c, p, self.show(C.parentNode)))
                prev = real[L[k - 1]] if k else None
                nxt = real[L[k + 1]] if k + 1 < len(L) else None
                if C.previousSibling is not prev:
                    raise Bad('previousSibling of %s is %s' % (c, self.show(C.previousSibling)))
                if C.nextSibling is not nxt:
                    raise Bad('nextSibling of %s is %s' % (c, self.show(C.nextSibling)))
            if R.textContent != self.textof(p):
                raise Bad('textContent of %s is %r, model %r' % (p, str.__str__(R.textContent), self.textof(p)))
            want = self.desc(p)
            got = list(R.allChildNodes)
            if len(got) != len(want) or any(g is not real[c] for g, c in zip(got, want)):
                raise Bad('allChildNodes of %s is %r, model %r' % (p, [self.show(g) for g in got], want))
            names = {self.name[q] for q in self.kind if self.kind[q] == 'e'}
            for q in list(names) + [sorted(names)]:
                qs = q if isinstance(q, list) else [q]
                want = [c for c in self.lookup(p) if self.kind[c] == 'e' and self.name[c] in qs]
                got = list(R.getElementsByTagName(q))
                if len(got) != len(want) or any(g is not real[c] for g, c in zip(got, want)):
                    raise Bad('getElementsByTagName(%r) of %s is %r, model %r' % (
                        q, p, [self.show(g) for g in got], want))
                if not isinstance(q, list):
                    got = list(R.getElementsByTagNameNS(None, q))
                    if len(got) != len(want) or any(g is not real[c] for g, c in zip(got, want)):
                        raise Bad('getElementsByTagNameNS(%r) of %s' % (q, p))
        # detached nodes have no siblings
        for x in live:
            if x not in par and self.kind[x] in 'et':
                if real[x].previousSibling is not None or real[x].nextSibling is not None:
                    raise Bad('%s is in no child list but has siblings' % x)
        # document position
        chain = {}
        for x in live:
            if self.isself(x):
                continue
            c, q = [x], x
            while q in par:
                q, k = par[q]
                c.append(q)
            chain[x] = list(reversed(c))
        for x in chain:
            for y in chain:
                if x == y or self.crosses(chain[x], chain[y]):
                    continue
                want = self.position(x, y, chain, par)
                got = real[x].compareDocumentPosition(real[y])
                if got != want:
                    raise Bad('compareDocumentPosition(%s, %s) is %#x, model %#x' % (x, y, got, want))

    def crosses(self, a, b):
        """the relation leads through an attribute, whose position is not specified"""
        return self.held(a[0]) or self.held(b[0])

    def position(self, x, y, chain, par):
        a, b = chain[x], chain[y]
        if a[0] != b[0]:
            return P.DOCUMENT_POSITION_DISCONNECTED
        if y in a:
            return P.DOCUMENT_POSITION_CONTAINS
        if x in b:
            return P.DOCUMENT_POSITION_CONTAINED_BY
        k = 0
        while a[k] == b[k]:
            k += 1
        if par[a[k]][1] < par[b[k]][1]:
            return P.DOCUMENT_POSITION_FOLLOWING
        return P.DOCUMENT_POSITION_PRECEDING

    def desc(self, p):
        out = []
        for c in self.ch.get(p, ()):
            out.append(c)
            out += self.desc(c)
        return out

    def lookup(self, p):
        """what element lookup sees, in its order: arguments, then children"""
        out = []
        for a, f in self.attr.get(p, {}).items():
            if a != 'self':
                out += self.lookup(f)
        for c in self.ch.get(p, ()):
            out.append(c)
            out += self.lookup(c)
        return out

    def show(self, r):
        for i, x in self.real.items():
            if x is r:
                return i
        return repr(r)[:40]


INITS = {
    # name: nodes, attribute-held fragments, operations bringing the pool into its initial shape
    'plain': {'nodes': [['A', 'e', 'a'], ['B', 'e', 'b'], ['C', 'e', 'b'], ['T', 't', 'x'], ['U', 't', 'x']]},
    'doc': {'nodes': [['A', 'e', 'a'], ['B', 'e', 'b'], ['F', 'f'], ['T', 't', 'x']],
            'pre': [['append', 'F', 'T'], ['append', 'F', 'B']]},
    'fragment': {'nodes': [['A', 'e', 'a'], ['B', 'e', 'b'], ['T', 't', 'x'], ['F', 'f'], ['C', 'e', 'b'],
                           ['U', 't', 'y'], ['V', 't', 'x']],
                 'pre': [['append', 'F', 'C'], ['append', 'F', 'U'], ['append', 'A', 'V']]},
    'nested': {'nodes': [['A', 'e', 'a'], ['B', 'e', 'b'], ['C', 'e', 'b'], ['D', 'e', 'd'], ['T', 't', 'x'],
                         ['U', 't', 'x'], ['V', 't', 'v']],
               'pre': [['append', 'A', 'B'], ['append', 'A', 'C'], ['append', 'B', 'T'], ['append', 'B', 'D'],
                       ['append', 'C', 'U']]},
    'attr': {'nodes': [['A', 'e', 'a'], ['B', 'e', 'b'], ['T', 't', 'x'], ['F', 'f'], ['C', 'e', 'b'], ['U', 't', 'y']],
             'attrs': [['A', 'title', 'F']],
             'pre': [['append', 'F', 'C'], ['append', 'C', 'U']]},
    'attrfull': {'nodes': [['A', 'e', 'a'], ['B', 'e', 'b'], ['T', 't', 'x'], ['F', 'f'], ['G', 'f'], ['C', 'e', 'b'],
                           ['U', 't', 'y']],
                 'attrs': [['A', 'title', 'F'], ['C', 'title', 'G']],
                 'pre': [['append', 'F', 'B'], ['append', 'A', 'T']]},
    'self': {'nodes': [['A', 'e', 'a'], ['B', 'e', 'b'], ['T', 't', 'x'], ['F', 'f'], ['U', 't', 'y']],
             'attrs': [['A', 'self', 'F']],
             'pre': [['append', 'A', 'T']]},
    'twofrags': {'nodes': [['A', 'e', 'a'], ['F', 'f'], ['G', 'f'], ['B', 'e', 'b'], ['T', 't', 'x'], ['U', 't', 'x']],
                 'pre': [['append', 'F', 'T'], ['append', 'G', 'U'], ['append', 'A', 'B']]},
}


class Explore(Space):
    timeout = 600.0

    def __init__(self, init, depth, opt, tag):
        self.init, self.depth, self.opt = init, depth, opt
        Space.__init__(self, 'edit-%s-%s' % (init, tag), 'initial pool %s; every operation sequence up to length %d (%s), states '
                       'merged when nothing observable differs' % (init, depth, ', '.join(sorted(o for o in opt if opt[o]))))

    def setup(self):
        self.seen = {}       # state -> depth still to go when it was expanded
        self.checked = set()

    def world(self, seq):
        w = World(INITS[self.init])
        for op in seq:
            w.apply(op)
        return w

    def cases(self):
        w = World(INITS[self.init])
        ops = w.menu(self.opt)
        yield {'seq': []}
        for op in ops:
            w = self.quiet_world([op])
            if w is None:
                yield {'seq': [op], 'deep': False}
                continue
            yield {'seq': [op], 'deep': False}
            if self.depth > 1:
                for op2 in w.menu(self.opt):
                    yield {'seq': [op, op2], 'deep': True}

    def quiet_world(self, seq):
        try:
            return self.world(seq)
        except BaseException:
            return None

    def step(self, seq, cx):
        """execute seq, check the last state; a Violation or the world"""
        w = World(INITS[self.init])
        try:
            for op in seq[:-1]:
                w.apply(op)
        except Exception:
            return None      # reported for the shorter sequence
        try:
            if seq:
                w.apply(seq[-1])
            k = hash(w.key())
            if k not in self.checked:
                w.check()
                self.checked.add(k)
        except Bad as e:
            return Violation('%s\nhistory (pool %s): %s' % (e, self.init, seq), kind=(seq[-1][0] if seq else 'init') +
                             '/' + str(e).split(' ')[0], case={'seq': seq})
        except Exception as e:
            import traceback
            return Violation('%s: %s\nhistory (pool %s): %s\n%s' % (
                type(e).__name__, e, self.init, seq, traceback.format_exc()[-600:]),
                kind=seq[-1][0] + '/raise' if seq else 'init', case={'seq': seq})
        cx.trans()
        return w

    def run(self, case, cx):
        seq = case['seq']
        w = self.step(seq, cx)
        if w is None or isinstance(w, Violation):
            return w
        cx.trace()
        k = w.key()
        cx.state(k)
        cx.outcome(k)
        if not case.get('deep'):
            return None
        return self.expand(seq, w, self.depth - len(seq), cx)

    def expand(self, seq, w, left, cx):
        if left <= 0:
            return None
        k = hash(w.key())
        if self.seen.get(k, 0) >= left:
            return None
        self.seen[k] = left
        for op in w.menu(self.opt):
            s = seq + [op]
            w2 = self.step(s, cx)
            cx.trace()
            if w2 is None:
                continue
            if isinstance(w2, Violation):
                return w2
            k2 = w2.key()
            cx.state(k2)
            cx.outcome(k2)
            v = self.expand(s, w2, left - 1, cx)
            if v is not None:
                return v
        return None


# ---- long periodic histories ---------------------------------------------------

def symbolic():
    """Operations described relative to the current state, so they can repeat."""
    out = []
    for tgt in ('A', 'B', 'last'):
        for o in ('append', 'insert0', 'insert-1', 'set0', 'set-1', 'before', 'after', 'replace', 'remove0',
                  'remove-1', 'pop', 'pop0', 'normalize', 'appendS', 'insert0S', 'clone'):
            out.append([o, tgt])
    return out


def concrete(w, sym):
    o, tgt = sym
    if tgt == 'last':
        els = [i for i in w.targets() if w.kind[i] == 'e']
        tgt = els[-1]
    n = len(w.ch[tgt])
    det = w.detached(tgt)
    x = det[0] if det else '$s'
    y = det[-1] if det else '$s'
    L = w.ch[tgt]
    if o == 'append':
        return ['append', tgt, x]
    if o == 'appendS':
        return ['append', tgt, '$s']
    if o == 'insert0':
        return ['insert', tgt, 0, y]
    if o == 'insert0S':
        return ['insert', tgt, 0, '$s']
    if o == 'insert-1':
        return ['insert', tgt, max(0, n - 1), x]
    if o == 'normalize':
        return ['normalize', tgt]
    if o == 'clone':
        return ['clone', tgt] if len(w.live()) < 24 else None
    if not n:
        return None
    if o == 'set0':
        return ['set', tgt, 0, y]
    if o == 'set-1':
        return ['set', tgt, n - 1, x]
    if o == 'before':
        return ['before', tgt, y, L[n // 2]]
    if o == 'after':
        return ['after', tgt, x, L[n // 2]]
    if o == 'replace':
        return ['replace', tgt, x, L[n // 2]]
    if o == 'remove0':
        return ['remove', tgt, L[0]]
    if o == 'remove-1':
        return ['remove', tgt, L[-1]]
    if o == 'pop':
        return ['pop', tgt, None]
    if o == 'pop0':
        return ['pop', tgt, 0]


def periodic(init, rounds, period):
    def cases():
        for c in itertools.product(symbolic(), repeat=period):
            yield {'word': [list(x) for x in c]}

    def run(case, cx):
        w = World(INITS[init])
        hist = []
        for r in range(rounds):
            for s in case['word']:
                op = concrete(w, s)
                if op is None:
                    continue
                hist.append(op)
                try:
                    w.apply(op)
                    cx.trans()
                    if r in (0, 1, rounds - 1):
                        w.check()
                except Bad as e:
                    return Violation('%s\nhistory (pool %s): %s' % (e, init, hist), kind=op[0])
        cx.trace()
        k = w.key()
        cx.state(k)
        cx.outcome(k)
    return FnSpace('periodic-%s-%d' % (init, period), 'pool %s; every word of %d operations relative to the current '
                   'state (first/last/middle child, first/last detached node), repeated %d times'
                   % (init, period, rounds), cases, run)


def spaces(tier):
    full = {'moves': 1, 'neg': 1, 'strings': 1, 'extend': 1, 'maxnodes': 12}
    mid = {'moves': 1, 'neg': 0, 'strings': 0, 'extend': 1, 'maxnodes': 12}
    lean = {'moves': 1, 'extend': 0, 'maxnodes': 0}
    d = 0 if tier == 'quick' else 1
    pools = ['plain', 'fragment', 'nested', 'attr', 'attrfull', 'self', 'twofrags', 'doc']
    out = [Explore(p, 2 + d, full, 'full') for p in pools]
    out += [Explore(p, 3 + d, mid, 'mid') for p in pools if d or p not in ('fragment', 'attrfull')]
    out += [Explore('doc5', 4 + d, lean, 'lean'), Explore('two5', 5 + d, lean, 'lean')]
    out += [periodic('plain', 20, 2), periodic('nested', 20, 2), periodic('self', 20, 2)]
    return out


INITS['doc5'] = {'nodes': [['A', 'e', 'a'], ['B', 'e', 'a'], ['T', 't', 'x'], ['F', 'f'], ['U', 't', 'x']],
                 'pre': [['append', 'F', 'U']]}
INITS['two5'] = {'nodes': [['A', 'e', 'a'], ['B', 'e', 'a'], ['T', 't', 'x']], 'pre': []}

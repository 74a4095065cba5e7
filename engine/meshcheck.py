"""Obligations on the final link structure of a path through a mesh operation."""
from ai import *
from mesh import *
from cc import CC, Contradiction

FIELDS = {'.next': 'N', '.prev': 'P', '.twin': 'T', '.origin_id': 'O', '.face': 'F'}


UNKNOWN = ('app', 'opq', 'post', 'f', 'discr', 'at')


class Final:
    """link functions of the mesh after one analysed path (canonicalised by the path's equalities)"""

    def __init__(self, run, st, meshplace, extra_eqs=()):
        self.run = run
        self.dom = run.dom
        self.ai = run.ai
        self.st = st
        self.root = meshplace          # place of the mesh
        self.m = mk('mesh', *meshplace.a)
        self.infeasible = None
        self.cc = CC(self.m, self.dom.asym)
        try:
            for a, b in tuple(self.dom.hyps_src) + tuple(self.dom.raw) + tuple(extra_eqs) + tuple(st.eqs):
                self.cc.equate(a, b)
            for t, v in st.conds.items():
                if t.op == 'bin' and t.a[0] == 'Eq' and v == 1:
                    self.cc.equate(t.a[1], t.a[2])
            for t, v in st.conds.items():
                if t.op == 'bin' and t.a[0] == 'Eq' and v == 0:
                    self.cc.differ(t.a[1], t.a[2])
        except Contradiction as ex:
            self.infeasible = str(ex)
            return
        self.cc.sealed = True
        self.tab = {'N': {}, 'P': {}, 'T': {}, 'O': {}, 'F': {}, 'V': {}, 'FE': {}}
        self.deleted = set()
        self.sites = {}
        self.tainted = []
        self.replay()

    def c(self, t):
        """canonical form"""
        return self.cc.c(t)

    # -------- replay of writes
    def replay(self):
        n = len(self.root.a)
        for e in self.st.events():
            if e[0] == 'delete':
                p = e[1]
                if p.a[:n] == self.root.a:
                    self.deleted.add((p.a[n], self.c(p.a[n + 1].a[0])))
                continue
            if e[0] != 'w':
                continue
            p, v = e[1], e[2]
            a = p.a
            if a[:n] != self.root.a or len(a) < n + 2 or a[n] not in STORES or type(a[n + 1]) is not T:
                continue
            x = self.c(a[n + 1].a[0])
            rest = a[n + 2:]
            if a[n] == '.halfedges':
                if rest == ():
                    for f, op in FIELDS.items():
                        self.put(op, x, self.ai.proj1(v, f), e[3])
                elif len(rest) == 1 and rest[0] in FIELDS:
                    self.put(FIELDS[rest[0]], x, v, e[3])
            elif a[n] == '.vertices':
                if rest == ():
                    self.put('V', x, self.ai.proj1(v, '.edge'), e[3])
                elif rest == ('.edge',):
                    self.put('V', x, v, e[3])
            else:
                if rest == ():
                    self.put('FE', x, self.ai.proj1(v, '.edge'), e[3])
                elif rest == ('.edge',):
                    self.put('FE', x, v, e[3])

    def put(self, op, x, v, site):
        self.tab[op][x] = self.c(v)
        if contains(v, lambda t: t.op in UNKNOWN) or contains(x, lambda t: t.op in UNKNOWN):
            self.tainted.append((op, x, v))
        self.sites[(op, x)] = site

    def covered(self):
        """loops all of whose edges got their face written: [(first, value)]"""
        if hasattr(self, '_cov'):
            return self._cov
        self._cov = []
        done = set()
        for t, v in self.st.conds.items():
            if t.op == 'exhausted' and v == 1:
                it = t.a[0]
                b = self.dom.pure_base(it)
                if b is None:
                    base = it
                    while base.op == 'adv':
                        base = base.a[0]
                    if base.op == 'it' and base.a[0] == 'ref':
                        c = self.ai.deref(self.st, base.a[1])
                        b = self.dom.pure_base(c)
                if b is not None:
                    done.add(self.c(self.dom.iter_parts(b)[1]))
        for e in self.st.events():
            if e[0] == 'forall-':
                b = self.dom.pure_base(e[1])
                if b is not None:
                    done.add(self.c(self.dom.iter_parts(b)[1]))
        for x, v in self.tab['F'].items():
            if x.op == 'loop' and self.c(x.a[1]) in done:
                self._cov.append((self.c(x.a[1]), v))
        return self._cov

    def in_loop(self, x, first, k=8):
        for a, b in ((x, first), (first, x)):
            y = a
            for _ in range(k):
                if y is b:
                    return True
                if y.op == 'loop' and self.c(y.a[1]) is b:
                    return True
                y = self.get('N', y)
                if y.op == 'unset':
                    break
        y = x
        while y.op in ('N', 'P') and y.a[0] is self.m:
            y = y.a[1]
            if y.op == 'loop' and self.c(y.a[1]) is first:
                return True
        return y.op == 'loop' and self.c(y.a[1]) is first

    def get(self, op, x):
        x = self.c(x)
        if op == 'F':
            for first, v in self.covered():
                if self.in_loop(x, first):
                    return v
        r = self.tab[op].get(x)
        if r is None:
            if x.op == 'alloc':
                return mk('unset', op, x)
            r = self.c(mk(op, self.m, x))
        return r

    def old(self, op, x):
        return self.c(mk(op, self.m, x))

    def changed(self, op, x):
        return x in self.tab[op] and (x.op == 'alloc' or self.tab[op][x] is not self.old(op, x))

    def touched(self, ops=('N', 'P', 'T', 'O', 'F')):
        r = []
        for op in ops:
            for x in self.tab[op]:
                if x not in r:
                    r.append(x)
        return r

    def known_ne(self, a, b):
        if self.dom.distinct(self.c(a), self.c(b)):
            return True
        return self.cc.impossible(a, b)

    # -------- obligations: yield (name, ok, detail, site)
    def ob_links(self, twin=True):
        S = self.touched(('N', 'P', 'T'))
        for x in list(S):
            if x.op != 'alloc':
                for op in ('N', 'P') + (('T',) if twin else ()):
                    if self.changed(op, x):
                        o = self.old(op, x)
                        if o not in S:
                            S.append(o)
        for x in list(S):
            if x.op == 'loop' and not (self.changed('N', x) or self.changed('P', x) or self.changed('T', x)):
                continue
            if x.op == 'alloc' or self.changed('N', x) or self.changed('P', x) or self.changed('T', x):
                for op in ('N', 'P', 'T'):
                    y = self.get(op, x)
                    if y not in S and y.op != 'unset' and y is not MAX:
                        S.append(y)
        for x in S:
            if ('.halfedges', x) in self.deleted or x is MAX:
                continue
            for a, b in (('N', 'P'), ('P', 'N')) + ((('T', 'T'),) if twin else ()):
                y = self.get(a, x)
                if a == 'T' and self.dom.asym and not (x in self.tab['T'] or y in self.tab['T']):
                    continue
                if y.op == 'unset' or y is MAX:
                    yield (a + 'set', False, '%s of %s is left unset' % (NAMES[a], self.sh(x)), self.sites.get((a, x)))
                    continue
                z = self.get(b, y)
                yield ('%s%s' % (a, b), z is x,
                       '%s of %s is %s, but %s of that is %s' % (NAMES[a], self.sh(x), self.sh(y), NAMES[b], self.sh(z)),
                       self.sites.get((a, x)) or self.sites.get((b, y)))

    def ob_origin(self):
        S = self.touched(('N', 'T', 'O'))
        for x in list(S):
            if x.op != 'alloc':
                if self.changed('O', x):
                    for y in (self.get('P', x), self.get('T', x)):
                        if y not in S and y.op != 'unset':
                            S.append(y)
        for x in S:
            n, t = self.get('N', x), self.get('T', x)
            if n.op == 'unset' or t.op == 'unset':
                continue
            a, b = self.get('O', n), self.get('O', t)
            yield ('target', a is b, 'edge %s: successor %s starts at %s but twin %s starts at %s'
                   % (self.sh(x), self.sh(n), self.sh(a), self.sh(t), self.sh(b)),
                   self.sites.get(('N', x)) or self.sites.get(('T', x)) or self.sites.get(('O', x)))

    def ob_vertex(self):
        for v in self.tab['V']:
            e = self.get('V', v)
            if e is MAX:
                yield ('rep', not any(self.get('O', x) is v for x in self.touched(('O',))),
                       'vertex %s has no representative edge although edges leave it' % self.sh(v), self.sites.get(('V', v)))
                continue
            o = self.get('O', e)
            yield ('rep', o is v, 'representative edge %s of vertex %s starts at %s' % (self.sh(e), self.sh(v), self.sh(o)),
                   self.sites.get(('V', v)))
        for x in self.tab['O']:
            if not self.changed('O', x):
                continue
            v = self.get('O', x)
            if x.op != 'alloc':
                w = self.old('O', x)
                if w not in self.tab['V']:
                    e = self.get('V', w)
                    yield ('rep-moved', self.known_ne(e, x) and e is not x,
                           'edge %s leaves vertex %s but may still be its representative edge' % (self.sh(x), self.sh(w)),
                           self.sites.get(('O', x)))
            if v not in self.tab['V']:
                e = self.get('V', v)
                yield ('rep-none', e is not MAX and e.op != 'unset',
                       'vertex %s gets outgoing edge %s but no representative edge' % (self.sh(v), self.sh(x)),
                       self.sites.get(('O', x)))

    def ob_face(self):
        S = self.touched(('F', 'N'))
        for x in list(S):
            if self.changed('F', x):
                y = self.get('P', x)
                if y not in S and y.op != 'unset':
                    S.append(y)
        for x in S:
            n = self.get('N', x)
            if n.op == 'unset':
                continue
            a, b = self.get('F', x), self.get('F', n)
            yield ('loopface', a is b, 'edge %s has face %s but its successor %s has face %s'
                   % (self.sh(x), self.sh(a), self.sh(n), self.sh(b)), self.sites.get(('F', x)) or self.sites.get(('N', x)))
        for f in self.tab['FE']:
            e = self.get('FE', f)
            a = self.get('F', e)
            yield ('facerep', a is f, 'representative edge %s of face %s has face %s' % (self.sh(e), self.sh(f), self.sh(a)),
                   self.sites.get(('FE', f)))
        for x in self.tab['F']:
            if x.op == 'alloc' or not self.changed('F', x):
                continue
            f = self.old('F', x)
            if f is MAX or ('.faces', f) in self.deleted or f in self.tab['FE']:
                continue
            if self.known_eq_max(f):
                continue
            e = self.get('FE', f)
            yield ('facerep-moved', self.known_ne(e, x), 'edge %s left face %s but may still be its representative edge'
                   % (self.sh(x), self.sh(f)), self.sites.get(('F', x)))

    def known_eq_max(self, f):
        return self.c(f) is MAX

    def sh(self, t):
        o, a = t.op, t.a
        if t is MAX: return 'none'
        if o == 'p': return str(a[1]).split(':')[-1]
        if o == 'alloc': return 'new %s %d' % ({'.halfedges': 'edge', '.vertices': 'vertex', '.faces': 'face'}.get(a[0].a[-1], '?'), a[1])
        if o in NAMES and len(a) == 2 and type(a[1]) is T: return '%s(%s)' % (NAMES[o], self.sh(a[1]))
        if o in ('loop', 'wheel'): return 'edge around %s' % self.sh(a[1])
        return show(t)[:60]


NAMES = {'N': 'next', 'P': 'prev', 'T': 'twin', 'O': 'origin', 'F': 'face', 'V': 'edge-of-vertex', 'FE': 'edge-of-face'}

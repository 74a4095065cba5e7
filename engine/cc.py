"""Congruence closure over link terms of one (valid) mesh: next/prev are mutually inverse, twin is an
involution without fixed points, a face is constant along next, the origin of next(x) is the origin of
twin(x), representatives point back. Decides whether the equalities of a path are consistent."""
from ai import *
from mesh import MAX

LINKS = ('N', 'P', 'T', 'O', 'F', 'V', 'FE')
INV = {'N': 'P', 'P': 'N', 'T': 'T'}
EDGE = ('N', 'P', 'T', 'FE', 'loop', 'wheel', 'V')


class Contradiction(Exception):
    pass


class CC:
    def __init__(self, m, asym=False, plain=False):
        self.plain = plain
        self.m = m
        self.asym = asym
        self.parent = []
        self.sealed = False
        self.succ = []
        self.rep = []
        self.node = {}
        self.diseqs = []
        self.ismax = []
        self.isorg = []
        self.nomax = []
        self.alloc = []

    def copy(self):
        c = CC(self.m, self.asym, self.plain)
        c.parent = list(self.parent)
        c.succ = [dict(s) for s in self.succ]
        c.rep = list(self.rep)
        c.node = dict(self.node)
        c.diseqs = list(self.diseqs)
        c.isorg = list(self.isorg)
        c.ismax, c.nomax, c.alloc = list(self.ismax), list(self.nomax), list(self.alloc)
        return c

    def find(self, i):
        while self.parent[i] != i:
            i = self.parent[i]
        return i

    def new(self, t):
        i = len(self.parent)
        self.parent.append(i)
        self.succ.append({})
        self.rep.append(t)
        self.ismax.append(t is MAX)
        self.isorg.append(False)
        self.nomax.append(not self.plain and t.op in ('N', 'P', 'T', 'FE', 'O', 'alloc', 'loop', 'wheel')
                          or not self.plain and (t.op == 'p' and str(t.a[1] or '')[:2] in ('e:', 'v:', 'f:')))
        self.alloc.append(t if t.op == 'alloc' else None)
        return i

    def add(self, t):
        i = self.node.get(t)
        if i is not None:
            return self.find(i)
        if t.op in LINKS and len(t.a) == 2 and t.a[0] is self.m:
            a = self.add(t.a[1])
            if t.op == 'O' and not self.asym and not self.plain:
                x = t.a[1]
                for y in (mk('T', self.m, mk('P', self.m, x)), mk('N', self.m, mk('T', self.m, x))):
                    self.add(y)
                a = self.find(a)
            j = self.succ[a].get(t.op)
            if j is None:
                i = self.new(t)
                self.node[t] = i
                self.setlink(a, t.op, i)
            else:
                i = self.find(j)
                self.node[t] = i
                if not self.sealed and key(t) < key(self.rep[i]):
                    self.rep[i] = t
            return self.find(i)
        i = self.new(t)
        self.node[t] = i
        if self.plain:
            return self.find(i)
        if t.op == 'loop' and t.a[0] is self.m and type(t.a[1]) is T:
            f = self.add(mk('F', self.m, t.a[1]))
            self.setlink(i, 'F', f)
        elif t.op == 'wheel' and t.a[0] is self.m and type(t.a[1]) is T:
            f = self.add(mk('O', self.m, t.a[1]))
            self.setlink(i, 'O', f)
        return self.find(i)

    def setlink(self, a, op, b):
        a, b = self.find(a), self.find(b)
        cur = self.succ[a].get(op)
        if cur is not None:
            self.merge(cur, b)
            return
        if a == b and op in ('N', 'P', 'T') and not self.plain:
            raise Contradiction('%s of an edge is the edge itself' % op)
        self.succ[a][op] = b
        if self.plain:
            return
        if op in INV and not (op == 'T' and self.asym):
            self.setlink(b, INV[op], a)
        self.axioms(a)
        self.axioms(self.find(b))
        if op == 'V':
            self.setlink(b, 'Vp', a)
        if op in INV or op == 'O':
            for o in INV:
                x = self.succ[self.find(a)].get(o)
                if x is not None:
                    self.axioms(self.find(x))

    def axioms(self, a):
        if self.plain:
            return
        a = self.find(a)
        for op in ('N', 'P'):
            n = self.succ[a].get(op)
            if n is None:
                continue
            n = self.find(n)
            fa, fn = self.succ[a].get('F'), self.succ[n].get('F')
            if fa is not None and fn is None:
                self.setlink(n, 'F', fa)
            elif fn is not None and fa is None:
                self.setlink(a, 'F', fn)
            elif fa is not None and self.find(fa) != self.find(fn):
                self.merge(fa, fn)
            a = self.find(a)
        n, t = self.succ[a].get('N'), self.succ[a].get('T')
        if n is not None and t is not None and not self.asym:
            n, t = self.find(n), self.find(t)
            on, ot = self.succ[n].get('O'), self.succ[t].get('O')
            if on is not None and ot is None:
                self.setlink(t, 'O', on)
            elif ot is not None and on is None:
                self.setlink(n, 'O', ot)
            elif on is not None and self.find(on) != self.find(ot):
                self.merge(on, ot)
        a = self.find(a)
        v, o = self.succ[a].get('Vp'), self.succ[a].get('O')
        if v is not None and o is not None:
            self.merge(v, o)
        # a vertex with a leaving edge has a representative edge
        a = self.find(a)
        o = self.succ[a].get('O')
        if o is not None and self.nomax[a] and not self.isorg[self.find(o)]:
            self.isorg[self.find(o)] = True
            self.axioms(self.find(o))
        a = self.find(a)
        v = self.succ[a].get('V')
        if v is not None and self.isorg[a] and not self.nomax[self.find(v)]:
            if self.ismax[self.find(v)]:
                raise Contradiction('a vertex with edges has no representative edge')
            self.nomax[self.find(v)] = True
        v = self.succ[self.find(a)].get('V')
        if v is not None:
            self.back(self.find(a), v, 'O')
        f = self.succ[self.find(a)].get('FE')
        if f is not None:
            self.back(self.find(a), f, 'F')

    def back(self, a, e, op):
        e = self.find(e)
        if self.ismax[e] or self.ismax[a]:
            return
        o = self.succ[e].get(op)
        if o is None:
            # an isolated vertex has no representative edge: only when the edge is known to exist
            if op == 'F' or self.nomax[e]:
                self.setlink(e, op, a)
        elif self.find(o) != a:
            self.merge(o, a)

    def merge(self, i, j):
        i, j = self.find(i), self.find(j)
        if i == j:
            return
        if key(self.rep[j]) < key(self.rep[i]):
            i, j = j, i
        # j into i
        self.parent[j] = i
        self.ismax[i] |= self.ismax[j]
        self.nomax[i] |= self.nomax[j]
        self.isorg[i] |= self.isorg[j]
        if self.ismax[i] and self.nomax[i]:
            raise Contradiction('an existing element equals "none"')
        if self.alloc[j] is not None or self.alloc[i] is not None:
            if self.alloc[i] is not self.alloc[j]:
                raise Contradiction('a new element equals an old one')
        sj = self.succ[j]
        self.succ[j] = {}
        for op, b in sj.items():
            self.setlink(i, op, b)
            i = self.find(i)
        for op in list(self.succ[self.find(i)]):
            if op in ('N', 'P', 'T') and not self.plain and self.find(self.succ[self.find(i)][op]) == self.find(i):
                raise Contradiction('%s of an edge is the edge itself' % op)
        self.axioms(self.find(i))

    def equate(self, a, b):
        self.merge(self.add(a), self.add(b))
        self.check()

    def differ(self, a, b):
        self.diseqs.append((a, b))
        self.add(a), self.add(b)
        self.check()

    def check(self):
        for a, b in self.diseqs:
            if self.add(a) == self.add(b):
                raise Contradiction('equal and different')

    def c(self, t):
        return self.rep[self.add(t)]

    def impossible(self, a, b):
        """a == b contradicts what is known"""
        if self.add(a) == self.add(b):
            return False
        k = self.copy()
        try:
            k.equate(a, b)
        except Contradiction:
            return True
        except RecursionError:
            return False
        return False


def key(t):
    pri = 0 if t is MAX else 1 if t.op in ('p', 'alloc') else 2
    return (pri, t.d, t.n)

"""Exact half-edge heap for constructors: a mesh that starts empty and is grown by the analysed code, so that every
element is a known slot; payloads, positions and lengths stay symbolic."""
from ai import *
from mesh import *
import models

HEAP = place(mk('M', mk('heap')))


def root_of(n):
    """place of the elements of heap mesh n; 0 is the mesh given as self"""
    return HEAP if n == 0 else place(mk('M', mk('heap', n)))
PRE = {'.halfedges': 'e', '.vertices': 'v', '.faces': 'f'}


def slot(kind, n):
    return mk('alloc', kind, n)


class HeapDomain(MeshDomain):
    def __init__(self, P):
        MeshDomain.__init__(self, P, plain=True, summarise=False)

    def distinct(self, a, b):
        for x, y in ((a, b), (b, a)):
            if x.op == 'alloc' and (y is MAX or y.op == 'alloc' and x is not y):
                return True
        return False

    def known_exhausted(self, ai, st, it, n):
        return None


def heap_hooks(P):
    H = {}

    def dv(name):
        ids = P.inherent_all('DeletableVector', name)
        assert len(ids) == 1, name
        return ids[0]

    def kind(ai, v):
        p = ai.deref_place(v)
        k = p.a[-1]
        if k not in STORES:
            raise Decline('element store %s' % show(p)[:80])
        return k

    def which(ai, st, v):
        """number of the heap mesh whose store v refers to"""
        r = ai.read(st, ai.deref_place(v))
        return r.a[0] if r.op == 'store' else 0

    def count(st, k, h):
        return sum(1 for e in st.events() if e[0] == 'alloc' and e[1] == k and e[4] == h)

    def dead(st, k, h):
        return {e[2] for e in st.events() if e[0] == 'delete' and e[1] == k and e[4] == h}

    def el(h, k, x):
        return pl_ext(root_of(h), k, mk('ix', x))

    def fresh(st):
        n = 1 + sum(1 for e in st.events() if e[0] == 'store')
        st.event('store', n)
        return n

    def new(ai, st, c, args, site):
        st = st.copy()
        return [(st, mk('store', fresh(st)))]

    def clone(ai, st, c, args, site):
        p = ai.deref_place(args[0])
        k = p.a[-1]
        if k not in STORES:
            return None
        h = which(ai, st, args[0])
        st = st.copy()
        n = fresh(st)
        for e in list(st.events()):
            if e[0] in ('alloc', 'delete', 'set') and e[1] == k and e[4] == h:
                st.event(e[0], k, e[2], e[3], n)
                if e[0] == 'alloc':
                    x = el(h, k, e[2])
                    ai.write(st, el(n, k, e[2]), ai.read(st, x), site)
        return [(st, mk('store', n))]

    def clear(ai, st, c, args, site):
        kind(ai, args[0])
        st = st.copy()
        ai.write(st, ai.deref_place(args[0]), mk('store', fresh(st)), site)
        return [(st, args[0])]

    def ident(k, x):
        if x.op == 'newidx' and isconst(x.a[0]):
            return slot(k, x.a[0].a[0])
        return x

    def get(ai, st, c, args, site):
        k, h = kind(ai, args[0]), which(ai, st, args[0])
        x = ident(k, args[1])
        if x is MAX or x.op == 'alloc' and (x in dead(st, k, h) or x.a[1] >= count(st, k, h)):
            ai.panic(st, 'access to an element that does not exist', site)
            return []
        return [(st, mk('ref', el(h, k, x)))]

    def has(ai, st, c, args, site):
        k, h = kind(ai, args[0]), which(ai, st, args[0])
        x = ident(k, args[1])
        if x.op == 'alloc':
            return [(st, FALSE if x in dead(st, k, h) or x.a[1] >= count(st, k, h) else TRUE)]
        if x is MAX:
            return [(st, FALSE)]
        return None

    def allocate(ai, st, c, args, site):
        k, h = kind(ai, args[0]), which(ai, st, args[0])
        a = slot(k, count(st, k, h))
        st = st.copy()
        st.event('alloc', k, a, site, h)
        return [(st, a)]

    def setv(ai, st, c, args, site):
        k, h = kind(ai, args[0]), which(ai, st, args[0])
        st = st.copy()
        x = ident(k, args[1])
        st.event('set', k, x, site, h)
        ai.write(st, el(h, k, x), ai.upd(args[2], ('.id',), x), site)
        return [(st, UNIT)]

    def push(ai, st, c, args, site):
        k, h = kind(ai, args[0]), which(ai, st, args[0])
        a = slot(k, count(st, k, h))
        st = st.copy()
        st.event('alloc', k, a, site, h)
        st.event('set', k, a, site, h)
        ai.write(st, el(h, k, a), ai.upd(args[1], ('.id',), a), site)
        return [(st, a)]

    def delete(ai, st, c, args, site):
        k, h = kind(ai, args[0]), which(ai, st, args[0])
        x = ident(k, args[1])
        if x in dead(st, k, h):
            ai.panic(st, 'deletion of an element that does not exist', site)
            return []
        st = st.copy()
        st.event('delete', k, x, site, h)
        return [(st, UNIT)]

    def live(st, k, h):
        d = dead(st, k, h)
        return [slot(k, i) for i in range(count(st, k, h)) if slot(k, i) not in d]

    def it(ai, st, c, args, site):
        k, h = kind(ai, args[0]), which(ai, st, args[0])
        return [(st, mk('it', 'val', mk('array', *[mk('ref', el(h, k, x)) for x in live(st, k, h)])))]

    def ln(ai, st, c, args, site):
        return [(st, num(len(live(st, kind(ai, args[0]), which(ai, st, args[0])))))]

    def cap(ai, st, c, args, site):
        return [(st, num(count(st, kind(ai, args[0]), which(ai, st, args[0]))))]

    for f in P.inherent_all('DeletableVector', 'capacity'):
        H[f] = cap
    H.update({dv('get'): get, dv('get_mut'): get, dv('has'): has, dv('allocate'): allocate, dv('set'): setv, dv('push'): push,
              dv('delete_internal'): delete, dv('iter'): it, dv('iter_mut'): it, dv('len'): ln})
    H[dv('new')] = new
    H[dv('clear')] = clear
    for i in P.impls:
        if str(i.get('trait')).endswith('clone::Clone') and str(i.get('self_adt') or i['self_ty']).split('<')[0].endswith('DeletableVector'):
            for x in i['items']:
                H[x[0]] = clone
    return H


class Decline(Exception):
    pass


class HeapRun:
    def __init__(self, P, extra=None, loop=40, maxpaths=400, budget=3000000):
        self.P = P
        self.dom = HeapDomain(P)
        self.ai = AI(P, hooks=heap_hooks(P), domain=self.dom, loop=loop, maxpaths=maxpaths)
        self.ai.concrete = True
        self.ai.joins = False
        self.ai.budget_steps = budget
        own0 = star_hook(P, self.dom)

        def own(ai, st, c, rid, args, site):
            r = own0(ai, st, c, rid, args, site)
            if r and len(r) == 1 and r[0][1].op == 'newidx' and isconst(args[0]):
                k = {'V': '.vertices', 'E': '.halfedges', 'F': '.faces'}.get(str(c.get('self_ty', '')).split('::')[-1])
                if k:
                    return [(st, slot(k, args[0].a[0]))]
            return r
        self.ai.hooks['*'] = (lambda *a: extra(*a) or own(*a)) if extra else own

    def run(self, fid, args, st=None):
        return self.ai.run(fid, args, st)


class Heap:
    """final mesh of a path"""

    def __init__(self, ai, st, mesh=None):
        """mesh: the mesh value, its place or a reference to it; without it the only mesh that has elements"""
        self.ai, self.st = ai, st
        self.n = {k: 0 for k in PRE}
        self.dead = {k: set() for k in PRE}
        self.h = {}
        for k in PRE:
            hs = {e[4] for e in st.events() if e[0] == 'alloc' and e[1] == k}
            self.h[k] = max(hs) if len(hs) == 1 else 0
            if mesh is not None:
                v = mesh
                if v.op == 'ref':
                    v = v.a[0]
                v = ai.read(st, pl_ext(v, k)) if v.op == 'pl' else ai.proj1(v, k)
                if v.op != 'store':
                    raise Decline('mesh value %s' % show(v)[:80])
                self.h[k] = v.a[0]
        for e in st.events():
            if e[0] == 'alloc' and e[4] == self.h[e[1]]:
                self.n[e[1]] += 1
            elif e[0] == 'delete' and e[4] == self.h[e[1]]:
                self.dead[e[1]].add(e[2])

    def live(self, k):
        return [slot(k, i) for i in range(self.n[k]) if slot(k, i) not in self.dead[k]]

    def rd(self, k, x, f):
        return self.ai.read(self.st, pl_ext(root_of(self.h[k]), k, mk('ix', x), f))

    def next(self, e): return self.rd('.halfedges', e, '.next')
    def twin(self, e): return self.rd('.halfedges', e, '.twin')
    def prev(self, e): return self.rd('.halfedges', e, '.prev')
    def origin(self, e): return self.rd('.halfedges', e, '.origin_id')
    def face(self, e): return self.rd('.halfedges', e, '.face')
    def payload(self, v): return self.rd('.vertices', v, '.payload')

    def cycle(self, e, limit=200):
        r, x = [], e
        while len(r) < limit:
            r.append(x)
            x = self.next(x)
            if x is e:
                return r
            if x.op != 'alloc':
                return None
        return None


def adt(P, name, **fields):
    """struct value of a local type by its name; missing fields are opaque"""
    d = [a for a in P.adts.values() if a['id'].split('::')[-1] == name]
    assert len(d) == 1, name
    v = d[0]['variants'][0]
    fs = tuple(f[0] for f in v['fields'])
    return mk('adt', d[0]['id'], v['name'], fs, *[fields.get(f, mk('p', name + '.' + f, name + '.' + f)) for f in fs])


class Source:
    """a given mesh: boundary cycles as lists of vertex numbers, each with a face number or None; covers every directed edge"""

    def __init__(self, nv, cycles, curved=(), gaps=None, wheel=None, name='', order=None):
        self.nv, self.cycles, self.curved, self.name = nv, cycles, set(curved), name
        g = gaps or {}
        self.vs = self.ids('.vertices', nv, g.get('v', ()))
        self.edges = [(c[i], c[(i + 1) % len(c)]) for _, c in cycles for i in range(len(c))]
        assert len(set(self.edges)) == len(self.edges)
        if order:
            self.edges = [self.edges[i] for i in order]
        self.es = dict(zip(self.edges, self.ids('.halfedges', len(self.edges), g.get('e', ()))))
        self.nf = len([f for f, _ in cycles if f is not None])
        self.fs = self.ids('.faces', self.nf, g.get('f', ()))
        self.gaps = g
        self.next, self.face = {}, {}
        for f, c in cycles:
            n = len(c)
            for i in range(n):
                self.next[(c[i], c[(i + 1) % n])] = (c[(i + 1) % n], c[(i + 2) % n])
                self.face[(c[i], c[(i + 1) % n])] = f
        self.prev = {b: a for a, b in self.next.items()}
        self.rep = {}
        for e in self.edges:
            self.rep.setdefault(e[0], e)
        self.rep.update(wheel or {})
        self.frep = {f: (c[0], c[1]) for f, c in cycles if f is not None}

    @staticmethod
    def ids(kind, n, gaps):
        out, i = [], 0
        while len(out) < n:
            if i not in gaps:
                out.append(slot(kind, i))
            i += 1
        return out

    def lay(self, P, ai, st, h, mesh):
        """write the mesh to the heap as number h and make the place `mesh` that mesh"""
        st = st.copy()
        nm = self.name
        eid = lambda e: self.es[e]
        for k, n in (('.vertices', self.vs), ('.halfedges', list(self.es.values())), ('.faces', self.fs)):
            m = 1 + max([x.a[1] for x in n], default=-1)
            for i in range(m):
                st.event('alloc', k, slot(k, i), None, h)
                st.event('set', k, slot(k, i), None, h)
                if slot(k, i) not in n:
                    st.event('delete', k, slot(k, i), None, h)
        w = lambda k, x, v: ai.write(st, pl_ext(root_of(h), k, mk('ix', x)), v, None)
        for i, x in enumerate(self.vs):
            w('.vertices', x, adt(P, 'HalfEdgeVertexImpl', id=x, edge=eid(self.rep[i]) if i in self.rep else MAX, payload=X('%svp%d' % (nm, i))))
        for e, x in self.es.items():
            w('.halfedges', x, adt(P, 'HalfEdgeImpl', id=x, next=eid(self.next[e]), prev=eid(self.prev[e]), twin=eid(e[::-1]), origin_id=self.vs[e[0]],
                                   face=MAX if self.face[e] is None else self.fs[self.face[e]], payload=X('%sep%d_%d' % ((nm,) + e))))
        for f in range(self.nf):
            w('.faces', self.fs[f], adt(P, 'HalfEdgeFaceImpl', id=self.fs[f], edge=eid(self.frep[f]), curved=TRUE if f in self.curved else FALSE,
                                        payload=X('%sfp%d' % (nm, f))))
        ai.write(st, mesh, adt(P, 'HalfEdgeMeshImpl', vertices=mk('store', h), halfedges=mk('store', h), faces=mk('store', h), payload=X(nm + 'mp')), None)
        return st

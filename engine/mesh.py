"""Half-edge mesh domain for the value-flow analysis: normal forms for links of the
*initial* mesh (which is assumed to satisfy the invariants), fresh ids for allocated
slots, and element access without bounds/deleted forks."""
from ai import *
import models

MAX = mk('MAX')
CR = 'procedural_modelling::'
LINKF = {'next': 'N', 'prev': 'P', 'twin': 'T', 'origin_id': 'O', 'face': 'F'}
STORES = ('.halfedges', '.vertices', '.faces')


class MeshDomain:
    """hyp: extra equalities assumed of the initial mesh, {term: term} on link terms."""

    def __init__(self, P, hyps=(), raw=(), asym=False, summarise=True, plain=False):
        self.P = P
        self.plain = plain  # no mesh invariant is assumed
        self.summarise = summarise
        self.asym = asym
        self.raw = list(raw)
        self.hyp = {}
        self.hyps_src = []
        self.nalloc = 0
        self.allocs = {}
        self.strict = True
        for a, b in hyps:
            self.add_hyp(a, b)
        for a, b in self.raw:
            self.hyp[a] = b

    # ---------------------------------------------------------------- link terms
    def add_hyp(self, a, b):
        """assume a == b where a is a link term"""
        self.hyps_src.append((a, b))
        self.hyp[a] = b
        m = a.a[0]
        if a.op == 'N':
            self.hyp[mk('P', m, b)] = a.a[1]
            self.same(m, 'F', b, self.link('F', m, a.a[1]))
            self.same(m, 'O', b, self.link('O', m, self.link('T', m, a.a[1])))
        if a.op == 'P':
            self.hyp[mk('N', m, b)] = a.a[1]
            self.same(m, 'F', b, self.link('F', m, a.a[1]))
            self.same(m, 'O', a.a[1], self.link('O', m, self.link('T', m, b)))
        if a.op == 'T':
            self.hyp[mk('T', a.a[0], b)] = a.a[1]

    def same(self, m, op, x, val):
        t = mk(op, m, x)
        cur = self.link(op, m, x)
        if cur is val or val is t:
            return
        if cur is t:
            self.hyp[t] = val
        elif val.op == op and val not in self.hyp:
            self.hyp[val] = cur

    def link(self, op, m, x):
        return self._norm(op, m, x, 0)

    def _norm(self, op, m, x, d):
        t = mk(op, m, x)
        h = self.hyp.get(t)
        if h is not None:
            return h
        if d > 12 or self.plain:
            return t
        o = x.op
        same = len(x.a) == 2 and x.a[0] is m
        if op == 'N' and o == 'P' and same: return x.a[1]
        if op == 'P' and o == 'N' and same: return x.a[1]
        if op == 'T' and o == 'T' and same and not self.asym: return x.a[1]
        if op == 'F':
            if o in ('N', 'P') and same: return self._norm('F', m, x.a[1], d + 1)
            if o == 'FE' and same: return x.a[1]
            if o == 'loop' and x.a[0] is m: return self._norm('F', m, x.a[1], d + 1)
        if op == 'O' and not self.asym:
            if o == 'N' and same: return self._norm('O', m, self._norm('T', m, x.a[1], d + 1), d + 1)
            if o == 'T' and same and x.a[1].op == 'P' and x.a[1].a[0] is m:
                return self._norm('O', m, x.a[1].a[1], d + 1)
            if o == 'V' and same: return x.a[1]
            if o == 'wheel' and x.a[0] is m: return self._norm('O', m, x.a[1], d + 1)
        return t

    # ---------------------------------------------------------------- hooks into AI
    def read_ini(self, p):
        a = p.a
        # ... '.halfedges', ix(e), '.next'
        if len(a) >= 4 and isinstance(a[-1], str) and type(a[-2]) is T and a[-2].op == 'ix' and a[-3] in STORES:
            m = mk('mesh', a[0], *a[1:-3])
            x = a[-2].a[0]
            f = a[-1][1:]
            if x.op == 'alloc':
                return None
            if a[-3] == '.halfedges':
                if f == 'id': return x
                if f in LINKF: return self.link(LINKF[f], m, x)
            elif a[-3] == '.vertices':
                if f == 'id': return x
                if f == 'edge':
                    return self.link('V', m, x)
            elif a[-3] == '.faces':
                if f == 'id': return x
                if f == 'edge': return self.link('FE', m, x)
        return None

    def field(self, pr, v):
        return None

    # ---------------------------------------------------------------- summarised traversals
    KINDS = {'ForwardEdgeIterator': 'loop', 'BackwardEdgeIterator': 'loop', 'ForwardEdgeIteratorMut': 'loop',
             'IncidentToVertexIterator': 'wheel'}

    def is_summarised(self, v):
        return self.summarise and v.op == 'adt' and v.a[0].split('::')[-1] in self.KINDS \
            and 'first' in v.a[2] and 'mesh' in v.a[2] and v.a[3 + v.a[2].index('first')].op != 'alloc'

    def iter_parts(self, v):
        g = lambda f: v.a[3 + v.a[2].index(f)]
        first = g('first')
        cur = g('current')
        if cur.op == 'adt' or (cur.op in ('ini', 'upd')):
            cur = None
        return self.KINDS[v.a[0].split('::')[-1]], first, g('mesh'), v.a[0].split('::')[-1]

    def gen_item(self, ai, st, it, tag, site):
        if not self.is_summarised(it):
            return None
        kind, first, mesh, nm = self.iter_parts(it)
        mp = ai.deref_place(mesh)
        m = mk('mesh', *mp.a)
        x = mk(kind, m, first, tag if tag == '*' else '%s@%s' % (tag, site))
        p = pl_ext(mp, '.halfedges', mk('ix', x))
        if nm.endswith('Mut'):
            return [(st, mk('ref', p))]
        return [(st, ai.read(st, p))]

    def pure_base(self, it):
        """underlying traversal if the chain visits every element of it, else None"""
        for _ in range(20):
            if it.op == 'adv':
                it = it.a[0]
            elif self.is_summarised(it):
                return it
            elif it.op == 'it' and it.a[0] in ('map', 'cloned', 'copied', 'enumerate', 'val', 'inspect', 'fuse', 'peekable', 'rev'):
                it = it.a[1]
            elif it.op == 'coll':
                it = it.a[0]
            elif it.op == 'post' or it.op == 'refto':
                return None
            else:
                return None
        return None

    def known_exhausted(self, ai, st, it, n):
        if it.op == 'it' and it.a[0] == 'ref':
            v = ai.deref(st, it.a[1])
            b = self.pure_base(v) if v.op == 'coll' else None
        else:
            b = self.pure_base(it)
        if b is None:
            return None
        kind, first, mesh, nm = self.iter_parts(b)
        if first is MAX:
            return True
        if n == 0 and not self.plain:
            return False
        return None

    def nvariants(self, t):
        return None

    EDGEOPS = ('N', 'P', 'T', 'FE', 'loop', 'wheel')

    def is_edge_id(self, t):
        return t.op in self.EDGEOPS or (t.op == 'p' and str(t.a[1] or '').startswith('e:'))

    def distinct(self, a, b):
        if self.plain:
            return False
        for x, y in ((a, b), (b, a)):
            if x is MAX:
                if y.op in ('N', 'P', 'T', 'FE', 'O', 'alloc', 'loop', 'wheel'):
                    return True
                if y.op == 'p' and str(y.a[1] or '')[:2] in ('e:', 'v:', 'f:'):
                    return True
            if x.op == 'alloc':
                if y.op == 'alloc' and x is not y:
                    return True
                if y.op in ('N', 'P', 'T', 'FE', 'O', 'V', 'F', 'p', 'loop', 'wheel'):
                    return True
            if x.op in ('N', 'P', 'T') and len(x.a) == 2 and x.a[1] is y:
                return True
            # N(x) vs P.. of twins etc. stay undecided
        if a.op == b.op and a.op in ('N', 'P', 'T') and a.a[0] is b.a[0]:
            # injective links
            return self.distinct(a.a[1], b.a[1])
        return False

    def decide(self, ai, st, t):
        if t.op == 'bin' and t.a[0] == 'Eq':
            if self.distinct(t.a[1], t.a[2]):
                return 0
        return None


def elem_place(ref_place, idx):
    return pl_ext(ref_place, mk('ix', idx))


def const_max(ai, st, c, args, site):
    return [(st, MAX)]


def hooks(P, dom, loops=False):
    """hooks for element storage primitives"""
    H = {}

    def dv(name):
        ids = P.inherent_all('DeletableVector', name)
        assert len(ids) == 1, 'DeletableVector::%s not found' % name
        return ids[0]

    def get(ai, st, c, args, site):
        p = ai.deref_place(args[0])
        st2 = st
        if site_rec[0]:
            st2 = st.copy()
            st2.event('access', pl_ext(p, mk('ix', args[1])), args[1], site)
        return [(st2, mk('ref', elem_place(p, args[1])))]

    site_rec = [False]

    def has(ai, st, c, args, site):
        if args[1].op in dom.EDGEOPS + ('O', 'p', 'alloc'):
            return [(st, TRUE)]
        return [(st, mk('has', args[0], args[1]))]

    def alloc_id(ai, st, p):
        n = sum(1 for e in st.events() if e[0] == 'alloc' and e[1] is p)
        return mk('alloc', p, n)

    def allocate(ai, st, c, args, site):
        p = ai.deref_place(args[0])
        a = alloc_id(ai, st, p)
        st = st.copy()
        st.event('alloc', p, a, site)
        return [(st, a)]

    def setv(ai, st, c, args, site):
        p = ai.deref_place(args[0])
        st = st.copy()
        v = args[2]
        v = ai.upd(v, ('.id',), args[1])
        st.event('set', pl_ext(p, mk('ix', args[1])), v, site)
        ai.write(st, elem_place(p, args[1]), v, site)
        return [(st, UNIT)]

    def push(ai, st, c, args, site):
        p = ai.deref_place(args[0])
        a = alloc_id(ai, st, p)
        st = st.copy()
        st.event('alloc', p, a, site)
        v = ai.upd(args[1], ('.id',), a)
        st.event('set', pl_ext(p, mk('ix', a)), v, site)
        ai.write(st, elem_place(p, a), v, site)
        return [(st, a)]

    def delete(ai, st, c, args, site):
        p = ai.deref_place(args[0])
        st = st.copy()
        st.event('delete', pl_ext(p, mk('ix', args[1])), args[1], site)
        return [(st, UNIT)]

    H[dv('get')] = get
    H[dv('get_mut')] = get
    H[dv('has')] = has
    H[dv('allocate')] = allocate
    H[dv('set')] = setv
    H[dv('push')] = push
    H[dv('delete_internal')] = delete
    return H


def star_hook(P, dom):
    def h(ai, st, c, rid, args, site):
        i = c['id']
        if i == CR + 'math::index_type::IndexType::max':
            return [(st, MAX)]
        if c.get('trait') == CR + 'math::index_type::IndexType':
            n = i.split('::')[-1]
            if n == 'index':
                x = args[0]
                while x.op == 'ref':
                    x = ai.deref(st, x)
                return [(st, mk('idx', x))]
            if n == 'new':
                if args[0].op == 'idx':
                    return [(st, args[0].a[0])]
                return [(st, mk('newidx', args[0]))]
        if i == CR + 'util::deletable::Deletable::is_deleted':
            return [(st, FALSE)]
        if not c['local']:
            sn = short(c['name'])
            if sn.startswith('std::fmt') or sn.startswith('core::fmt') or 'fmt::rt' in sn:
                return [(st, mk('fmt'))]
        return None
    return h


class MeshRun:
    """run an entry point on a symbolic mesh `self`"""

    def __init__(self, P, fid, args, hyps=(), loop=2, maxpaths=6000, extra_hooks=None, budget=None, **dk):
        self.P = P
        self.dom = MeshDomain(P, hyps, **dk)
        self.ai = AI(P, hooks=hooks(P, self.dom), domain=self.dom, loop=loop, maxpaths=maxpaths)
        self.ai.hooks['*'] = star_hook(P, self.dom)
        if extra_hooks:
            own = self.ai.hooks['*']
            self.ai.hooks.update(extra_hooks)
            if '*' in extra_hooks:
                first = extra_hooks['*']
                self.ai.hooks['*'] = lambda *a: first(*a) or own(*a)
        if budget:
            self.ai.budget_steps = budget
        self.fid = fid
        self.args = args

    def run(self, st=None):
        return self.ai.run(self.fid, self.args, st)


SELF = mk('p', 0, 'self')
MESH = mk('mesh', mk('M', SELF))


def E(n): return mk('p', n, 'e:%s' % n)
def V(n): return mk('p', n, 'v:%s' % n)
def F(n): return mk('p', n, 'f:%s' % n)
def X(n): return mk('p', n, str(n))

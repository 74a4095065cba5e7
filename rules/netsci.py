"""N01: graph matrices of a mesh."""
from ai import *
from mesh import *
from query import *
from queries import Run, dv_hooks, SELF
from mathx import math_hooks
import models
import report


def hooks(P):
    H = dict(dv_hooks(P))
    def vid(ai, st, a):
        while a.op == 'ref':
            a = ai.deref(st, a)
        return ai.proj1(a, '.id') if a.op in ('ini', 'adt', 'upd') else a
    for t in P.traits.values():
        if t['id'].endswith('::VertexBasics'):
            for m_ in t['methods']:
                if m_['name'] == 'degree':
                    H[m_['id']] = lambda ai, st, c, args, site: [(st, mk('app', 'degree', vid(ai, st, args[0])))]
                if m_['name'] in ('edges_out', 'edges_in', 'neighbor_ids', 'vertices'):
                    H[m_['id']] = lambda ai, st, c, args, site: [(st, mk('it', 'val', mk('app', 'around', vid(ai, st, args[0]))))]

    mh = math_hooks(P)['*']

    def star(ai, st, c, rid, args, site):
        nm = models.short(c['name']).split('::')[-1]
        if args and args[0].op == 'it' and nm in ('count', 'len') and around(args[0]):
            return [(st, mk('app', 'degree', around(args[0])))]
        if args and nm in ('into_iter', 'drain') and entries(args[0]) is not None:
            xs = entries(args[0])
            st = st.copy()
            st.event('unordered')
            return [(st, mk('it', 'val', mk('array', *[mk('tuple', a, b) for a, b in xs])))]
        if args and args[0].op == 'it' and nm in SORTS:
            xs = args[0].a[1].a if args[0].a[0] == 'val' and args[0].a[1].op == 'array' else None
            if xs is None:
                gen = models.gen_item(ai, st, args[0], '*', site)
                if not gen:
                    return None
                work = [(s, (x,)) for s, x, _ in gen]
            else:
                work = [(st.copy(), tuple(xs))]
            res = []
            for s, xs in work:
                if len(args) == 1:
                    pairs = [(s, tuple(xs))]
                elif nm.endswith('_key'):
                    pairs = [(s, ())]
                    for x in xs:
                        nxt = []
                        for s1, ks in pairs:
                            r, s1 = models.tmpref(ai, s1, x)
                            nxt += [(s2, ks + (ai.snap(s2, y),)) for s2, y in ai.call_value(s1, args[1], [r], site)]
                        pairs = nxt
                else:
                    a, b = mk('p', 90, 'left'), mk('p', 91, 'right')
                    ra, s1 = models.tmpref(ai, s, a)
                    rb, s1 = models.tmpref(ai, s1, b)
                    pairs = [(s2, (ai.snap(s2, y),)) for s2, y in ai.call_value(s1, args[1], [ra, rb], site)]
                for s2, ks in pairs:
                    s2 = s2.copy()
                    s2.event('sorted', mk('tuple', *xs), mk('tuple', *ks), nm)
                    res.append((s2, args[0]))
            return res
        return mh(ai, st, c, rid, args, site)
    H['*'] = star
    return H


SORTS = ('sorted_unstable_by_key', 'sorted_by_key', 'sorted_by_cached_key', 'sorted', 'sorted_unstable', 'sorted_by', 'sorted_unstable_by')


def around(it):
    while it.op == 'it':
        if it.a[0] == 'val' and it.a[1].op == 'app' and it.a[1].a[0] == 'around':
            return it.a[1].a[1]
        if it.a[0] not in ('map', 'inspect', 'cloned', 'copied', 'enumerate', 'rev'):
            return None
        it = it.a[1]
    return None


def entries(x):
    xs = []
    while x.op == 'mput':
        xs.append((x.a[1], x.a[2]))
        x = x.a[0]
    return xs[::-1] if x.op == 'map0' else None


class Unknown(Exception):
    pass


class Cells:
    """a matrix as zero plus cell updates in order"""

    def __init__(self, q, st, k):
        self.q, self.st, self.k = q, st, k
        self.size = None

    # ---- values: linear combinations of classes
    def canon(self, x):
        return self.k.add(x)

    def vertex(self, x):
        x = self.q.val(self.st, x)
        if x.op == 'idx':
            return self.vertex(x.a[0])
        return x

    def val(self, x):
        x = self.bare(x)
        if x.op == 'cdef':
            n_ = {'ONE': 1, 'ZERO': 0, 'TWO': 2}.get(x.a[0].split('::')[-1])
            if n_ is None:
                raise Unknown(x)
            return {(): n_} if n_ else {}
        if isconst(x):
            return {(): x.a[0]} if x.a[0] else {}
        if x.op == 'bin' and x.a[0] in ('Add', 'Sub'):
            a, b = self.val(x.a[1]), self.val(x.a[2])
            return lin(a, b, 1 if x.a[0] == 'Add' else -1)
        if x.op in ('un', 'neg') or x.op == 'app' and x.a[0].split('::')[-1] == 'neg':
            return lin({}, self.val(x.a[-1]), -1)
        if x.op == 'app':
            nm = x.a[0].split('::')[-1]
            if nm in ('from_usize', 'from', 'into'):
                return self.val(x.a[1])
            if nm in ('one',):
                return {(): 1}
            if nm in ('zero', 'default'):
                return {}
            if nm == 'degree':
                return {('deg', self.canon(self.vertex(x.a[1]))): 1}
            if nm == 'distance':
                return {('dist', frozenset((self.pos(x.a[1]), self.pos(x.a[2])))): 1}
            y = self.bare(x.a[1]) if len(x.a) > 1 else x
            if nm in ('length', 'norm') and y.op == 'bin' and y.a[0] == 'Sub':
                return {('dist', frozenset((self.pos(y.a[1]), self.pos(y.a[2])))): 1}
            if nm == 'sqrt' and y.op == 'app' and y.a[0].split('::')[-1] == 'distance_squared':
                return {('dist', frozenset((self.pos(y.a[1]), self.pos(y.a[2])))): 1}
            if nm == 'distance_squared':
                return {('dist2', frozenset((self.pos(x.a[1]), self.pos(x.a[2])))): 1}
        if x.op == 'at':
            i, j = self.index(x.a[1])
            for a, b, op, v in reversed(self.mat(x.a[0])):
                if (a, b) == (i, j) and op == 'set':
                    return dict(v)
                break
        raise Unknown(x)

    def index(self, tup):
        if tup.op == 'ix':
            tup = tup.a[0]
        if tup.op != 'tuple' or len(tup.a) != 2:
            raise Unknown(tup)
        return [self.canon(self.vertex(y)) for y in tup.a]

    def pos(self, x):
        """the vertex whose position this is"""
        ids = [y for y in walk(x) if y.op == 'ix']
        apps = [y.a[0].split('::')[-1] for y in walk(x) if y.op == 'app']
        if len(set(ids)) == 1 and '.vertices[' in show(x) and set(apps) <= {'pos', 'clone', 'payload'} and not any(
                y.op in ('bin', 'un', 'adt', 'tuple') for y in walk(x) if y not in ids and not contains(ids[0], lambda z: z is y)):
            return self.canon(ids[0].a[0])
        raise Unknown(x)

    # ---- matrices
    def bare(self, x):
        x = self.q.val(self.st, x)
        while x.op == 'refto':
            x = self.q.val(self.st, x.a[0])
        return x

    def mat(self, x, sign=1):
        """[(i, j, 'set'|'add'|'rowsum', value)]"""
        x = self.bare(x)
        if x.op == 'bin' and x.a[0] in ('Add', 'Sub'):
            return self.mat(x.a[1], sign) + self.mat(x.a[2], sign if x.a[0] == 'Add' else -sign)
        if x.op == 'upd':
            base, pth, v = x.a[0], x.a[1], x.a[2]
            if pth.op != 'path' or len(pth.a) != 1 or pth.a[0].op != 'ix':
                raise Unknown(x)
            i, j = self.index(pth.a[0])
            rest = self.mat(base, sign)
            if v.op == 'bin' and v.a[0] in ('Add', 'Sub'):
                for y, z in [(self.bare(v.a[1]), v.a[2])] + ([(self.bare(v.a[2]), v.a[1])] if v.a[0] == 'Add' else []):
                    if y.op == 'at' and self.index(y.a[1]) == [i, j] and rest[:len(self.mat(y.a[0], sign))] == self.mat(y.a[0], sign):
                        return rest + [(i, j, 'add', key(lin({}, self.val(z), sign if v.a[0] == 'Add' else -sign)))]
            return rest + [(i, j, 'set', key(lin({}, self.val(v), sign)))]
        if x.op in ('un', 'neg'):
            return self.mat(x.a[-1], -sign)
        if x.op == 'app':
            nm = x.a[0].split('::')[-1]
            if nm in ('from_element', 'from_element_generic', 'repeat') and len(x.a) == 4:
                if self.val(x.a[3]):
                    raise Unknown(x)
                return self.sized(x.a[1], x.a[2])
            if nm == 'zeros' and len(x.a) == 3:
                return self.sized(x.a[1], x.a[2])
            if nm == 'from_diagonal':
                d = self.bare(x.a[1])
                while d.op == 'app' and d.a[0].split('::')[-1] in ('transpose', 'clone'):
                    d = self.bare(d.a[1])
                if d.op == 'app' and d.a[0].split('::')[-1] in ('column_sum', 'row_sum', 'row_sum_tr'):
                    # symmetric matrices: both are the sums over a row
                    return [(i, i, 'add', v) for i, j, op, v in dict.fromkeys(self.mat(d.a[1], sign))]
            if nm in ('clone', 'transpose', 'to_owned'):
                m_ = self.mat(x.a[1], sign)
                return [(j, i, op, v) for i, j, op, v in m_] if nm == 'transpose' else m_
            if nm in ('add', 'sub') and len(x.a) == 3:
                return self.mat(x.a[1], sign) + self.mat(x.a[2], sign if nm == 'add' else -sign)
            if nm == 'neg':
                return self.mat(x.a[1], -sign)
        raise Unknown(x)

    def sized(self, a, b):
        self.sizes = getattr(self, 'sizes', []) + [self.q.val(self.st, a), self.q.val(self.st, b)]
        return []


def walk(x):
    yield x
    for y in x.a:
        if type(y) is T:
            yield from walk(y)
        elif type(y) is tuple:
            for z in y:
                if type(z) is T:
                    yield from walk(z)


def lin(a, b, s):
    r = dict(a)
    for k_, v in b.items():
        r[k_] = r.get(k_, 0) + s * v
        if not r[k_]:
            del r[k_]
    return r


def key(d):
    return frozenset(d.items())


def store(it):
    """the iterator draws from an element store or a list known in full"""
    while it.op in ('adv', 'it'):
        if it.op == 'it' and it.a[0] in ('ref', 'val'):
            return it.a[0] == 'ref' and it.a[1].op == 'ref' or it.a[1].op == 'array'
        it = it.a[0] if it.op == 'adv' else it.a[1]
    return False


def drawn(st, store):
    """([elements drawn], complete?) of an element store on this path; complete None: not understood"""
    items, ends = {}, set()
    lossy = False
    for c, v in st.conds.items():
        if c.op != 'exhausted':
            continue
        b, d = c.a[0], 0
        while b.op == 'adv':
            b, d = b.a[0], d + 1
        if not show(b).endswith(store + ')') and store + ')' not in show(b) and not show(b).endswith(store):
            continue
        y = b
        while y.op == 'it' and y.a[0] not in ('ref', 'val'):
            if y.a[0] in ('filter', 'filter_map', 'take_while', 'skip_while', 'map_while', 'step_by', 'skip', 'take', 'chain', 'zip'):
                lossy = y.a[0]
            y = next((z for z in y.a[1:] if type(z) is T and z.op in ('it', 'adv')), None)
            if y is None:
                return None
        ends.add((d, v))
    return ends, lossy


def filters(st, store):
    out = []
    for c in st.conds:
        if c.op == 'exhausted' and store + ')' in show(c):
            for y in walk(c):
                if y.op == 'it' and y.a[0] == 'filter' and y.a[1].op == 'it' and y.a[1].a[0] == 'ref' and show(y.a[1]).endswith(store + ')'):
                    out.append(y.a[2])
    return list(dict.fromkeys(out))


def rejects(q, clo, x):
    """states in which the selection rejects the edge x"""
    r, st = models.tmpref(q.ai, St(), elem(HALF, x))
    outs = []
    for s, v in q.ai.call_value(st, clo, [r], ('', '')):
        for s2, b in q.ai.fork(s, v):
            if not b:
                outs.append(s2)
    return outs


def one_side(q, clo):
    """of each pair of directed edges at least one passes the selection"""
    x = mk('p', 95, 'x')
    try:
        A, B = rejects(q, clo, x), rejects(q, clo, t(x))
    except Exception:
        return None, ''
    worst = True, ''
    for a in A:
        k = q.cc(a)
        if k is None:
            continue
        for b in B:
            ls = [(c.a[1], c.a[2], v == 1) for c, v in b.conds.items() if c.op == 'bin' and c.a[0] == 'Eq']
            kk = lits(k, ls)
            if kk is None:
                continue
            odd = [(c, v) for s_ in (a, b) for c, v in s_.conds.items() if not (c.op == 'bin' and c.a[0] == 'Eq')]
            if odd:
                le = set()
                for c, v in odd:
                    if c.op == 'bin' and c.a[0] in ('Lt', 'Le', 'Gt', 'Ge'):
                        u, w_ = c.a[1:]
                        up = (c.a[0] in ('Lt', 'Le')) == (v == 1)
                        le.add((kk.add(u), kk.add(w_)) if up else (kk.add(w_), kk.add(u)))
                if any((b_, a_) in le and a_ != b_ for a_, b_ in le):
                    continue   # both orders: the same vertex or edge at both ends
                if worst[0]:
                    worst = None, ''
                continue
            return False, 'both directions are left out when %s' % [(show(c)[:80], v) for s_ in (a, b) for c, v in s_.conds.items()]
    return worst


def n01(P, rep, tier, cfg, rel):
    R = Run(P, rep, 'matrix')
    loop = 3 if tier == 'thorough' else 2
    H = hooks(P)
    for nm, want in (('adjacency_matrix', 'adj'), ('adjacency_matrix_euclidean', 'wadj'), ('degree_matrix', 'deg'),
                     ('laplacian', 'lap'), ('laplacian_euclidean', 'wlap')):
        matrix(R, nm, want, H, loop)
    degrees(R, H, loop)
    rep.floor('matrix', 60)


def items(st, r, store):
    """elements of a store mentioned in the result or the conditions"""
    out = {}
    for x in [r] + list(st.conds) + [y for ev in st.events() for y in ev[1:] if type(y) is T]:
        for y in walk(x):
            if y.op == 'item' and '*' not in y.a[1:] and show(y.a[0]).endswith('*self%s)' % store):
                out[y] = 1
    return list(out)


LABEL = {'adj': 'adjacency matrix', 'wadj': 'weighted adjacency matrix', 'deg': 'degree matrix', 'lap': 'Laplacian', 'wlap': 'weighted Laplacian'}


def matrix(R, nm, want, H, loop):
    lab = LABEL[want]
    q = R.q('NetworkScience', nm, [SELF], extra_hooks=H, loop=loop, stepwise=True)
    if not q:
        return
    most = 0
    for st, r, k in R.feasible(q):
        es, vs = items(st, r, '.halfedges'), items(st, r, '.vertices')
        res = q.ai.snap(st, r) if r.op == 'ref' else r
        C = Cells(q, st, k)
        C.sizes = []
        most = max(most, len(es) + len(vs))
        try:
            got = C.mat(res)
        except Unknown as u:
            R.ob(q, lab, None, 'result %s' % show(u.args[0])[:200])
            continue
        size = [s_ for s_ in C.sizes]
        okn = mk('dv', 'len', pl_ext(ROOT, '.vertices'))
        for s_ in size:
            R.ob(q, lab + ': one row and column per vertex', show(s_) == show(okn) or (None if fuzzy(s_) else False), 'has %s of them' % show(s_)[:120])
        # loops ran to the end, over everything
        E_ = drawn(st, '.halfedges')
        V_ = drawn(st, '.vertices')
        if want != 'deg':
            sel = filters(st, '.halfedges')
            if E_ and E_[1] == 'filter' and len(sel) == 1:
                # both cells of an edge are set from either of its directions
                for c in sel:
                    R.ob(q, lab + ': all edges', *one_side(q, c))
                E_ = None
            R.ob(q, lab + ': all edges', True if E_ is None and sel else cover(E_, len(es)), 'the edges are not all visited (%d met): %s' % (len(es), [show(c)[:100] for c in st.conds][:4]))
        W = 'dist' if want.startswith('w') else 'one'

        def wt(x):
            if W == 'one':
                return {(): 1}
            return {('dist', frozenset((C.canon(o(x)), C.canon(o(t(x)))))): 1}
        exp = set()
        s = -1 if want in ('lap', 'wlap') else 1
        if want != 'deg':
            for x in es:
                i, j = C.canon(o(x)), C.canon(o(t(x)))
                val = key(lin({}, wt(x), s))
                exp |= {(i, j, 'set', val), (j, i, 'set', val)}
        alts = []
        if want in ('deg', 'lap'):
            alts += [{(C.canon(x), C.canon(x), how, key({('deg', C.canon(x)): 1})) for x in vs} for how in ('set', 'add')]
        if want in ('lap', 'wlap', 'deg'):
            alts.append({(C.canon(a), C.canon(a), 'add', key(wt(x))) for x in es for a in (o(x),)})
            alts.append({(C.canon(a), C.canon(a), 'add', key(wt(x))) for x in es for a in (o(t(x)),)})
        if want == 'wlap':
            alts.append({(C.canon(a), C.canon(a), 'add', key(wt(x))) for x in es for a in (o(x), o(t(x)))})
        g = set(got)
        rep_add = [c_ for c_ in got if c_[2] == 'add' and got.count(c_) > 1]
        good = any(g == exp | a for a in alts) if alts else g == exp
        plain = all(c_.op == 'bin' or c_.op == 'exhausted' and store(c_.a[0]) for c_ in st.conds)
        R.ob(q, lab + ': entries', good and not rep_add or (False if plain and not good else None),
             'entries %s, expected %s' % (sorted(map(cell, g - (exp | (alts[0] if alts else set())))) or 'lacking', sorted(map(cell, (exp | (alts[0] if alts else set())) - g))))
    R.ob(q, lab + ': can be computed', most >= 2, 'no path computes it')


def cell(c):
    return '(%s,%s) %s %s' % (show(c[0])[-30:] if type(c[0]) is T else c[0], show(c[1])[-30:] if type(c[1]) is T else c[1], c[2],
                              [(kk if kk == () else kk[0], v_) for kk, v_ in c[3]])


def cover(E_, n_):
    if E_ is None:
        return None
    ends, lossy = E_
    if not ends:
        return None
    if lossy:
        return False if lossy in ('skip', 'take', 'step_by') else None
    return True if (n_, 1) in ends else None


def degrees(R, H, loop):
    q = R.q('NetworkScience', 'degrees', [SELF], extra_hooks=H, loop=loop, stepwise=True)
    if not q:
        return
    most = 0
    for st, r, k in R.feasible(q):
        got = drain(q, st, r, loop + 1)
        if got is None:
            R.ob(q, 'degrees', None, 'result %s' % show(r)[:150])
            continue
        for s2, xs in got:
            k2 = q.cc(s2)
            if k2 is None:
                continue
            vs = items(s2, mk('tuple', r, *xs), '.vertices')
            if not store(r):
                R.ob(q, 'degrees', None, 'result %s' % show(r)[:150])
                continue
            C = Cells(q, s2, k2)
            most = max(most, len(xs))
            V_ = drawn(s2, '.vertices')
            R.ob(q, 'degrees: all vertices', cover(V_, len(vs)) if len(xs) == len(vs) else (False if cover(V_, len(vs)) and len(xs) < len(vs) else None),
                 '%d of %d vertices are listed' % (len(xs), len(vs)))
            for x in xs:
                try:
                    a, b = q.ai.proj1(x, '.0'), q.ai.proj1(x, '.1')
                    d = C.val(b)
                    R.ob(q, 'degrees: the degree belongs to the vertex', d == {('deg', C.canon(C.vertex(a))): 1},
                         'lists %s for %s' % (show(b)[:80], show(a)[:80]))
                except Unknown as u:
                    R.ob(q, 'degrees: the degree belongs to the vertex', None, show(u.args[0])[:120])
            un = any(ev[0] == 'unordered' for ev in s2.events())
            so = [ev for ev in s2.events() if ev[0] == 'sorted']
            if not un:
                R.ob(q, 'degrees: in the order of the vertices', True if all(x == y for x, y in zip([C.canon(C.vertex(q.ai.proj1(x, '.0'))) for x in xs], [C.canon(v_) for v_ in vs])) else None, '')
            elif not so:
                R.ob(q, 'degrees: in the order of the vertices', False, 'the entries come in the order of a hash map')
            else:
                ok, ev = [], so[-1]
                if ev[3].endswith('_key'):
                    for ent, ks in zip(ev[1].a, ev[2].a):
                        kv = ks.a[0] if ks.op == 'tuple' and ks.a else ks
                        i_ = C.canon(C.vertex(kv))
                        ok.append(True if i_ == C.canon(C.vertex(q.ai.proj1(ent, '.0'))) else False if kv.op in ('app', 'idx') else None)
                elif ev[3].endswith('_by'):
                    y = ev[2].a[0]
                    z = [show(C.vertex(C.bare(y_))) for y_ in y.a[-2:]] if y.op in ('app', 'cmp') and 'cmp' in show(y) else []
                    ok.append(True if z == ['left.0', 'right.0'] else False if z == ['right.0', 'left.0'] else None)
                else:
                    ok.append(None)
                R.ob(q, 'degrees: in the order of the vertices', all3(ok), 'sorted by %s' % show(so[-1][2])[:150])
    R.ob(q, 'degrees: can be computed', most >= 2, 'no path lists two vertices')


def drain(q, st, r, n_):
    """[(state, [elements])] of a returned iterator"""
    ai = q.ai
    outs = []
    try:
        ref, st = models.tmpref(ai, st, r)
        work = [(st, [])]
        while work:
            s, xs = work.pop()
            for s2, o_ in models.inext(ai, s, {'name': 'next', 'id': ''}, [ref], ('', '')):
                for s3, x, _ in models.opt_cases(ai, s2, o_):
                    if x is None:
                        outs.append((s3, xs))
                    elif len(xs) < n_:
                        work.append((s3, xs + [ai.snap(s3, x)]))
    except (AttributeError, KeyError, TypeError, IndexError):
        return None
    return outs

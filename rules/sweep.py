"""G04: the sweep cuts a polygon into monotone pieces along diagonals that stay inside."""
import itertools
import mathx
from ai import *
import models
import tiling
from tiling import IX, bench, conds_text
from heap import adt


class Scene:
    """a simple polygon up to deformation: the order of its corners from top to bottom, and for each
    corner what the sweep line meets there"""

    def __init__(self, rank, kinds, helper, at, seen):
        self.rank, self.kinds, self.helper, self.at, self.seen = rank, kinds, helper, at, seen
        self.n = len(rank)
        self.order = sorted(range(self.n), key=lambda v: rank[v])

    def __str__(self):
        return ' '.join('%s%d' % (self.kinds[v], v) for v in self.order)


def scenes(n):
    """all of them with n corners (corner 0 is the topmost); the order of the active edges from left to
    right decides everything: none may cross"""
    for p in itertools.permutations(range(1, n)):
        rank = (0,) + p
        yield from grow(rank, sorted(range(n), key=lambda v: rank[v]), 0, (), (), {}, {}, {}, {})


def grow(rank, order, k, edges, low, kinds, helper, at, seen):
    n = len(rank)
    if k == n:
        if not edges:
            yield Scene(rank, dict(kinds), dict(helper), dict(at), dict(seen))
        return
    v = order[k]
    prev, nxt = (v - 1) % n, (v + 1) % n
    up, un = rank[prev] < k, rank[nxt] < k

    def rec(e, l, kind, h, a=None, left=None):
        # seen: the left boundary edges before and after the corner, and how many of them are left of it
        kinds[v], helper[v], at[v], seen[v] = kind, h, a, (edges[::2], e[::2], left)
        yield from grow(rank, order, k + 1, e, l, kinds, helper, at, seen)

    # edges: (upper, lower) from left to right, left boundary edges at even places; low[i]: lowest corner of interval i
    if not up and not un:
        for i in range(len(edges) // 2 + 1):
            yield from rec(edges[:2 * i] + ((v, nxt), (v, prev)) + edges[2 * i:], low[:i] + (v,) + low[i:], 'start', (), None, i)
        for i in range(len(edges) // 2):
            yield from rec(edges[:2 * i + 1] + ((v, prev), (v, nxt)) + edges[2 * i + 1:], low[:i] + (v, v) + low[i + 1:], 'split', (low[i],), edges[2 * i], i + 1)
        return
    l, r = edges.index((prev, v)) if (prev, v) in edges else None, edges.index((nxt, v)) if (nxt, v) in edges else None
    if up and un:
        if l is None or r is None or l % 2 or not r % 2:
            return
        if r == l + 1:
            yield from rec(edges[:l] + edges[r + 1:], low[:l // 2] + low[l // 2 + 1:], 'end', (low[l // 2],))
        elif l == r + 1:
            yield from rec(edges[:r] + edges[l + 1:], low[:r // 2] + (v,) + low[l // 2 + 1:], 'merge', (low[r // 2], low[l // 2]))
        return
    i = l if up else r
    if i is None or (i % 2 == 0) != up:
        return
    yield from rec(edges[:i] + ((v, nxt if up else prev),) + edges[i + 1:], low[:i // 2] + (v,) + low[i // 2 + 1:], 'regular', (low[i // 2],))


def judge(sc, pieces):
    """the pieces are monotone, their diagonals lead to the lowest corner of the interval, and together they
    make up the polygon; None or what is wrong"""
    n, rank = sc.n, sc.rank
    total = {}
    for ops in pieces:
        for s in 'LR':
            c = [v for d, v in ops if d in (s, 'N')]
            for a, b in zip(c, c[1:]):
                if rank[a] >= rank[b]:
                    return 'a piece goes up from corner %d to %d' % (a, b)
        apex, L, R = ops[0][1], [v for d, v in ops if d == 'L'], [v for d, v in ops if d == 'R']
        cyc = [apex] + L + R[::-1]
        for a, b in zip(cyc, cyc[1:] + cyc[:1]):
            if a != b:
                total[a, b] = total.get((a, b), 0) + 1
    for v in range(n):
        e = (v, (v + 1) % n)
        if not total.get(e):
            return 'side %d-%d belongs to no piece' % e
        total[e] -= 1
    for (a, b), k in sorted(total.items()):
        if k != total.get((b, a), 0):
            return 'the pieces on both sides of the diagonal %d-%d do not match' % (a, b)
        if k and rank[a] < rank[b] and a not in sc.helper[b]:
            return 'the diagonal %d-%d need not lie inside the polygon: from %d the corner below it is in the way' % (a, b, a)
    return None


ORD = 'core::cmp::Ordering'


def ordering(k):
    return mk('adt', ORD, ('Less', 'Equal', 'Greater')[k + 1], ())


def value(ai, st, t):
    k = 0
    while t.op in ('ref', 'refto') and k < 4:
        t = ai.deref(st, t) if t.op == 'ref' else t.a[0]
        k += 1
    if t.op == 'app' and t.a[0].split('::')[-1] in ('x', 'y') and len(t.a) == 2:
        v = value(ai, st, t.a[1])
        if v.op == 'array' and len(v.a) == 2:
            return value(ai, st, v.a['xy'.index(t.a[0].split('::')[-1])])
    nm = str(t.a[0]).split('::')[-1] if t.op == 'app' else ''
    if nm == 'new' and len(t.a) == 3:
        return mk('array', *t.a[1:])
    if nm in ('min', 'max') and len(t.a) == 3:
        xs = [value(ai, st, x) for x in t.a[1:]]
        if all(isconst(x) for x in xs):
            return num((min if nm == 'min' else max)(x.a[0] for x in xs))
    return t


LE = {'std::cmp::PartialOrd::le': ('Less', 'Equal'), 'std::cmp::PartialOrd::lt': ('Less',), 'std::cmp::PartialOrd::ge': ('Greater', 'Equal'), 'std::cmp::PartialOrd::gt': ('Greater',)}


def adt_field(t, k):
    return t.a[3 + list(t.a[2]).index(k)]


def compare(ai, st, c, rid, args, site):
    """ordering of two numbers; sorting by the order of the elements"""
    n = c['name']
    if 'BTreeSet' in n:
        return tree(ai, st, c, rid, args, site)
    if n in LE and rid is None and len(args) == 2:
        a = value(ai, st, args[0])
        b = value(ai, st, args[1])
        if isconst(a) and isconst(b):
            d = (a.a[0] > b.a[0]) - (a.a[0] < b.a[0])
            return [(st, TRUE if ('Less', 'Equal', 'Greater')[d + 1] in LE[n] else FALSE)]
        f = [g for im, g in ai.P.impl_of.get('core::cmp::PartialOrd::partial_cmp', []) if a.op == 'adt' and im.get('self_adt') == a.a[0]]
        if len(f) == 1:
            r = ai.exec_fn(f[0], args, st)
            if all(o.op == 'adt' and o.a[1] == 'Some' for _, o in r):
                return [(s, TRUE if o.a[3].a[1] in LE[n] else FALSE) for s, o in r]
            return None
    if n in ('std::cmp::PartialOrd::partial_cmp', 'std::cmp::Ord::cmp', 'core::cmp::PartialOrd::partial_cmp', 'core::cmp::Ord::cmp') and rid is None:
        a, b = value(ai, st, args[0]), value(ai, st, args[1])
        if a.op in ('adt', 'array', 'tuple') or b.op in ('adt', 'array', 'tuple'):
            return None
        w = some if n.endswith('partial_cmp') else lambda x: x
        if a.op == b.op == 'app' and a.a[0] == b.a[0] == 'at':
            return [(st, w(ordering(ai.places(a, b))))]
        out = []
        for s, v in ai.fork(st, ai.binop('Lt', a, b)):
            if v:
                out.append((s, w(ordering(-1))))
            else:
                out += [(s2, w(ordering(0 if e else 1))) for s2, e in ai.fork(s, ai.binop('Eq', a, b))]
        return out
    k = n.split('::')[-1]
    if k in ('sort', 'sort_unstable', 'sort_by', 'sort_unstable_by') and len(args) >= 1:
        p = ai.deref_place(args[0])
        v = ai.read(st, p)
        if v.op != 'array' or not v.a:
            return None
        f = None
        if len(args) == 1:
            f = [g for im, g in ai.P.impl_of.get('core::cmp::Ord::cmp', []) if v.a[0].op == 'adt' and im.get('self_adt') == v.a[0].a[0]]
            if len(f) != 1:
                return None
        out = [(st, [])]
        for x in v.a:
            nxt = []
            for s, xs in out:
                i = len(xs)
                while True:
                    if i == 0:
                        break
                    ra, s = models.tmpref(ai, s, x)
                    rb, s = models.tmpref(ai, s, xs[i - 1])
                    r = ai.call_value(s, args[1], [ra, rb], site) if f is None else ai.exec_fn(f[0], [ra, rb], s)
                    if len(r) != 1 or r[0][1].op != 'adt':
                        return None
                    s = r[0][0]
                    if r[0][1].a[1] != 'Less':
                        break
                    i -= 1
                nxt.append((s, xs[:i] + [x] + xs[i:]))
            out = nxt
        res = []
        for s, xs in out:
            s = s.copy()
            ai.write(s, p, mk('array', *xs), site)
            res.append((s, UNIT))
        return res
    if k == 'resize_with':
        p = ai.deref_place(args[0])
        v = ai.read(st, p)
        if v.op != 'array' or not isconst(args[1]):
            return None
        xs = list(v.a[:args[1].a[0]])
        while len(xs) < args[1].a[0]:
            r = ai.call_value(st, args[2], [], site)
            if len(r) != 1:
                return None
            st = r[0][0]
            xs.append(r[0][1])
        st = st.copy()
        ai.write(st, p, mk('array', *xs), site)
        return [(st, UNIT)]
    return None


def tree(ai, st, c, rid, args, site):
    """an ordered set as the list of its elements, found by their own order"""
    n = c['name']
    if 'BTreeSet' not in n:
        return None
    k = n.split('::')[-1]
    if k == 'new':
        return [(st, mk('array'))]
    if k not in ('insert', 'remove', 'range') or args[0].op != 'ref':
        return None
    p = ai.deref_place(args[0])
    v = ai.read(st, p)
    x = args[1]
    if k == 'range':
        if x.op != 'adt' or not x.a[0].endswith('RangeFrom'):
            return None
        x = x.a[3]
    if v.op != 'array':
        return None
    y = value(ai, st, x)
    f = [g for im, g in ai.P.impl_of.get('core::cmp::Ord::cmp', []) if y.op == 'adt' and im.get('self_adt') == y.a[0]]
    if len(f) != 1:
        return None
    res, i = 'Greater', 0
    while i < len(v.a):
        ra, st = models.tmpref(ai, st, y)
        rb, st = models.tmpref(ai, st, v.a[i])
        r = ai.exec_fn(f[0], [ra, rb], st)
        if not r:
            return []
        if len(r) != 1 or r[0][1].op != 'adt':
            return None
        st, res = r[0][0], r[0][1].a[1]
        if res != 'Greater':
            break
        i += 1
    found = i < len(v.a) and res == 'Equal'
    if k == 'range':
        rs = []
        for e in v.a[i:]:
            q, st = models.tmpref(ai, st, e)
            rs.append(q)
        return [(st, mk('it', 'val', mk('array', *rs)))]
    st = st.copy()
    if k == 'insert' and not found:
        ai.write(st, p, mk('array', *(v.a[:i] + (y,) + v.a[i:])), site)
    if k == 'remove' and found:
        ai.write(st, p, mk('array', *(v.a[:i] + v.a[i + 1:])), site)
    return [(st, TRUE if (k == 'insert') != found else FALSE)]


class Drive:
    def __init__(self, P, fid, sc, blur, many=False):
        self.P, self.sc = P, sc
        ai = self.ai = bench(P, secs=20)
        wrap(ai)
        self.done, self.bad = [], None
        for t in P.traits.values():
            if t['id'].endswith('::MonotoneTriangulator'):
                for m in t['methods']:
                    f = getattr(self, 'mt_' + m['name'], None)
                    if f:
                        ai.hooks[m['id']] = lambda ai, st, c, args, site, f=f: f(ai, st, args)
        f = P.inherent('VertexType', 'classify')
        if f:
            ai.hooks[f] = self.classify
        f = P.inherent('SweepLineStatus', 'find_by_position')
        if many:
            self.many(P, ai)
        elif f:
            ai.hooks[f] = self.find
        self.type = [x for x in P.adts if x.endswith('::VertexType')][0]
        self.blur = blur
        st = St()
        pts = [adt(P, 'IndexedVertex2D', vec=mk('array', mk('p', 'x%d' % i, 'x%d' % i), num(sc.n - sc.rank[i])), index=IX(i)) for i in range(sc.n)]
        r, buf, st = tiling.triangulation(P, ai, st)
        v, st = models.tmpref(ai, st, mk('array', *pts))
        meta, st = models.tmpref(ai, st, mk('p', 'meta', 'meta'))
        self.outs = ai.run(fid, [r, v, meta], st)

    def corner(self, ai, st, t):
        k = 0
        while t.op in ('ref', 'refto') and k < 4:
            t = ai.deref(st, t) if t.op == 'ref' else t.a[0]
            k += 1
        t = ai.snap(st, t)
        x = t.a[0] if t.op == 'array' else t
        return int(x.a[0][1:]) if x.op == 'p' and str(x.a[0])[:1] == 'x' else None

    def classify(self, ai, st, c, args, site):
        p, v, q = [self.corner(ai, st, a) for a in args[:3]]
        if v is None or p != (v - 1) % self.sc.n or q != (v + 1) % self.sc.n:
            self.bad = 'corner %s is classified by %s and %s' % (v, p, q)
            return []
        k = 'Undecisive' if v in self.blur else self.sc.kinds[v].capitalize()
        return [(st, mk('adt', self.type, k, ()))]

    def find(self, ai, st, c, args, site):
        v = self.corner(ai, st, args[1])
        if v is None:
            raise ValueError('position %s' % show(args[1])[:60])
        a = self.sc.at.get(v)
        if self.sc.kinds[v] == 'start':
            return [(st, NONE)]
        if a is None:
            raise ValueError('searched for a corner that is neither start nor split')
        return [(st, some(num(a[1])))]

    def many(self, P, ai):
        """as in a polygon of many corners: intervals are searched in the ordered set"""
        new = P.inherent('SweepLineStatus', 'new')
        ai.hooks[new] = lambda ai, st, c, args, site: ai.exec_fn(new, [num(self.sc.n + 9)], st)
        ai.hooks[P.inherent('SweepLineInterval', 'contains')] = self.contains
        ai.hooks[P.inherent('SLISorter', 'x_at_y')] = self.x_at_y
        ai.places = self.places

    def contains(self, ai, st, c, args, site):
        e = adt_field(value(ai, st, args[0]), 'left')
        v = self.corner(ai, st, args[1])
        if v is None or self.sc.kinds[v] not in ('start', 'split'):
            raise ValueError('asked for a position that is no new corner')
        a = self.sc.at.get(v)
        return [(st, TRUE if a and a[1] == adt_field(e, 'end').a[0] else FALSE)]

    def x_at_y(self, ai, st, c, args, site):
        e = value(ai, st, args[0])
        a, b = [value(ai, st, adt_field(e, k)) for k in ('from', 'to')]
        y = value(ai, st, args[1])
        if not isconst(y):
            raise ValueError('height %s' % show(y)[:60])
        w = self.corner(ai, st, b)
        f = value(ai, st, a.a[0]) if a.op == 'array' else a
        u = f.a[1].a[0] if f.op == 'app' and f.a[0] == 'at' else self.corner(ai, st, a)
        if u is None or w is None:
            raise ValueError('boundary %s' % show(e)[:60])
        hi, lo = self.sc.n - self.sc.rank[u], self.sc.n - self.sc.rank[w]
        if not lo <= y.a[0] <= hi:
            self.bad = 'the search compares the edge %d-%d with others at a height it does not reach' % (u, w)
            return []
        return [(st, mk('app', 'at', num(u), num(w), y))]

    def places(self, a, b):
        """-1 / 0 / 1: the first is left of / the same as / right of the second"""
        (u, w, y), (u2, w2, y2) = [[x.a[0] for x in t.a[1:]] for t in (a, b)]
        if (u, w) == (u2, w2):
            return 0
        if u != w and u2 != w2:
            for before, after, _ in self.sc.seen.values():
                for s in (before, after):
                    if (u, w) in s and (u2, w2) in s:
                        return 1 if s.index((u, w)) > s.index((u2, w2)) else -1
            raise ValueError('the edges %d-%d and %d-%d are never active together' % (u, w, u2, w2))
        if u != w:
            return -self.places(b, a)
        before, _, k = self.sc.seen[u]
        if k is None or (u2, w2) not in before:
            raise ValueError('corner %d and edge %d-%d' % (u, u2, w2))
        return 1 if before.index((u2, w2)) < k else -1

    def chain(self, ai, st, a):
        k = 0
        while a.op in ('ref', 'refto') and k < 4:
            a = ai.deref(st, a) if a.op == 'ref' else a.a[0]
            k += 1
        if a.op != 'chain':
            raise ValueError('chain %s' % show(a)[:60])
        return a

    def mt_new(self, ai, st, args):
        if not isconst(args[0]):
            raise ValueError('chain from %s' % show(args[0])[:60])
        return [(st, mk('chain', ('N', args[0].a[0])))]

    def add(self, ai, st, args, d):
        c = self.chain(ai, st, args[0])
        if not isconst(args[1]):
            raise ValueError('chain with %s' % show(args[1])[:60])
        ai.write(st, args[0].a[0], mk('chain', *(c.a + ((d, args[1].a[0]),))), None)
        return [(st, UNIT)]

    def mt_left(self, ai, st, args):
        return self.add(ai, st, args, 'L')

    def mt_right(self, ai, st, args):
        return self.add(ai, st, args, 'R')

    def mt_is_right(self, ai, st, args):
        return [(st, TRUE if self.chain(ai, st, args[0]).a[-1][0] == 'R' else FALSE)]

    def mt_last_opposite(self, ai, st, args):
        c = self.chain(ai, st, args[0]).a
        return [(st, num([v for d, v in c if d != c[-1][0] or d == 'N'][-1]))]

    def mt_finish(self, ai, st, args):
        c = self.chain(ai, st, args[0])
        st.event('finish', c)
        ai.write(st, args[0].a[0], mk('p', 'used', 'used'), None)
        return [(st, UNIT)]

    def mt_sanity_check(self, ai, st, args):
        return [(st, UNIT)]


def g04(P, rep, tier, cfg, rel):
    full = tier == 'thorough'
    if not rel:
        pieces(P, rep, full, (True,), ' with debug assertions')
        return
    corner_types(P, rep)
    order(P, rep)
    boundaries(P, rep)
    search(P, rep)
    pieces(P, rep, full)


def wanted(full):
    for n in range(3, 8 if full else 7):
        yield from scenes(n)
    # pending merges on both sides of a merge take eight corners
    for s in scenes(8):
        k = list(s.kinds.values())
        if full and 'split' not in k and 'regular' not in k or k.count('merge') > 2 and any(
                len(h) == 2 and s.kinds[h[0]] == s.kinds[h[1]] == 'merge' for h in s.helper.values()):
            yield s


def pieces(P, rep, full, modes=(False, True), note=''):
    fid = [f for f in P.fns if f.split('::')[-1] == 'sweep_line_triangulation']
    for f in fid:
        for sc in wanted(full):
            for blur, many in itertools.product(((), tuple(range(sc.n))), modes):
                if sc.n > 7 and (blur or many):
                    continue
                key = '%s%s%s%s' % (sc, ' (types unknown)' if blur else '', ' (ordered search)' if many else '', note)
                good, msg = True, ''
                try:
                    d = Drive(P, f, sc, blur, many)
                except Exception as ex:
                    rep.ob('pieces', key, None, '%s: %s' % (type(ex).__name__, str(ex)[:100]))
                    continue
                rep.analysed(*d.ai.visited)
                rep.paths += len(d.outs)
                if d.bad:
                    good, msg = False, d.bad
                elif d.ai.truncated:
                    good, msg = None, 'truncated'
                elif any(st.conds for st, _ in d.outs) or any(x[0].conds for x in d.ai.panics):
                    good, msg = None, 'undetermined decisions: %s' % '; '.join(show(c)[:300] for x in list(d.outs) + list(d.ai.panics) for c in x[0].conds)[:400]
                elif not d.outs:
                    w = [str(x[1])[:100] for x in d.ai.panics]
                    good, msg = (False if w else None), 'the sweep gives up' + (': ' + w[0] if w else '')
                for st, _ in d.outs if good else ():
                    w = judge(sc, [e[1].a for e in st.events() if e[0] == 'finish'])
                    if w:
                        good, msg = False, w
                rep.ob('pieces', key, good, msg, (f, None))
    rep.floor('pieces', 60)


# ---------------------------------------------------------------- the decisions the sweep starts from
def diff(a, b, ax):
    return tiling.pt(a, ax) - tiling.pt(b, ax)


class World:
    """signs of the differences that decisions are made of; the tolerance is positive but as small as necessary"""

    def __init__(self, signs):
        self.signs = signs                       # [(poly, sign)]
        self.E = tiling.Exact(False)

    def sign(self, p):
        tol = [a for a in p.atoms() if self.small(a)]
        rest = p
        sm = tiling.alg.Poly()
        for mo, c in p.d.items():
            if any(a in tol for a, e in mo[0]):
                sm = sm + tiling.alg.Poly({mo: c})
        rest = p - sm
        s = self.plain(rest) if rest.d else 0
        if s is None:
            return None
        if s:
            return s
        cs = {1 if c > 0 else -1 for mo, c in sm.d.items() if len(mo[0]) == 1}
        return 0 if not sm.d else cs.pop() if len(cs) == 1 and len(sm.d) == 1 else None

    def small(self, a):
        return a == 'tol' or 'tol' in repr(a) and 'abs' not in repr(a)

    def plain(self, p):
        for q, s in self.signs:
            for k in (1, -1):
                if tiling.prop(p, q * k):
                    return s * k
            ab = tiling.atom('abs', q)
            u = tiling.unabs(p)
            for k in (1, -1):
                if any(tiling.prop(u, x * k) for x in (ab, tiling.unabs(ab))):
                    return k * abs(s)
        return None

    def allows(self, ai, st):
        """True / False / None: the path is the one taken here"""
        r = True
        for c, v in st.conds.items():
            c = models.deep(ai, st, c)
            s = self.E.sign(c, v) if v in (0, 1) else None
            if s is None:
                r = None
                continue
            w = self.sign(s[0])
            if w is None:
                r = None
            elif w not in s[1]:
                return False
        return r


def later(d, dx):
    """-1: the other corner comes earlier in the sweep, 1: later (equal heights: by x, larger first)"""
    return (1 if d > 0 else -1) if d else (1 if dx > 0 else -1)


def worlds():
    """corner 1 between corners 0 and 2: the side each of them is on, and the turn"""
    for d1, d2 in itertools.product((1, 0, -1), repeat=2):
        for x1, x2 in itertools.product((1, -1), repeat=2):
            # cross = (v1-v0) x (v2-v1) = x1 * -d2 - d1 * -x2, with x1 = x(1)-x(0), x2 = x(1)-x(2), d likewise
            a, b = -x1 * d2, d1 * x2
            turns = {1, -1} if a * b < 0 else {a or b} if a * b == 0 else {a}
            if a == 0 and b == 0:
                continue                          # all at the same height: a straight corner or a spike
            for t in turns | ({0} if a * b < 0 else set()):
                yield d1, d2, x1, x2, t


def corner_types(P, rep):
    f = P.inherent('VertexType', 'classify')
    if not f:
        rep.ob('corners', 'classification', None, 'not found')
        return
    ai = bench(P)
    outs = ai.run(f, [tiling.X('v0'), tiling.X('v1'), tiling.X('v2'), mk('p', 'tol', 'tol')])
    rep.analysed(*ai.visited)
    rep.paths += len(outs)
    for d1, d2, x1, x2, t in worlds():
        w = World([(diff(1, 0, 'y'), d1), (diff(1, 2, 'y'), d2), (diff(1, 0, 'x'), x1), (diff(1, 2, 'x'), x2), (tiling.cross(0, 1, 2), t)])
        p, q = later(d1, x1), later(d2, x2)
        want = {(1, 1): ('Start', 'Split'), (-1, -1): ('End', 'Merge')}.get((p, q))
        want = 'Regular' if want is None else want[0] if t > 0 else want[1] if t < 0 else 'Undecisive'
        key = 'corner %s its predecessor, %s its successor, turning %s' % (rel(d1, x1), rel(d2, x2), {1: 'left', -1: 'right', 0: 'not'}[t])
        good, msg, n = True, '', 0
        for st, r in outs:
            a = w.allows(ai, st)
            if a is False:
                continue
            n += 1
            if r.op != 'adt':
                good, msg = None, 'is %s' % show(r)[:60]
                break
            if r.a[1] in (want, 'Undecisive') or t == 0 and d1 * d2 < 0 and r.a[1] == 'Regular':
                if r.a[1] != want and d1 and d2 and t and good:
                    good, msg = None, 'is left open'
                continue
            good, msg = (False if a else None), 'is classified as %s instead of %s' % (r.a[1], want)
            if a:
                break
        if not n:
            good, msg = None, 'no path'
        rep.ob('corners', key, good, msg, (f, None))
    rep.floor('corners', 12)


def rel(d, x):
    return 'above' if d > 0 else 'below' if d < 0 else 'level with and right of' if x > 0 else 'level with and left of'


def order(P, rep):
    """corners higher up come first, of those at the same height the right one"""
    fs = [g for im, g in P.impl_of.get('core::cmp::Ord::cmp', []) if str(im.get('self_adt')).endswith('::EventPoint')]
    for f in fs:
        ai = bench(P)
        wrap(ai)
        st = St()
        ev = [adt(P, 'EventPoint', vec=tiling.X('v%d' % i)) for i in (0, 1)]
        a, st = models.tmpref(ai, st, ev[0])
        b, st = models.tmpref(ai, st, ev[1])
        outs = ai.run(f, [a, b], st)
        rep.analysed(*ai.visited)
        rep.paths += len(outs)
        level = {}
        for d, x in itertools.product((1, 0, -1), repeat=2):
            if d == 0 and x == 0:
                continue
            w = World([(diff(0, 1, 'y'), d), (diff(0, 1, 'x'), x)])
            want = None if d == 0 else 'Less' if d > 0 else 'Greater'
            good, msg, n, got = True, '', 0, set()
            for s, r in outs:
                a = w.allows(ai, s)
                if a is False:
                    continue
                n += 1
                got.add(r.a[1] if a and r.op == 'adt' else None)
                if want and (r.op != 'adt' or r.a[1] != want):
                    good, msg = (False if a and r.op == 'adt' else None), 'comes %s' % show(r)[:40]
            if want:
                rep.ob('order', 'a corner %s another' % rel(d, x), good if n else None, msg, (f, None))
            else:
                level[x] = got
        # which of two level corners comes first does not matter, as long as it is the same one
        a, b = [level[x].copy().pop() if len(level[x]) == 1 else None for x in (1, -1)]
        rep.ob('order', 'level corners', None if None in (a, b) or a == b == 'Equal' else a != b, 'both come %s' % a, (f, None))


def wrap(ai):
    star = ai.hooks['*']

    def first(*a):
        r = compare(*a)
        return star(*a) if r is None else r
    ai.hooks['*'] = first


def boundaries(P, rep):
    """where a boundary edge crosses the sweep line, and what lies between two of them"""
    f = P.inherent('IntervalBoundaryEdge', 'x_at_y')
    S = tiling.pt
    if f:
        ai = bench(P)
        st = St()
        e, st = models.tmpref(ai, st, adt(P, 'IntervalBoundaryEdge', start=num(0), end=num(1)))
        v, st = models.tmpref(ai, st, mk('array', *tiling.points(P, 2)))
        crossing(P, rep, ai, f, ai.run(f, [e, mk('p', 'h', 'h'), v], st), 'boundary edge')
    f = P.inherent('SLISorter', 'x_at_y')
    if f:
        ai = bench(P)
        e, st = models.tmpref(ai, St(), adt(P, 'SLISorter', **{'left': num(1), 'from': tiling.X('v0'), 'to': tiling.X('v1')}))
        crossing(P, rep, ai, f, ai.run(f, [e, mk('p', 'h', 'h')], st), 'search key')
    f = P.inherent('SweepLineInterval', 'contains')
    g = P.inherent('IntervalBoundaryEdge', 'x_at_y')
    if f and g:
        ai = bench(P)

        def xat(ai, st, c, args, site):
            e = value(ai, st, args[0])
            if e.op != 'adt' or not isconst(e.a[3]):
                return None
            h = models.deep(ai, st, args[1])
            return [(st, mk('app', 'xat', mk('p', 'e%d' % e.a[3].a[0], 'e%d' % e.a[3].a[0]), ai.snap(st, h)))]
        ai.hooks[g] = xat
        st = St()
        iv = adt(P, 'SweepLineInterval', left=adt(P, 'IntervalBoundaryEdge', start=num(0), end=num(1)), right=adt(P, 'IntervalBoundaryEdge', start=num(2), end=num(3)))
        r, st = models.tmpref(ai, st, iv)
        p, st = models.tmpref(ai, st, tiling.X('v9'))
        v, st = models.tmpref(ai, st, mk('array', *tiling.points(P, 4)))
        outs = ai.run(f, [r, p, v], st)
        rep.analysed(*ai.visited)
        E = tiling.Exact(False)
        xs = {}
        for s, b in outs:
            for c in list(s.conds) + [b]:
                for a in (E.sign(models.deep(ai, s, c), 1) or (tiling.alg.Poly(), 0))[0].atoms():
                    if type(a) is tuple and a[:2] == ('app', 'xat'):
                        xs['e2' in repr(a)] = tiling.alg.Poly.atom(a)
        at = [v for k, v in sorted(xs.items())]
        if len(at) != 2:
            rep.ob('interval', 'contains', None, '%d crossings' % len(at))
        else:
            meeting(P, rep, g, any(edge_order(ai, x[0], at, E) for x in ai.panics))
            for name, l, rr, want in (('left of it', -1, -1, 0), ('inside', 1, -1, 1), ('right of it', 1, 1, 0)):
                w = World([(S(9, 'x') - at[0], l), (S(9, 'x') - at[1], rr), (at[1] - at[0], 1)])
                good, msg, n = True, '', 0
                for s, b in outs:
                    ok = w.allows(ai, s)
                    if ok is False:
                        continue
                    n += 1
                    q = ai.decide(s, b)
                    if q is None and b.op in ('bin', 'not'):
                        z = E.sign(models.deep(ai, s, b), 1)
                        z = w.sign(z[0]) in z[1] if z and w.sign(z[0]) is not None else None
                        q = None if z is None else int(z)
                    if q != want:
                        good, msg = (False if ok and q is not None else None), 'answers %s' % (show(b)[:60] if q is None else bool(q))
                rep.ob('interval', 'a point %s' % name, good if n else None, msg, (f, None))


def edge_order(ai, st, at, E):
    """a decision of the path compares the two boundary edges with each other"""
    for c in st.conds:
        z = E.sign(models.deep(ai, st, c), 1)
        if z and tiling.prop(z[0], at[1] - at[0]) or z and tiling.prop(z[0], at[0] - at[1]):
            return True
    return False


def rounded(ai, st, t):
    """the value of a term where simplifications are only made that hold for rounded arithmetic as well"""
    t = value(ai, st, t)
    if t.op == 'bin' and t.a[0] in ('Add', 'Sub', 'Mul', 'Div'):
        o, a, b = t.a[0], rounded(ai, st, t.a[1]), rounded(ai, st, t.a[2])
    elif t.op == 'app' and len(t.a) == 3 and t.a[0].split('::')[-1] in ('add', 'sub', 'mul', 'div'):
        o, a, b = t.a[0].split('::')[-1].capitalize(), rounded(ai, st, t.a[1]), rounded(ai, st, t.a[2])
    else:
        return num(0) if str(t.a[-1]).endswith('ZERO') or t.op == 'app' and str(t.a[0]).endswith('ZERO') else t
    z = lambda x: isconst(x) and x.a[0] == 0
    if o == 'Sub' and a is b or o == 'Mul' and (z(a) or z(b)) or o == 'Div' and z(a):
        return num(0)
    if o == 'Div' and a is b:
        return num(1)
    if o in ('Add', 'Sub') and z(b) or o in ('Mul', 'Div') and isconst(b) and b.a[0] == 1:
        return a
    if o == 'Add' and z(a) or o == 'Mul' and isconst(a) and a.a[0] == 1:
        return b
    return mk('bin', o, a, b)


def meeting(P, rep, f, strict):
    """where two edges of a strip end in the same corner they must not appear to cross: as they are compared
    without any tolerance, the end of an edge has to be met without rounding"""
    if not strict:
        rep.ob('meeting', 'end of an edge', True, '', (f, None))
        return
    ai = bench(P)
    e, st = models.tmpref(ai, St(), adt(P, 'IntervalBoundaryEdge', start=num(0), end=num(1)))
    pts = [adt(P, 'IndexedVertex2D', vec=mk('array', mk('p', 'x%d' % i, 'x%d' % i), mk('p', 'y%d' % i, 'y%d' % i)), index=IX(i)) for i in (0, 1)]
    v, st = models.tmpref(ai, st, mk('array', *pts))
    end = mk('p', 'y1', 'y1')
    outs = ai.run(f, [e, end, v], st)
    rep.analysed(*ai.visited)
    rep.paths += len(outs)
    good, msg, n = True, '', 0
    for s, r in outs:
        skip = False
        for c, w in s.conds.items():
            if c.op in ('bin', 'app') and len(c.a) == 3 and str(c.a[0]).split('::')[-1].lower() in ('eq', 'ne') and w in (0, 1):
                a, b = [rounded(ai, s, models.deep(ai, s, x)) for x in c.a[1:]]
                if a is b and (w == 1) != (str(c.a[0]).split('::')[-1].lower() == 'eq'):
                    skip = True
        if skip:
            continue
        n += 1
        x = rounded(ai, s, models.deep(ai, s, r))
        if x is not mk('p', 'x1', 'x1'):
            odd = x.op not in ('bin', 'p')
            good, msg = (None if odd else False), 'the end of an edge is met at %s, which rounding may put on the wrong side of another edge that ends there; comparing them then fails an assertion' % show(x)[:140]
    rep.ob('meeting', 'end of an edge', good if n else None, msg, (f, None))


def crossing(P, rep, ai, f, outs, key):
    rep.analysed(*ai.visited)
    A = tiling.Exact(False).alg
    S = tiling.pt
    h = A.norm(mk('p', 'h', 'h'))
    dx, dy = diff(1, 0, 'x'), diff(1, 0, 'y')
    good, msg, n = True, '', 0
    for st, r in outs:
        level = World([(dy, 0)]).allows(ai, st)
        steep = [World([(dy, s)]).allows(ai, st) for s in (1, -1)]
        v = A.norm(models.deep(ai, st, r))
        if steep == [False, False]:
            if v not in (S(0, 'x'), S(1, 'x')):
                good, msg = None, 'level edges are met at %r' % v
            continue
        ends = [i for i in (0, 1) if [World([(h - S(i, 'y'), s)]).allows(ai, st) for s in (1, -1)] == [False, False]]
        if ends and v == S(ends[0], 'x'):
            continue
        n += 1
        if not v.same(S(0, 'x') + dx * (h - S(0, 'y')) / dy):
            odd = [a for a in v.atoms() if not (type(a) is tuple and a[0] in ('x', 'y')) and not repr(a).startswith(('inv', "('inv", 'h'))]
            good, msg = (None if odd or None in steep else False), 'the line is met at %s' % repr(v)[:120]
    rep.ob('crossing', key, good if n else None, msg, (f, None))
    rep.paths += len(outs)


def search(P, rep):
    """the interval found for a position is one that contains it, and none only if there is none"""
    new, ins, find = [P.inherent('SweepLineStatus', n) for n in ('new', 'insert', 'find_by_position')]
    f = P.inherent('SweepLineInterval', 'contains')
    if not (new and ins and find and f):
        rep.ob('search', 'position', None, 'not found')
        return
    ai = bench(P)
    wrap(ai)

    def inside(ai, st, c, args, site):
        iv = value(ai, st, args[0])
        e = iv.a[3 + list(iv.a[2]).index('left')]
        return [(st, mk('app', 'in', e.a[4]))]
    ai.hooks[f] = inside
    for t in P.traits.values():
        if t['id'].endswith('::MonotoneTriangulator'):
            for m in t['methods']:
                if m['name'] == 'sanity_check':
                    ai.hooks[m['id']] = lambda ai, st, c, args, site: [(st, UNIT)]
    st = St()
    try:
        (st, s), = ai.run(new, [num(8)], st)
        s, st = models.tmpref(ai, st, s)
        v, st = models.tmpref(ai, st, mk('array', *[adt(P, 'IndexedVertex2D', vec=mk('array', mk('p', 'x%d' % i, 'x%d' % i), num(9 - i)), index=IX(i)) for i in range(8)]))
        for k in (0, 4):
            iv = adt(P, 'SweepLineInterval', helper=num(k), left=adt(P, 'IntervalBoundaryEdge', start=num(k), end=num(k + 1)),
                     right=adt(P, 'IntervalBoundaryEdge', start=num(k), end=num(k + 2)), chain=mk('chain', ('N', k)), fixup=NONE)
            (st, _), = ai.run(ins, [s, iv, v], st)
        p, st = models.tmpref(ai, st, mk('array', mk('p', 'x7', 'x7'), num(2)))
        outs = ai.run(find, [s, p, v], st)
    except Exception as ex:
        rep.ob('search', 'position', None, '%s: %s' % (type(ex).__name__, str(ex)[:100]))
        return
    rep.analysed(*ai.visited)
    rep.paths += len(outs)
    ins = {num(1): mk('app', 'in', num(1)), num(5): mk('app', 'in', num(5))}
    good, msg = True if outs else None, ''
    for st, r in outs:
        r = ai.snap(st, r)
        d = {k: ai.decide(st, t) for k, t in ins.items()}
        if r == NONE:
            if None in d.values() or 1 in d.values():
                good, msg = False, 'nothing is found although %s' % ('an interval contains the position' if 1 in d.values() else 'not all intervals were tried')
        elif r.op == 'adt' and r.a[1] == 'Some' and isconst(r.a[3]):
            if d.get(r.a[3]) != 1:
                good, msg = False, 'finds %s, which does not contain the position' % show(r.a[3])
        else:
            good, msg = None, 'is %s' % show(r)[:80]
    rep.ob('search', 'position', good, msg, (find, None))

"""G01/G03: index buffers of triangulations and the triangles the triangulators put there."""
from collections import Counter
import itertools
import time
import alg
import mathx
from ai import *
import heap
import models
import report
from heap import adt

PRIOR = 3


def X(n):
    return mk('p', n, n)


def IX(i):
    """index of vertex i (indices of different vertices are different)"""
    return num(100 + i)


def bench(P, loop=60, maxpaths=6000, secs=60, opaque=(), budget=20000000):
    ai = AI(P, hooks=mathx.math_hooks(P), loop=loop, maxpaths=maxpaths, keep_panics=True)
    ai.concrete, ai.joins, ai.maxrec = True, False, 12
    ai.budget_steps = budget
    ai.deadline = min(time.time() + secs, AI.deadline or 1e18)
    ai.panics = []
    for t in P.traits.values():
        for m in t['methods']:
            if m['name'] in opaque:
                ai.hooks[m['id']] = lambda ai, st, c, args, site, n=m['name']: [(st, mk('app', n, *[ai.snap(st, a) for a in args]))]
    star = ai.hooks['*']
    ai.hooks['*'] = lambda *a: infinite(*a) or star(*a)
    return ai


def unbounded(ai, st, t):
    """1 / -1: the value is an infinity, 0: an ordinary number (sums of ordinary numbers are taken as finite)"""
    while t.op in ('ref', 'refto'):
        t = ai.deref(st, t) if t.op == 'ref' else t.a[0]
    if t.op == 'cdef':
        n = str(t.a[0]).split('::')[-1]
        return 1 if n == 'INFINITY' else -1 if n == 'NEG_INFINITY' else 0
    if t.op == 'bin' and t.a[0] == 'Add':
        return unbounded(ai, st, t.a[1]) or unbounded(ai, st, t.a[2])
    return 0


def infinite(ai, st, c, rid, args, site):
    n = c['name']
    if not n.startswith('std::cmp::Partial') or len(args) != 2:
        return None
    a, b = unbounded(ai, st, args[0]), unbounded(ai, st, args[1])
    if a == b:
        return None if a == 0 else [(st, TRUE if n.split('::')[-1] in ('eq', 'le', 'ge') else FALSE)]
    f = {'lt': a < b, 'le': a < b, 'gt': a > b, 'ge': a > b, 'eq': False, 'ne': True}.get(n.split('::')[-1])
    return None if f is None else [(st, TRUE if f else FALSE)]


def points(P, n):
    return [adt(P, 'IndexedVertex2D', vec=X('v%d' % i), index=IX(i)) for i in range(n)]


def triangulation(P, ai, st, prior=PRIOR, more=()):
    """(reference to a Triangulation that begins behind some older indices, place of the buffer, state)"""
    buf = place(mk('H', 'buf', 0))
    ai.write(st, buf, mk('array', *([num(900 + i) for i in range(prior)] + list(more))), None)
    t = adt(P, 'Triangulation', indices=mk('ref', buf), start=num(prior))
    r, st = models.tmpref(ai, st, t)
    return r, buf, st


def buffer(ai, st, buf):
    v = ai.read(st, buf)
    out = []
    while v.op == 'push':
        out.append(v.a[1])
        v = v.a[0]
    if v.op != 'array':
        return None
    out = list(v.a) + out[::-1]
    return None if any(murky(x) for x in out) else out


def murky(t):
    """elements of something that was not evaluated"""
    return t.op in ('it', 'closure', 'adv') or any(murky(x) for x in t.a if type(x) is T)


def triangles(ai, st, buf, prior=PRIOR):
    """the triangles behind the older indices, or None; Wrong if the older ones changed"""
    b = buffer(ai, st, buf)
    if b is None:
        return None
    if b[:prior] != [num(900 + i) for i in range(prior)]:
        raise Wrong('indices that were in the buffer before are changed')
    b = b[prior:]
    if len(b) % 3:
        raise Wrong('the number of indices is no multiple of three')
    return [tuple(b[i:i + 3]) for i in range(0, len(b), 3)]


class Wrong(Exception):
    pass


def outline(ts):
    """directed edges of triangles that do not cancel"""
    c = Counter()
    for t in ts:
        for i in range(3):
            a, b = t[i], t[(i + 1) % 3]
            if c[(b, a)] > 0:
                c[(b, a)] -= 1
            else:
                c[(a, b)] += 1
    return +c


def cycle(ix):
    return Counter((ix[i], ix[(i + 1) % len(ix)]) for i in range(len(ix)))


def nm(t):
    return str(t.a[0] - 100) if isconst(t) else show(t)


def tiles(ts, ix):
    """None if the triangles fill the polygon ix, otherwise the reason"""
    if len(ts) != len(ix) - 2:
        return '%d triangles for %d vertices' % (len(ts), len(ix))
    bad = [x for t in ts for x in t if x not in ix]
    if bad:
        return 'index %s does not belong to the polygon' % nm(bad[0])
    o = outline(ts)
    if o != cycle(ix):
        if o == cycle(ix[::-1]):
            return 'the triangles are wound the other way than the polygon'
        e = list((o - cycle(ix)) or (cycle(ix) - o))[0]
        return 'triangles %s: side %s-%s is %s' % (' '.join('-'.join(nm(x) for x in t) for t in ts), nm(e[0]), nm(e[1]),
                                                   'no side of the polygon' if e not in cycle(ix) else 'missing')
    return None


# ------------------------------------------------------------------------------------------------ G01: the index buffer
class Exact:
    """terms over the points as polynomials; tolerances are zero"""

    def __init__(self, exact=True):
        self.alg = alg.Alg(vec=lambda a: getattr(a, 'op', None) == 'p', extra=self.tol if exact else None)

    def tol(self, al, t):
        if t.op == 'cdef' and str(t.a[0]).split('::')[-1] == 'EPS':
            return alg.Poly()
        if t.op == 'app' and str(t.a[0]).split('::')[-1] in ('sqrt', 'abs') and len(t.a) == 2 and not al.norm(t.a[1]).d:
            return alg.Poly()
        return None

    def sign(self, c, v):
        """(poly, signs allowed) of a condition, or None"""
        c = self.alg.strip(c)
        while c.op == 'not':
            v, c = 1 - v, c.a[0]
        if c.op != 'bin' or c.a[0] not in ('Lt', 'Le', 'Eq'):
            return None
        p = self.alg.norm(c.a[2]) - self.alg.norm(c.a[1])
        s = {'Lt': {1}, 'Le': {0, 1}, 'Eq': {0}}[c.a[0]]
        return p, s if v else {-1, 0, 1} - s


def pt(i, ax):
    return alg.Poly.atom((ax, X('v%d' % i)))


def cross(a, b, c):
    """twice the area of a, b, c"""
    x, y = (lambda i: pt(i, 'x')), (lambda i: pt(i, 'y'))
    return (x(b) - x(a)) * (y(c) - y(a)) - (y(b) - y(a)) * (x(c) - x(a))


def atom(nm, *args):
    return alg.Poly.atom(('app', nm) + tuple(alg.lift(a).key() for a in args))


def dist(a, b):
    return alg.Alg(vec=lambda a: getattr(a, 'op', None) == 'p').norm(mk('app', 'distance', X('v%d' % a), X('v%d' % b)))


def g01(P, rep, tier, cfg, rel):
    inh = lambda n: P.inherent('Triangulation', n)
    found = [n for n in ('new', 'insert_triangle', 'insert_triangle_local', 'get_index', 'get_triangle', 'get_triangle_area', 'map_indices', 'len', 'next_pos',
                         'flip_edge', 'verify_non_degenerate_triangle', 'verify_indices', 'verify_no_intersections', 'get_area', 'total_edge_weight',
                         'verify_area', 'verify_all_indices_used', 'verify_full') if inh(n)]
    if len(found) < 9:
        raise report.Fatal('the triangulation type has no methods')
    F3 = [(0, 1, 2), (1, 3, 2), (0, 2, 4)]
    ids = lambda ts: [IX(i) for t in ts for i in t]

    def go(name, args, ts, prior, key, rule):
        """[(ai, start state, paths)] of a method on a buffer holding these triangles"""
        fid = inh(name)
        if not fid:
            return None
        ai = bench(P, secs=30, budget=6000000, loop=20000)
        for f in P.fns:
            if f.endswith('::intersect_line'):
                ai.hooks[f] = lambda ai, st, c, a, site: [(st, mk('app', 'cut', *[ai.snap(st, ai.deref(st, x)) if x.op == 'ref' else x for x in a]))]
        r, buf, st = triangulation(P, ai, St(), prior, ids(ts))
        argv = []
        for a in args:
            if type(a) is tuple:
                a, st = models.tmpref(ai, st, a[0])
            argv.append(a)
        try:
            outs = ai.run(fid, [r] + argv, st)
        except Exception as ex:
            rep.ob(rule, key, None, '%s: %s' % (type(ex).__name__, str(ex)[:100]))
            return None
        rep.paths += len(outs)
        rep.analysed(*ai.visited)
        if ai.truncated:
            rep.ob(rule, key, None, 'truncated')
            return None
        return ai, buf, outs, fid

    def old(prior):
        return [num(900 + i) for i in range(prior)]

    def result(name, args, want, after, ts=F3, key=None, rule='buffer'):
        """the method returns want(ai, st, value) and leaves the buffer after"""
        for prior in (0, 3, 5):
            k = '%s%s behind %d older indices' % (name, ' ' + key if key else '', prior)
            g = go(name, args, ts, prior, k, rule)
            if not g:
                continue
            ai, buf, outs, fid = g
            good, msg = len(outs) > 0, 'never returns'
            for st, v in outs:
                b = buffer(ai, st, buf)
                if b is None:
                    good, msg = None, 'the buffer is %s' % show(ai.read(st, buf))[:80]
                elif b != old(prior) + after:
                    good, msg = False, 'leaves the buffer %s' % b
                elif want is not None:
                    w = want(ai, st, v)
                    if w is not True:
                        good, msg = (None, 'result %s' % show(v)[:80]) if w is None else (False, 'gives %s' % show(v)[:80])
                if st.conds and good is False:
                    good = None
                if good is not True:
                    break
            if good is True and ai.panics:
                good, msg = (False, 'may panic') if not any(p[0].conds for p in ai.panics) else (None, 'may panic')
            rep.ob(rule, k, good, msg, (fid, None))

    def same(w):
        def f(ai, st, v):
            v = models.deep(ai, st, v)
            return v == w if all(isconst(x) for x in (v.a if v.op == 'tuple' else (v,))) else None
        return f

    def rejects(name, args, ts, key, rule='check', prior=3):
        """the method panics"""
        g = go(name, args, ts, prior, key, rule)
        if g:
            ai, buf, outs, fid = g
            rep.ob(rule, key, (None if any(s.conds for s, _ in outs) else False) if outs else True, 'does not panic', (fid, None))

    base = ids(F3)
    n9 = X('new')
    result('insert_triangle', [IX(3), IX(5), IX(1)], None, base + [IX(3), IX(5), IX(1)])
    result('insert_triangle_local', [num(3), num(0), num(2), (mk('array', *points(P, 5)),)], None, base + [IX(3), IX(0), IX(2)])
    for i in range(9):
        result('get_index', [num(i)], same(base[i]), base, key=str(i))
    for i in range(3):
        result('get_triangle', [num(i)], same(mk('tuple', *base[3 * i:3 * i + 3])), base, key=str(i))
    for n in (0, 1, 3):
        result('len', [], same(num(n)), ids(F3[:n]), F3[:n], key='of %d' % n)
    rejects('len', [], F3[:1] + [(1,)], 'len of no multiple of three', 'buffer')
    mp = mk('map0')
    for i in range(6):
        mp = mk('mput', mp, IX(i), num(500 + 7 * i))
    result('map_indices', [(mp,)], None, [num(500 + 7 * i) for t in F3 for i in t])

    # a triangulation starts behind the indices there are
    f1, f2, f3 = inh('new'), inh('insert_triangle'), inh('get_triangle')
    if f1 and f2 and f3:
        for prior in (0, 3, 5):
            ai = bench(P, secs=10)
            st = St()
            buf = place(mk('H', 'buf', 0))
            ai.write(st, buf, mk('array', *old(prior)), None)
            st, t = ai.run(f1, [mk('ref', buf)], st)[0]
            r, st = models.tmpref(ai, st, t)
            st, _ = ai.run(f2, [r, IX(0), IX(1), IX(2)], st)[0]
            outs = ai.run(f3, [r, num(0)], st)
            rep.analysed(*ai.visited)
            v = models.deep(ai, outs[0][0], outs[0][1]) if len(outs) == 1 else None
            ok = v == mk('tuple', IX(0), IX(1), IX(2)) and buffer(ai, st, buf) == old(prior) + ids(F3[:1]) if v is not None and v.op == 'tuple' else None
            rep.ob('buffer', 'first triangle of a new triangulation behind %d indices' % prior, ok, 'the first triangle is %s' % (show(v) if v else '?'), (f1, None))

    # flipping an edge
    fp, fi, ff = inh('next_pos'), inh('insert_triangle'), inh('flip_edge')
    if fp and fi and ff:
        def flip(A, B, a, b, want, key):
            for prior in (0, 4):
                ai = bench(P, secs=10)
                r, buf, st = triangulation(P, ai, St(), prior, ids(F3[2:]))
                pos = []
                for t in (A, B):
                    st, p = ai.run(fp, [r], st)[0]
                    pos.append(p)
                    st, _ = ai.run(fi, [r] + [IX(i) for i in t], st)[0]
                n0 = len(ai.panics)
                outs = ai.run(ff, [r, IX(a), IX(b)] + pos, st)
                rep.paths += len(outs)
                rep.analysed(*ai.visited)
                good, msg = True, ''
                if len(outs) != 1 or len(ai.panics) > n0 or outs[0][0].conds:
                    good, msg = (False if not outs else None), 'no single outcome'
                else:
                    s2, v = outs[0]
                    b2 = buffer(ai, s2, buf)
                    if b2 is None:
                        good, msg = None, 'unknown buffer'
                    else:
                        b2, o = b2[prior:], b2[:prior]
                        ts = [tuple(b2[i:i + 3]) for i in range(0, len(b2), 3)]
                        rot = lambda t: min(t[i:] + t[:i] for i in range(3))
                        got = sorted(rot(tuple(nm(x) for x in t)) for t in ts)
                        exp = sorted(rot(tuple(str(x) for x in t)) for t in F3[2:] + (want or [A, B]))
                        ok = v.op == 'adt' and v.a[1] == 'Ok' if v.op == 'adt' else None
                        if ok is None:
                            good, msg = None, 'result %s' % show(v)
                        elif ok != bool(want):
                            good, msg = False, 'reports %s' % show(v)
                        elif got != exp or o != old(prior):
                            good, msg = False, 'leaves the triangles %s' % ' '.join('-'.join(t) for t in got)
                        elif want and [t for t in (rot(tuple(nm(x) for x in ts[i])) for i in (1, 2))] != [rot(tuple(str(x) for x in t)) for t in want]:
                            good, msg = False, 'the two new triangles are stored in the other order'
                rep.ob('flip', '%s behind %d older indices' % (key, prior), good, msg, (ff, None))
        rots = lambda t: [t[i:] + t[:i] for i in range(3)]
        # a=0 b=1 c=2 d=3: abc, adb -> adc, dbc
        for A in rots((0, 1, 2)):
            for B in rots((0, 3, 1)):
                flip(A, B, 0, 1, [(0, 3, 2), (3, 1, 2)], 'flip of 0-1 in %d%d%d %d%d%d' % (A + B))
        for A, B, k in (((0, 1, 2), (0, 1, 3), 'the same direction twice'), ((1, 0, 2), (0, 3, 1), 'the other direction first'), ((0, 2, 5), (0, 3, 1), 'an edge missing in the first'),
                        ((0, 1, 2), (0, 3, 5), 'an edge missing in the second'), ((3, 4, 2), (0, 3, 1), 'a vertex missing in the first'), ((0, 1, 2), (3, 4, 5), 'both missing in the second')):
            for i, (A2, B2) in enumerate(itertools.product(rots(A), rots(B))):
                flip(A2, B2, 0, 1, None, 'flip with %s %d' % (k, i))

    # measures
    E, Q = Exact(False), Exact()
    hm = lambda n: (put(n),)

    def put(n):
        mp = mk('map0')
        for i in range(n):
            mp = mk('mput', mp, IX(i), X('v%d' % i))
        return mp

    half = alg.Poly.const(alg.Fraction(1, 2))

    def poly(w, fix=lambda p: p):
        def f(ai, st, v):
            p = E.alg.norm(models.deep(ai, st, v))
            return True if fix(p - w).d == {} or fix(p) == fix(w) else False if plain(p) else None
        return f

    def plain(p):
        """only coordinates, absolute values and distances of the points"""
        return all(type(a) is tuple and (a[0] in ('x', 'y') or a[:2] in (('app', 'abs'), ('app', 'sqrt'))) for a in p.atoms())

    for i, t in enumerate(F3):
        result('get_triangle_area', [num(i), hm(5)], poly(half * cross(*t)), base, key=str(i), rule='measure')
    for k in (1, 2, 3):
        A = alg.Poly()
        W = alg.Poly()
        for t in F3[:k]:
            A = A + atom('abs', half * cross(*t))
            W = W + dist(t[0], t[1]) + dist(t[1], t[2]) + dist(t[2], t[0])
        result('get_area', [hm(5)], poly(A, unabs), ids(F3[:k]), F3[:k], key='of %d' % k, rule='measure')
        result('total_edge_weight', [hm(5)], poly(W), ids(F3[:k]), F3[:k], key='of %d' % k, rule='measure')

    # checks
    quad = [(0, 1, 2), (0, 2, 3)]
    vs = lambda n: (mk('array', *points(P, n)),)

    def accepts(name, args, ts, key, judge=None, prior=3):
        g = go(name, args, ts, prior, key, 'check')
        if g:
            ai, buf, outs, fid = g
            if not outs:
                rep.ob('check', key, False, 'panics on a correct triangulation', (fid, None))
                return
            for st, _ in outs:
                good, msg = judge(ai, st) if judge else ((None if any(murky(c) or c.op not in ('bin', 'not', 'discr', 'mhas') for c in st.conds) else False, 'depends on %s' % ', '.join(show(c)[:80] for c in st.conds)) if st.conds else (True, ''))
                rep.ob('check', key, good, msg, (fid, None))
                if b_changed(ai, st, buf, prior, ts):
                    rep.ob('check', key + ' unchanged', False, 'the buffer is changed', (fid, None))
            bad = [p for p in ai.panics if not p[0].conds]
            rep.ob('check', key + ' passes', not bad, 'may panic without a reason', (fid, None))

    def b_changed(ai, st, buf, prior, ts):
        b = buffer(ai, st, buf)
        return b is not None and b != old(prior) + ids(ts)

    for nme, arg in (('verify_indices', hm), ('verify_all_indices_used', vs)):
        accepts(nme, [arg(4)], quad, '%s of a quadrilateral' % nme)
        accepts(nme, [arg(3)], quad[:1], '%s of a triangle' % nme)
        rejects(nme, [arg(4)], [(0, 1, 2), (0, 2, 7)], '%s with a foreign index' % nme)
        rejects(nme, [arg(4)], [(7, 1, 2), (0, 2, 3)] if nme == 'verify_indices' else [(7, 1, 2), (0, 2, 3)], '%s with a foreign first index' % nme)
    for k in (0, 1, 3):
        rejects('verify_indices', [hm(4)], (quad + quad)[:k], 'verify_indices with %d triangles for 4 vertices' % k)
    rejects('verify_all_indices_used', [vs(4)], [(0, 1, 2), (0, 1, 2)], 'verify_all_indices_used with an unused vertex')
    rejects('verify_all_indices_used', [vs(4)], [(1, 3, 2), (1, 2, 3)], 'verify_all_indices_used with an unused first vertex')

    def areas(ts):
        def judge(ai, st):
            got = []
            for c, v in st.conds.items():
                s = Q.sign(models.deep(ai, st, c), v)
                if s is None:
                    return None, 'condition %s' % show(c)[:80]
                got.append(s)
            for t in ts:
                w = cross(*t)
                hit = [s for p, s in got if prop(p, w)] + [{-x for x in s} for p, s in got if prop(-p, w)]
                if not hit:
                    return (False if all(plain(p) for p, _ in got) else None), 'the area of triangle %d-%d-%d is not bounded' % t
                if not any(s == {0, 1} for s in hit):
                    return False, 'a triangle is accepted for area signs %s' % sorted(hit[0])
            return True, ''
        return judge
    for ts, n in ((quad, 4), (F3, 5)):
        accepts('verify_non_degenerate_triangle', [hm(n)], ts, 'orientation of %d triangles' % len(ts), areas(ts))

    def cuts(ts):
        def judge(ai, st):
            seen = set()
            for c, v in st.conds.items():
                x = c
                while x.op in ('discr', 'not'):
                    x = x.a[0]
                if x.op == 'app' and x.a[0] == 'cut' and c.op == 'discr' and v == 0:
                    s = [frozenset(y.a[3:]) for y in x.a[1:3] if y.op == 'adt']
                    if len(s) == 2:
                        seen.add(frozenset(s))
                else:
                    return None, 'condition %s' % show(c)[:80]
            for i, t in enumerate(ts):
                for u in ts[i + 1:]:
                    for k in range(3):
                        for l in range(3):
                            e = frozenset((X('v%d' % t[k]), X('v%d' % t[(k + 1) % 3])))
                            f = frozenset((X('v%d' % u[l]), X('v%d' % u[(l + 1) % 3])))
                            if not e & f and frozenset((e, f)) not in seen:
                                return False, 'edges %d-%d and %d-%d are not compared' % (t[k], t[(k + 1) % 3], u[l], u[(l + 1) % 3])
            return True, ''
        return judge
    for ts, n, what in ((quad, 4, '2 triangles'), (F3, 5, '3 triangles'), ([(0, 1, 2), (3, 1, 4)], 5, '2 triangles with a common corner'), ([(0, 1, 2), (3, 4, 5)], 6, '2 separate triangles')):
        accepts('verify_no_intersections', [hm(n)], ts, 'intersections of %s' % what, cuts(ts))

    def area(n, ts):
        ref = alg.Poly()

        def judge(ai, st):
            A = alg.Poly()
            for t in ts:
                A = A + atom('abs', half * cross(*t))
            A = unabs(A)
            if len(st.conds) != 1:
                return None, '%d conditions' % len(st.conds)
            c, v = list(st.conds.items())[0]
            s = Q.sign(models.deep(ai, st, c), v)
            if s is None:
                return None, 'condition %s' % show(c)[:80]
            p = s[0]
            ab = [a for a in p.atoms() if type(a) is tuple and a[:2] == ('app', 'abs')]
            if len(p.d) == 2 and alg.ONE_M in p.d and len(ab) == 1:
                return False, 'areas that differ without bound are accepted however small the rounding error is'
            if len(p.d) != 1 or len(ab) != 1:
                return None, 'condition %s' % show(c)[:120]
            k = list(p.d.values())[0]
            ok = s[1] == ({0, -1} if k > 0 else {0, 1})
            inner = frompoly(ab[0][2])
            if not ok:
                return False, 'the areas are accepted when they differ'
            if inner is None:
                return True, ''
            inner = unabs(inner)
            refs = [a for a in inner.atoms() if type(a) is tuple and a[:2] == ('app', 'area')]
            if not refs:
                return None, 'no area of the polygon'
            R = alg.Poly.atom(refs[0])
            w = [alg.Poly.const(1) - A / R, A - R]
            return (True, '') if any(inner == x or inner == -x for x in w) else (None, 'compares %s' % str(inner)[:80])
        return judge
    accepts('verify_area', [vs(4), hm(4)], quad, 'area of a quadrilateral', area(4, quad))

    # the complete check consists of all of them
    f = inh('verify_full')
    parts = [n for n in ('verify_indices', 'verify_all_indices_used', 'verify_no_intersections', 'verify_non_degenerate_triangle', 'verify_area') if inh(n)]
    if f and len(parts) == 5:
        ai = bench(P, secs=10)
        for n in parts:
            ai.hooks[inh(n)] = lambda ai, st, c, args, site, n=n: [(called(st, n), UNIT)]
        r, buf, st = triangulation(P, ai, St(), 3, ids(quad))
        v, st = models.tmpref(ai, st, mk('array', *points(P, 4)))
        outs = ai.run(f, [r, v], st)
        rep.analysed(*ai.visited)
        for s2, _ in outs:
            seen = {e[1] for e in s2.events() if e[0] == 'called'}
            for n in parts:
                rep.ob('check', 'the complete check includes %s' % n, True if n in seen else None if seen == set() else False, '%s is left out' % n, (f, None))
    rep.floor('buffer', 40)
    rep.floor('flip', 60)
    rep.floor('measure', 15)
    rep.floor('check', 20)


def called(st, n):
    st = st.copy()
    st.event('called', n)
    return st


def prop(p, q):
    """p is a positive multiple of q"""
    if set(p.d) != set(q.d) or not p.d:
        return False
    r = {p.d[m] / q.d[m] for m in p.d}
    return len(r) == 1 and list(r)[0] > 0


def unabs(p):
    """|-x| = |x|, |c x| = |c| |x|"""
    out = alg.Poly()
    for mo, c in p.d.items():
        q = alg.Poly.const(c)
        for a, e in mo[0]:
            w = alg.Poly.atom(a)
            if type(a) is tuple and a[:2] == ('app', 'abs') and len(a) == 3:
                inner = frompoly(a[2])
                inner = unabs(inner) if inner is not None else None
                if inner is not None and inner.d:
                    k0 = min(inner.d, key=repr)
                    f = inner.d[k0]
                    w = alg.Poly.const(abs(f)) * atom('abs', alg.Poly({m: v / f for m, v in inner.d.items()}))
            for _ in range(abs(e)):
                q = q * w if e > 0 else q / w
        out = out + q
    return out


def frompoly(k):
    try:
        return alg.Poly(dict(k))
    except (TypeError, ValueError):
        return None


# ------------------------------------------------------------------------------------------------ G03: triangulators
TESTS = ('convex', 'collinear', 'is_inside_triangle', 'valid_diagonal', 'angle_tri')


def vno(t):
    """number of the point a term denotes, or None"""
    n = 0
    while type(t) is T and t.op in ('refto',) and n < 4:
        t, n = t.a[0], n + 1
    if type(t) is T and t.op == 'p' and str(t.a[0]).startswith('v'):
        return int(str(t.a[0])[1:])
    return None


def atoms_of(c):
    """(name, arguments) of a decision, negations removed: (app, points, positive)"""
    neg = False
    while c.op in ('not', 'discr'):
        neg ^= c.op == 'not'
        c = c.a[0]
    if c.op == 'app':
        return str(c.a[0]).split('::')[-1], [vno(x) for x in c.a[1:]], neg
    return None


class Facts:
    """decisions of a path over the points"""

    def __init__(self, ai, st):
        self.d, self.other, self.signs = {}, [], []
        E = Exact()
        for c, v in st.conds.items():
            c = models.deep(ai, st, c)
            x = atoms_of(c)
            if x and v in (0, 1):
                self.d[(x[0], tuple(x[1]))] = bool(v) ^ x[2]
                continue
            s = E.sign(c, v) if v in (0, 1) else None
            if s:
                ang = [a for a in s[0].atoms() if type(a) is tuple and a[:2] == ('app', 'angle_tri')]
                if len(s[0].d) == 1 and len(ang) == 1:
                    p = [pno(k) for k in ang[0][2:]]
                    k = list(s[0].d.values())[0]
                    if None not in p:
                        old = self.d.get(('angle', tuple(p)), {-1, 0, 1})
                        self.d[('angle', tuple(p))] = old & ({-x for x in s[1]} if k < 0 else s[1])
                        continue
                self.signs.append(s)
            else:
                self.other.append(c)

    def left(self, a, b, c):
        """a, b, c (in this order) turn left or are straight as far as the path knows: True / False / None (not tested)"""
        r = None
        for p, q, s in ((a, b, c), (b, c, a), (c, a, b)):
            v = self.d.get(('convex', (q, p, s)))
            if v is not None:
                r = v
            v = self.d.get(('convex', (q, s, p)))
            if v:
                return False
            v = self.d.get(('angle', (p, q, s)))
            if v is not None:
                r = True if -1 not in v else False if v == {-1} else r
            v = self.d.get(('angle', (p, s, q)))
            if v is not None:
                r = True if 1 not in v else False if v == {1} else r
            if r is not None:
                return r
        return r


    def clash(self):
        """the decisions contradict each other, so the path is never taken"""
        seen = {}
        for (k, t), v in self.d.items():
            if k == 'convex' and len(t) == 3 and None not in t:
                q, p, s = t
                got = {key3((p, q, s)): {1} if v else {0, -1}}
            elif k == 'angle':
                got = {key3(t): set(v)}
            else:
                continue
            for t, v in got.items():
                r = t[::-1]
                seen[t] = seen.get(t, {-1, 0, 1}) & v
                seen[key3(r)] = seen.get(key3(r), {-1, 0, 1}) & {-x for x in v}
        return any(not v for v in seen.values())


def pno(k):
    p = frompoly(k)
    if p is not None and len(p.d) == 1:
        a = list(p.atoms())
        if len(a) == 1 and list(p.d.values())[0] == 1:
            return vno(a[0])
    return None


class Fill:
    """runs of a triangulator on n symbolic points"""

    def __init__(self, P, rep, key, n, opaque=TESTS, secs=40, maxpaths=20000, budget=10 ** 8):
        self.P, self.rep, self.key, self.n = P, rep, key, n
        self.ai = bench(P, maxpaths=maxpaths, secs=secs, opaque=opaque, budget=budget)
        for f in P.fns:
            if f.endswith('::circumcircle_contains'):
                self.ai.hooks[f] = lambda ai, st, c, args, site: [(st, mk('app', 'circ', *[ai.snap(st, a) for a in args]))]
        self.st = St()
        self.r, self.buf, self.st = triangulation(P, self.ai, self.st)

    def vec(self, items):
        v, self.st = models.tmpref(self.ai, self.st, mk('array', *items))
        return v

    def fail(self, ex):
        self.rep.ob('tiling', self.key, None, '%s: %s' % (type(ex).__name__, str(ex)[:100]))

    def outs(self, sts, poly, fid, where='tiling', turned=False, label=None):
        """checks the final states; returns [(state, triangles as point numbers)]"""
        rep, good, msg = self.rep, True, ''
        res = []
        rep.analysed(*self.ai.visited)
        rep.paths += len(sts)
        if self.ai.truncated or not sts:
            rep.ob(where, self.key, None, 'truncated' if sts else 'no outcome')
            return []
        ix = [IX(i) for i in poly]
        for st in sts:
            try:
                ts = triangles(self.ai, st, self.buf)
                w = None if ts is None else tiles(ts, ix)
            except Wrong as ex:
                ts, w = [], str(ex)
            if ts is None:
                good, msg = None, 'the triangles are %s' % show(self.ai.read(st, self.buf))[:80]
                break
            if w and turned and w.endswith('than the polygon'):
                w = None
                ts = [t[::-1] for t in ts]
            if w:
                good, msg = False, w + conds_text(st)
                break
            res.append((st, [tuple(t.a[0] - 100 for t in x) for x in ts]))
        rep.ob(where, label or self.key, good, msg, (fid, None))
        return res if good else []


def conds_text(st):
    return (' when ' + ', '.join('%s is %s' % (show(c)[:60], v) for c, v in list(st.conds.items())[:4])) if st.conds else ''


def key3(t):
    return min(t[i:] + t[:i] for i in range(3))


def g03(P, rep, tier, cfg, rel):
    full = tier == 'thorough'
    fn = lambda n: [f for f in P.fns if f.split('::')[-1] == n and 'tesselate' in f and f in P.fns]
    quad(P, rep, fn)
    ears(P, rep, fn, full)
    weights(P, rep, fn, full)
    monotone(P, rep, full)
    circle(P, rep, fn)
    faces(P, rep, fn, full)
    rep.floor('tiling', 40)


def quad(P, rep, fn):
    """the shorter diagonal inside a quadrilateral"""
    for f in fn('try_min_weight_small_direct') + fn('min_weight_quad'):
        for n in (3, 4):
            if n == 3 and not f.endswith('direct'):
                continue
            F = Fill(P, rep, '%s of %d points' % (f.split('::')[-1], n), n)
            v = F.vec(points(P, n))
            try:
                outs = F.ai.run(f, [v, F.r], F.st)
            except Exception as ex:
                F.fail(ex)
                continue
            res = F.outs([s for s, _ in outs], range(n), f)
            bad = [p for p in F.ai.panics]
            rep.ob('tiling', F.key + ' never gives up', (not bad) or (None if all(p[0].conds for p in bad) else False), 'panics', (f, None))
            if n != 4:
                continue
            dd = alg.Alg(vec=lambda a: getattr(a, 'op', None) == 'p')
            D = dd.norm(mk('app', 'distance_squared', X('v0'), X('v2'))) - dd.norm(mk('app', 'distance_squared', X('v1'), X('v3')))
            for sd in (-1, 0, 1):
                for c in itertools.product((True, False), repeat=4):
                    if sum(c) < 3:
                        continue
                    ok02, ok13 = c[1] and c[3], c[0] and c[2]
                    k = '%s: diagonal 0-2 %s, corners %s' % (F.key, {-1: 'shorter', 0: 'equal', 1: 'longer'}[sd], ''.join('+' if x else '-' for x in c))
                    hits, unk = [], False
                    for st, ts in res:
                        fs = Facts(F.ai, st)
                        m = True
                        for (nm_, a), v in fs.d.items():
                            if nm_ == 'convex' and None not in a:
                                q, p, s = a
                                if (s - q) % 4 == 1 and (q - p) % 4 == 1:
                                    m = m and v == c[q]
                                elif (s - q) % 4 == 3 and (q - p) % 4 == 3:
                                    m = m and v == (not c[q])
                                else:
                                    unk = True
                            else:
                                unk = True
                        for p, s in fs.signs:
                            if prop(p, D):
                                m = m and sd in s
                            elif prop(-p, D):
                                m = m and -sd in s
                            else:
                                unk = True
                        unk = unk or bool(fs.other)
                        if m:
                            hits.append(ts)
                    if not res or unk or not hits:
                        rep.ob('diagonal', k, None, 'unknown decisions')
                        continue
                    for ts in hits:
                        d02 = any({0, 2} <= set(t) and 1 in t for t in ts)
                        want = {True} if ok02 and not ok13 or sd < 0 and ok02 else {False} if ok13 and not ok02 or sd > 0 and ok13 else {True, False}
                        rep.ob('diagonal', k, d02 in want, 'the diagonal %s is chosen' % ('0-2' if d02 else '1-3'), (f, None))
    rep.floor('diagonal', 10)


def ears(P, rep, fn, full):
    for f in fn('ear_clipping_direct'):
        for n in (3, 4, 5) if full else (3, 4):
            F = Fill(P, rep, 'ear clipping of %d points' % n, n, secs=240)
            v = F.vec([mk('tuple', X('v%d' % i), IX(i)) for i in range(n)])
            try:
                outs = F.ai.run(f, [v, F.r, FALSE], F.st)
            except Exception as ex:
                F.fail(ex)
                continue
            wound = None
            for st, _ in outs[:1]:
                try:
                    ts = triangles(F.ai, st, F.buf)
                    wound = ts is not None and outline(ts) == cycle([IX(i) for i in range(n)][::-1])
                except Wrong:
                    pass
            res = F.outs([s for s, _ in outs], range(n), f, turned=True)
            rep.ob('winding', 'ear clipping', None if wound is None else not wound, 'the triangles are wound the other way than the polygon and than those of the other algorithms', (f, None))
            good, msg = (True, '') if res else (None, 'no outcome')
            for st, ts in res:
                fs = Facts(F.ai, st)
                if fs.other or fs.signs:
                    good, msg = None, 'unknown decisions'
                    break
                R = list(range(n))
                for t in ts:
                    w = wrong_ear(fs, R, t)
                    if w:
                        good, msg = False, w + conds_text(st)
                        break
                    R = [x for x in R if x not in t or x in ends(R, t)]
                if good is not True:
                    break
            rep.ob('ear', F.key, good, msg, (f, None))
            # it gives up only if no ear passes the tests
            good, msg = True, ''
            for st, why, *_ in F.ai.panics:
                fs = Facts(F.ai, st)
                if not any(not v for (x, _), v in fs.d.items() if x == 'convex') and not any(v for (x, _), v in fs.d.items() if x in ('collinear', 'is_inside_triangle')):
                    good, msg = False, 'gives up although no test failed'
            rep.ob('ear', F.key + ' gives up for a reason', good, msg, (f, None))
    rep.floor('ear', 4)


def ends(R, t):
    """the two corners of t that stay: its middle one in the order of R is cut off"""
    i = [k for k in range(len(R)) if {R[k - 1], R[k], R[(k + 1) % len(R)]} == set(t)]
    if len(R) == 3:
        return set(t)
    return {R[i[0] - 1], R[(i[0] + 1) % len(R)]} if i else set(t)


def wrong_ear(fs, R, t):
    """None or why cutting the corner t off the polygon R is not justified by the tests"""
    if len(R) == 3 and set(R) == set(t):
        return None
    i = [k for k in range(len(R)) if {R[k - 1], R[k], R[(k + 1) % len(R)]} == set(t)]
    if not i:
        return 'triangle %s is no corner of what is left' % '-'.join(map(str, t))
    k = i[0]
    w = passes(fs, R, R[k - 1], R[k], R[(k + 1) % len(R)])
    return w if w and not stuck(fs, R) else None


def passes(fs, R, a, b, c):
    v = fs.left(a, b, c)
    if not v:
        return 'corner %d-%d-%d is cut off although it is %s' % (a, b, c, 'not convex' if v is False else 'not known to be convex')
    for x in R:
        if x not in (a, b, c):
            got = [v for (nme, p), v in fs.d.items() if nme == 'is_inside_triangle' and p[0] == x and set(p[1:]) == {a, b, c}]
            if True in got or not got:
                return 'corner %d-%d-%d is cut off although %d %s inside' % (a, b, c, x, 'is' if got else 'may be')
    return None


def stuck(fs, R):
    """every corner of R failed a test"""
    for k in range(len(R)):
        a, b, c = R[k - 1], R[k], R[(k + 1) % len(R)]
        if not (fs.left(a, b, c) is False or any(v for (nme, p), v in fs.d.items() if nme == 'is_inside_triangle' and set(p[1:]) == {a, b, c})
                or any(v for (nme, p), v in fs.d.items() if nme == 'collinear' and set(p) >= {a, b, c})):
            return False
    return True


def splits(lo, hi):
    """all triangulations of the polygon lo..hi as sets of triangles"""
    if hi - lo < 2:
        return [()]
    return [((lo, k, hi),) + a + b for k in range(lo + 1, hi) for a in splits(lo, k) for b in splits(k, hi)]


def sides(ts, n):
    """diagonals used"""
    return {tuple(sorted((t[i], t[(i + 1) % 3]))) for t in ts for i in range(3)} - {tuple(sorted((i, (i + 1) % n))) for i in range(n)}


def weights(P, rep, fn, full):
    """dynamic programming finds the cheapest triangulation without crossing diagonals"""
    for f in fn('minweight_dynamic_direct'):
        for n in (4, 5):
            F = Fill(P, rep, 'minimal weight of %d points' % n, n, secs=60)
            v = F.vec(points(P, n))
            try:
                outs = F.ai.run(f, [v, F.r], F.st)
            except Exception as ex:
                F.fail(ex)
                continue
            res = F.outs([s for s, _ in outs], range(n), f)
            W = {}
            for s in splits(0, n - 1):
                w = alg.Poly()
                for t in s:
                    w = w + dist(t[0], t[1]) + dist(t[1], t[2]) + dist(t[2], t[0])
                W[frozenset(s)] = w
            good, msg = (True, '') if res else (None, 'no outcome')
            best, bmsg = good, msg
            for st, ts in res:
                valid, cmpx, unk = {}, [], False
                for c, v in st.conds.items():
                    c = models.deep(F.ai, st, c)
                    neg = False
                    while c.op == 'not':
                        neg, c = not neg, c.a[0]
                    if c.op == 'app' and str(c.a[0]).split('::')[-1] == 'valid_diagonal' and all(isconst(x) for x in c.a[2:4]):
                        valid[tuple(sorted((c.a[2].a[0], c.a[3].a[0])))] = bool(v) ^ neg
                        continue
                    s = Exact().sign(c, v)
                    if not s:
                        unk = True
                        continue
                    p, sg = s
                    if sg <= {0, 1}:
                        cmpx.append(p)
                    elif sg <= {0, -1}:
                        cmpx.append(-p)
                used = sides(ts, n)
                if [d for d in used if valid.get(d) is not True]:
                    d = [d for d in used if valid.get(d) is not True][0]
                    good, msg = (None if unk and d not in valid else False), 'diagonal %d-%d is used although it is %s inside' % (d + ('not' if d in valid else 'not known to be',))
                key = frozenset(tuple(sorted(t)) for t in ts)
                mine = W.get(frozenset((t[0], t[1], t[2]) for t in key))
                if mine is None:
                    continue
                for s, w in W.items():
                    if any(valid.get(d) is False for d in sides(s, n)):
                        continue
                    if not implied(w - mine, cmpx):
                        best, bmsg = (None if unk else False), 'triangles %s are taken although %s may be cheaper' % (
                            ' '.join('-'.join(map(str, t)) for t in ts), ' '.join('-'.join(map(str, t)) for t in sorted(s)))
            rep.ob('diagonals inside', F.key, good, msg, (f, None))
            rep.ob('cheapest', F.key, best, bmsg, (f, None))
    rep.floor('cheapest', 2)


def implied(p, nonneg):
    """p >= 0 is a sum of some of the known nonnegative polynomials"""
    if not p.d:
        return True
    for k in range(1, 4):
        for xs in itertools.combinations(nonneg, k):
            s = alg.Poly()
            for x in xs:
                s = s + x
            if s == p:
                return True
    return False


def mono_impls(P):
    d = {}
    for t in P.traits.values():
        if t['id'].endswith('::MonotoneTriangulator'):
            for m in t['methods']:
                for im, f in P.impl_of.get(m['id'], []):
                    d.setdefault(str(im.get('self_ty') or im.get('self_adt')), {})[m['name']] = f
    return d


def monotone(P, rep, full):
    """monotone pieces, given as two chains"""
    for ty, ms in sorted(mono_impls(P).items()):
        name = ty.split('<')[0].split('::')[-1]
        flips = any(f.endswith('::circumcircle_contains') for f in P.fns) and 'Delaunay' in name
        slow = 'Delaunay' in name or 'Dynamic' in name
        opposite(P, rep, name, ms)
        for n in (3, 4, 5) + ((6,) if full and not slow else ()):
            if n == 5 and 'Delaunay' in name and not full:
                continue
            for w in itertools.product('lr', repeat=n - 1):
                word = ''.join(w)
                F = Fill(P, rep, '%s of chain %s' % (name, word), n, secs=60)
                v = F.vec(points(P, n))
                try:
                    (st, self_), = F.ai.run(ms['new'], [num(0)], F.st)
                    s, st = models.tmpref(F.ai, st, self_)
                    sts = [st]
                    for i, d in enumerate(w):
                        sts = [x for q in sts for x, _ in F.ai.run(ms['left' if d == 'l' else 'right'], [s, num(i + 1), F.r, v], q)]
                    sts = [x for q in sts for x, _ in F.ai.run(ms['finish'], [s, F.r, v], q)]
                except Exception as ex:
                    F.fail(ex)
                    continue
                last = n - 1
                L = [i + 1 for i in range(n - 2) if w[i] == 'l']
                R = [i + 1 for i in range(n - 2) if w[i] == 'r']
                poly = [0] + L + [last] + R[::-1]
                res = F.outs(sts, poly, ms['finish'])
                if 'Dynamic' in name:
                    continue
                side = {i + 1: d for i, d in enumerate(w)}
                good, msg = (True, '') if res else (None, 'no outcome')
                for st, ts in res:
                    fs = Facts(F.ai, st)
                    if fs.other or fs.signs:
                        good, msg = None, 'unknown decisions'
                        break
                    bad = None if any(x == 'circ' for x, _ in fs.d) and any(v for (x, _), v in fs.d.items() if x == 'circ') else unsafe(fs, ts, side, w)
                    if bad:
                        good, msg = False, bad + conds_text(st)
                        break
                rep.ob('orientation', F.key, good, msg, (ms['left'], None))
                if flips and n == 4:
                    legal(rep, F, res, poly, ms['left'])
    rep.floor('orientation', 16)
    rep.floor('opposite', 2)


def opposite(P, rep, name, ms):
    """a chain that has grown on one side continues on the other at the last vertex there, or at the apex"""
    if 'last_opposite' not in ms:
        return
    for k in range(4):
        for w in itertools.product('lr', repeat=k):
            F = Fill(P, rep, '%s after %s' % (name, ''.join(w) or 'nothing'), k + 1, secs=20)
            F.ai.keep_panics, F.ai.panics = True, []
            v = F.vec(points(P, k + 1))
            try:
                (st, self_), = F.ai.run(ms['new'], [num(0)], F.st)
                s, st = models.tmpref(F.ai, st, self_)
                sts = [st]
                for i, d in enumerate(w):
                    sts = [x for q in sts for x, _ in F.ai.run(ms['left' if d == 'l' else 'right'], [s, num(i + 1), F.r, v], q)]
                F.ai.panics = []
                outs = [(x, F.ai.snap(x, r)) for q in sts for x, r in F.ai.run(ms['last_opposite'], [s], q)]
            except Exception as ex:
                F.fail(ex)
                continue
            want = max([i + 1 for i, d in enumerate(w) if d != w[-1]], default=0)
            good, msg = (True, '') if outs else (None, 'no outcome')
            for st, r in outs:
                if r != num(want):
                    good, msg = (False if isconst(r) else None), 'continues at %s instead of %d%s' % (show(r)[:40], want, conds_text(st))
            for st, why, site, stack in F.ai.panics:
                good, msg = False, 'panics (%s)%s' % (str(why)[:60], conds_text(st))
            rep.ob('opposite', F.key, good, msg, (ms['last_opposite'], None))


def unsafe(fs, ts, side, w):
    for t in ts:
        a, b, c = sorted(t)
        i = t.index(a)
        t = t[i:] + t[:i]
        if side.get(b) == side.get(c) and a >= 0:
            v = fs.left(*t)
            if not v:
                return 'triangle %s on one chain is taken although it is %s' % ('-'.join(map(str, t)), 'turned over' if v is False else 'not known to lie inside')
    return None


def legal(rep, F, res, poly, fid):
    """the diagonal of a quadrilateral is flipped if and only if it may and its circle contains the other corner"""
    good, msg = (True, '') if res else (None, 'no outcome')
    for st, ts in res:
        fs = Facts(F.ai, st)
        if fs.other or fs.signs:
            good, msg = None, 'unknown decisions'
            break
        if fs.clash():
            continue
        x, y = sorted(set(ts[0]) & set(ts[1]))
        z, = set(ts[0]) - {x, y}
        u, = set(ts[1]) - {x, y}
        inc = lambda t, p: [v for (nme, a), v in fs.d.items() if nme == 'circ' and None not in a and key3(tuple(a[:3])) == key3(t) and a[3] == p]
        i = poly.index(x)
        nxt, prv = poly[(i + 1) % 4], poly[i - 1]
        opp = {x, y}
        # triangles in the order of the polygon: (x, nxt, y), (y, prv, x)
        mine = inc((x, nxt, y), prv) + inc((y, prv, x), nxt)
        other = inc((nxt, y, prv), x) + inc((prv, x, nxt), y)
        conv = [fs.left(prv, x, nxt), fs.left(nxt, y, prv)]
        if True in other and not (fs.left(x, nxt, y) and fs.left(y, prv, x)):
            good, msg = False, 'diagonal %d-%d is introduced although the corners %d and %d need not be convex%s' % (x, y, nxt, prv, conds_text(st))
            break
        if False in mine or True in other:
            ok = True
        elif False in conv:
            ok = True
        elif True in mine:
            ok = False
        else:
            ok = False
        if not ok:
            good, msg = False, 'diagonal %d-%d is kept although %s%s' % (x, y, 'its circle contains the opposite corner' if True in mine else 'its circle was not examined', conds_text(st))
            break
    rep.ob('empty circle', F.key, good, msg, (fid, None))


def circle(P, rep, fn):
    """the test for a point in the circle through three others"""
    for f in fn('circumcircle_contains'):
        ai = bench(P, secs=20, loop=60)
        E = Exact()
        outs = ai.run(f, [X('v%d' % i) for i in range(4)], St())
        rep.analysed(*ai.visited)
        x = lambda i: pt(i, 'x') - pt(3, 'x')
        y = lambda i: pt(i, 'y') - pt(3, 'y')
        q = lambda i: x(i) * x(i) + y(i) * y(i)
        det = alg.Poly()
        for a, b, c in ((0, 1, 2), (1, 2, 0), (2, 0, 1)):
            det = det + x(a) * (y(b) * q(c) - y(c) * q(b))
        good, msg = (True, '') if outs else (None, 'no outcome')
        for st, r in outs:
            r = models.deep(ai, st, r)
            neg = False
            while r.op == 'not':
                neg, r = not neg, r.a[0]
            if r.op == 'app' and str(r.a[0]).split('::')[-1] in ('is_positive', 'is_negative') and len(outs) == 1:
                p = E.alg.norm(r.a[1])
                if str(r.a[0]).endswith('is_negative'):
                    p = -p
            else:
                s = E.sign(r, 1) if len(outs) == 1 else None
                if not s or s[1] not in ({1}, {-1}):
                    good, msg = None, 'decides on %s' % show(r)[:80]
                    break
                p = s[0] if s[1] == {1} else -s[0]
            if neg:
                p = -p
            if not prop(p, det):
                good, msg = (False if all(type(a) is tuple and a[0] in ('x', 'y') for a in p.atoms()) else None), 'the sign tested is not that of the determinant for the circle'
        rep.ob('empty circle', 'the circle test', good, msg, (f, None))


DIRECT = ('sweep_line_triangulation', 'minweight_dynamic_direct', 'ear_clipping_direct')
TABLE = {'EarClipping': ('ear_clipping', ''), 'Sweep': ('sweep_line', 'LinearMono'), 'SweepDynamic': ('sweep_line', 'DynamicMono'),
         'SweepDelaunay': ('sweep_line', 'DelaunayMono'), 'Delaunay': ('delaunay_triangulation', ''), 'MinWeight': ('minweight_dynamic', '')}


def on_face(P, n, fid, args, stop, secs=20):
    """runs fid(face, mesh, ..) on a mesh with one face of n vertices; calls of functions in `stop` become events"""
    star0 = mathx.math_hooks(P)['*']

    def star(ai, st, c, rid, a, site):
        nme = c['name'].split('::')[-1]
        if nme in stop:
            st = st.copy()
            st.event('tess', nme, [x for x in (models.deep(ai, st, y) for y in a)], tuple(str(x) for x in c.get('args') or ()))
            return [(st, UNIT)]
        if nme == 'from_rotation_arc' and len(a) == 2:
            return [(st, mk('app', 'arc', *[models.deep(ai, st, x) for x in a]))]
        return star0(ai, st, c, rid, a, site)
    h = heap.HeapRun(P, extra=star)
    h.ai.deadline = min(time.time() + secs, AI.deadline or 1e18)
    h.ai.keep_panics, h.ai.panics = True, []
    src = heap.Source(n, [(0, list(range(n))), (None, list(range(n))[::-1])], gaps={'v': (0, 2)})
    pl = heap.pl_ext(place(mk('M', mk('m'))))
    st = src.lay(P, h.ai, St(), 0, pl)
    face = mk('ref', heap.pl_ext(heap.root_of(0), '.faces', mk('ix', src.fs[0])))
    r, buf, st = triangulation(P, h.ai, st)
    outs = h.run(fid, [face, mk('ref', pl)] + args(r), st)
    return h.ai, src, buf, outs


def flat_corners(P, x, src, n):
    """the list holds the corners of the face in order, turned so that the normal points up: None or reason; Unknown -> ValueError"""
    if x.op in ('ref', 'refto'):
        x = x.a[0]
    if x.op != 'array':
        raise ValueError(show(x)[:60])
    if len(x.a) != n:
        return '%d of %d corners' % (len(x.a), n)
    def corner(al, t):
        if t.op == 'ini' or t.op == 'app' and str(t.a[0]).split('::')[-1] == 'pos':
            q = strip(t)
            if q.op == 'app' and str(q.a[0]).split('::')[-1] == 'pos':
                return alg.Poly.atom(mk('p', 'q', strip(q.a[1])))
    E = alg.Alg(vec=lambda a: getattr(a, 'op', None) == 'p', extra=corner)
    R = None
    rot = []
    for y in x.a:
        if y.op == 'tuple' and len(y.a) == 2:
            p, i = y.a
        elif y.op == 'adt':
            f = dict(zip(y.a[2], y.a[3:]))
            p, i = f['vec'], f['index']
        else:
            raise ValueError(show(y)[:60])
        if i not in src.vs:
            return 'index %s' % show(i)
        rot.append(src.vs.index(i))
        if not (p.op == 'app' and len(p.a) == 3):
            raise ValueError(show(p)[:60])
        cs = []
        for q, ax in zip(p.a[1:], 'xy'):
            q = strip(q)
            if not (q.op == 'app' and str(q.a[0]).split('::')[-1] in 'xyz'):
                raise ValueError(show(q)[:60])
            if str(q.a[0]).split('::')[-1] != ax:
                return 'coordinate %s is taken from %s' % (ax, str(q.a[0]).split('::')[-1])
            a = strip(q.a[1])
            if not (a.op == 'app' and str(a.a[0]).split('::')[-1] in ('apply', 'apply_point') and len(a.a) == 3):
                raise ValueError(show(a)[:60])
            pos = strip(a.a[2])
            if not (pos.op == 'app' and str(pos.a[0]).split('::')[-1] == 'pos'):
                raise ValueError(repr((pos.op, pos.a))[:300])
            if strip(pos.a[1]) is not X('vp%d' % rot[-1]):
                return 'corner %d is drawn at the position of %s' % (rot[-1], show(strip(pos.a[1])))
            r = strip(a.a[1])
            if R is not None and r is not R:
                return 'corners are turned differently'
            R = r
    k = rot[0]
    if rot != [(k + i) % n for i in range(n)]:
        return 'the corners come in the order %s' % rot
    if not (R.op == 'app' and R.a[0] == 'arc'):
        raise ValueError(show(R)[:60])
    src_n, up = strip(R.a[1]), strip(R.a[2])
    for t, want in ((src_n, 'normal'), (up, 'up')):
        while t.op == 'app' and str(t.a[0]).split('::')[-1] == 'normalize':
            t = strip(t.a[1])
        got = [component(E.norm(t), ax) for ax in 'xyz']
        if want == 'up':
            w = [alg.Poly(), alg.Poly(), alg.Poly.const(1)]
        else:
            pp = lambda i, ax: alg.Poly.atom((ax, mk('p', 'q', X('vp%d' % (i % n)))))
            w = [alg.Poly() for _ in range(3)]
            for i in range(n):
                for q, (a, b) in enumerate((('y', 'z'), ('z', 'x'), ('x', 'y'))):
                    w[q] = w[q] + pp(i, a) * pp(i + 1, b) - pp(i, b) * pp(i + 1, a)
        fac = set()
        for g, v in zip(got, w):
            if not v.d and not g.d:
                continue
            if set(g.d) != set(v.d):
                if all(type(a) is tuple and a[0] in ('x', 'y', 'z') for a in g.atoms()):
                    return 'the %s direction is %s' % (want, str(g)[:60])
                raise ValueError(str(g)[:100])
            fac |= {g.d[m] / v.d[m] for m in g.d}
        if len(fac) != 1:
            return 'the %s direction is wrong' % want
        if list(fac)[0] < 0:
            return 'the %s direction is reversed' % want
    return None


def component(p, ax):
    """coordinate of a linear combination of vectors"""
    out = alg.Poly()
    for (s, n), c in p.d.items():
        w = alg.Poly.const(c)
        for a, e in s:
            if type(a) is tuple and a[:2] == ('app', 'new') and len(a) == 5 and e == 1:
                v = frompoly(a[2 + 'xyz'.index(ax)])
                w = w * (v if v is not None else alg.Poly.atom(a))
            elif type(a) is T and a.op == 'p' and e == 1:
                w = w * alg.Poly.atom((ax, a))
            else:
                for _ in range(abs(e)):
                    w = w * alg.Poly.atom(a) if e > 0 else w / alg.Poly.atom(a)
        out = out + w
    return out


def strip(t):
    n = 0
    while n < 8:
        n += 1
        if t.op in ('refto', 'ref', 'ini') and type(t.a[0]) is T:
            t = t.a[0]
        elif t.op == 'pl' and len(t.a) == 1 or t.op == 'pl' and len(t.a) == 2 and not t.a[1]:
            t = t.a[0]
        elif t.op == 'M' and type(t.a[0]) is T:
            t = t.a[0]
        else:
            break
    return t


def faces(P, rep, fn, full):
    def corners(key, fid, x, src, n):
        try:
            w = flat_corners(P, x, src, n)
        except (ValueError, KeyError, AttributeError, IndexError) as ex:
            rep.ob('corners', key, None, 'form not recognised: %s' % str(ex)[:120])
            return
        rep.ob('corners', key, w is None, w, (fid, None))

    def run(key, n, fid, args, stop):
        try:
            r = on_face(P, n, fid, args, stop)
        except Exception as ex:
            rep.ob('face', key, None, '%s: %s' % (type(ex).__name__, str(ex)[:100]))
            return None
        rep.analysed(*r[0].visited)
        rep.paths += len(r[3])
        return r

    def fan(key, fid, ai, st, buf, src, n, spoke=True):
        try:
            ts = triangles(ai, st, buf)
            w = None if ts is None else tiles(ts, [src.vs[i] for i in range(n)])
        except Wrong as ex:
            ts, w = [], str(ex)
        rep.ob('face', key, None if ts is None else w is None, w, (fid, None))
        if ts and not w and spoke:
            rep.ob('face', key + ' is a fan', len(set.intersection(*[set(t) for t in ts])) > 0, 'the triangles have no common corner', (fid, None))

    for f in fn('fan_triangulation'):
        for n in (3, 4, 5, 6):
            r = run('fan of %d' % n, n, f, lambda t: [t], ())
            if r:
                for st, _ in r[3]:
                    fan('fan of %d' % n, f, r[0], st, r[2], r[1], n)
    for nme, args in (('sweep_line', lambda t: [t, X('meta')]), ('minweight_dynamic', lambda t: [t]), ('ear_clipping', lambda t: [t, FALSE])):
        for f in fn(nme):
            for n in (5, 7):
                key = '%s of a face with %d vertices' % (nme, n)
                r = run(key, n, f, args, DIRECT)
                if not r:
                    continue
                ai, src, buf, outs = r
                for st, _ in outs:
                    calls = [e for e in st.events() if e[0] == 'tess']
                    ls = [x for e in calls for x in e[2] if strip(x).op == 'array' or x.op == 'array']
                    if len(calls) != 1 or len(ls) != 1:
                        rep.ob('corners', key, None, '%d calls' % len(calls))
                        continue
                    corners(key, f, ls[0], src, n)
    for f in [x for x in P.fns if x.endswith('Face3d::vec2s')]:
        for n in (3, 4, 5):
            r = run('flattening of %d vertices' % n, n, f, lambda t: [], ())
            if r:
                for st, v in r[3]:
                    corners('flattening of %d vertices' % n, f, models.deep(r[0], st, v), r[1], n)
    # which algorithm runs
    for f in fn('triangulate_face'):
        ad = [a for a in P.adts.values() if a['id'].endswith('::TriangulationAlgorithm')]
        if not ad:
            continue
        for v in ad[0]['variants']:
            algo = mk('adt', ad[0]['id'], v['name'], ())
            for n in (3, 4, 5, 7):
                key = '%s for %d vertices' % (v['name'], n)
                stop = ('ear_clipping', 'sweep_line', 'delaunay_triangulation', 'minweight_dynamic') + DIRECT + (('min_weight_quad',) if n == 4 else ())
                r = run(key, n, f, lambda t: [t, algo, X('meta')], stop)
                if not r:
                    continue
                ai, src, buf, outs = r
                for st, _ in outs:
                    calls = [e for e in st.events() if e[0] == 'tess']
                    if n == 3 or n == 4 and v['name'] in ('Fan', 'Auto') and not calls:
                        if calls:
                            rep.ob('face', key, True)
                        else:
                            fan(key, f, ai, st, buf, src, n, False)
                        continue
                    if calls and calls[-1][1] == 'min_weight_quad':
                        ls = [x for x in calls[-1][2] if strip(x).op == 'array']
                        if len(ls) == 1 and len(calls) == 1:
                            corners(key, f, ls[0], src, n)
                        continue
                    if v['name'] == 'Fan':
                        if calls:
                            rep.ob('face', key, False, 'runs %s' % calls[0][1], (f, None))
                        else:
                            fan(key, f, ai, st, buf, src, n)
                    elif v['name'] == 'Auto':
                        rep.ob('face', key, len(calls) == 1 or None, 'runs %d algorithms' % len(calls), (f, None))
                    elif v['name'] in TABLE:
                        want, arg = TABLE[v['name']]
                        if n == 4 and len(calls) != 1:
                            continue
                        if len(calls) != 1:
                            rep.ob('face', key, False if not calls and not st.conds else None, 'runs %d algorithms' % len(calls), (f, None))
                            continue
                        nme = calls[0][1]
                        if nme in DIRECT:
                            rep.ob('face', key, None, 'runs %s directly' % nme)
                            continue
                        ok = nme == want and arg in ' '.join(calls[0][3])
                        if nme == want and arg and 'Mono' not in ' '.join(calls[0][3]):
                            ok = None
                        rep.ob('face', key, ok, 'runs %s %s' % (nme, ' '.join(x for x in calls[0][3] if 'Mono' in x)[:80]), (f, None))
                        a = [strip(x) for x in calls[0][2][:3]]
                        if nme != 'min_weight_quad' and len(a) == 3:
                            t = calls[0][2][2]
                            rep.ob('face', key + ' passes the triangulation on', True if 'buf' in show(t) else None, show(t)[:80], (f, None))
    rep.floor('face', 30)
    rep.floor('corners', 8)

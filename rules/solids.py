"""O01/O02: shapes built on an exact half-edge heap. The constructors, lofts, extrusions and subdivisions are analysed with
their trip counts fixed and everything else (payloads, sizes, positions, transformations) symbolic; the resulting faces, as
cyclic sequences of vertex labels, the open boundary, the returned handle and the vertex positions are compared with a
reference description."""
from fractions import Fraction
import time
from ai import *
from alg import Poly, leaf
from heap import *
import exact
import mathx
import models
import report

C = Poly.const
Z = Poly()


def lb(x):
    """short text of a label"""
    if isinstance(x, tuple):
        if x[0] == 'v': return x[1]
        if x[0] == 'pos': return '(%s)' % ', '.join(str(Poly(dict(k))) for k in x[1:])
        if x[0] == 'tr': return '%s moved by %s' % (lb(x[1]), x[2])
        if x[0] == 'mid': return 'middle of %s' % ' and '.join(sorted(lb(y) for y in x[1]))
        if x[0] == 'ip': return 'interpolated %s' % ' '.join(sorted('%sx%s' % (w, lb(v)) for w, v in x[1]))
        return str(x)[:120]
    return str(x)


def both(a, b):
    return tuple(sorted((a, b), key=repr))


def pos(*xs):
    return ('pos',) + tuple(exact.reduce(x if isinstance(x, Poly) else C(x)).key() for x in xs)


def V(n):
    return ('v', n)


class Unknown(Exception):
    pass


class Shape:
    """the analysed mesh of one path with labelled vertices"""

    def __init__(self, al, ai, st, dim=3):
        self.h = Heap(ai, st)
        self.al, self.ai, self.st, self.dim = al, ai, st, dim
        self.memo = {}

    def vlabel(self, v):
        if v.op != 'alloc':
            raise Unknown('vertex %s' % show(v)[:80])
        if v not in self.memo:
            self.memo[v] = None
            self.memo[v] = self.label(self.h.payload(v))
        return self.memo[v]

    def label(self, p):
        while p.op in ('refto', 'ref'):
            p = p.a[0] if p.op == 'refto' else self.ai.deref(self.st, p)
        if p.op == 'p':
            return V(show(p))
        if p.op == 'app':
            nm = leaf(p.a[0])
            a = p.a[1:]
            if nm in ('clone',) and len(a) == 1:
                return self.label(a[0])
            if nm == 'from_pos' and len(a) == 1:
                return pos(*[self.al.comp(a[0], c) for c in 'xyz'[:self.dim]])
            if nm in ('transform', 'transformed') and len(a) == 2:
                return ('tr', self.label(a[0]), self.motion(a[1]))
            if nm in ('lerp', 'lerped') and len(a) == 3:
                s = self.al.norm(a[2])
                if s == C(Fraction(1, 2)):
                    return ('mid', both(self.label(a[0]), self.label(a[1])))
                return ('lerp', self.label(a[0]), self.label(a[1]), s.key())
            if nm == 'call' and len(a) == 3 and a[2].op == 'array' and all(x.op == 'tuple' for x in a[2].a):
                ws = []
                for x in a[2].a:
                    w, v = x.a
                    if not isconst(w):
                        raise Unknown('weight %s' % show(w)[:80])
                    if w.a[0]:
                        ws.append((w.a[0], self.vlabel(v)))
                return ('ip', tuple(sorted(ws, key=repr)), self.ipol(a[0])) if len(set(ws)) == len(ws) else ('bad', str(ws))
        raise Unknown('payload %s' % show(p)[:120])

    def motion(self, t):
        while t.op in ('refto', 'ref'):
            t = t.a[0] if t.op == 'refto' else self.ai.deref(self.st, t)
        if t.op == 'app' and leaf(t.a[0]) == 'from_translation':
            return 'shift by %s' % exact.reduce(self.al.norm(t.a[1]))
        if t.op == 'p':
            return show(t)
        raise Unknown('motion %s' % show(t)[:80])

    def ipol(self, t):
        while t.op == 'refto':
            t = t.a[0]
        if t.op == 'p':
            return show(t)
        if t.op == 'adt':
            d = dict(zip(t.a[2], t.a[3:]))
            return '%s(%s)' % (leaf(t.a[0]), ', '.join('%s %s' % (k, exact.reduce(self.al.norm(v))) for k, v in sorted(d.items())))
        raise Unknown('interpolator %s' % show(t)[:80])

    def seq(self, cyc):
        return canon_cycle([self.vlabel(self.h.origin(e)) for e in cyc])

    def shape(self):
        """(vertex labels, faces, boundaries), or raises Unknown; yields problems as (kind, text)"""
        h = self.h
        E, Vs, Fs = h.live('.halfedges'), h.live('.vertices'), h.live('.faces')
        bad = []
        es, vs, fs = set(E), set(Vs), set(Fs)
        nm = lambda e: '%s to %s' % (lb(self.vlabel(h.origin(e))), lb(self.vlabel(h.origin(h.twin(e)))))
        for e in E:
            n, p, t, o, f = h.next(e), h.prev(e), h.twin(e), h.origin(e), h.face(e)
            for x, s in ((n, es), (p, es), (t, es), (o, vs)):
                if x not in s:
                    if x.op not in ('alloc',) and x is not MAX:
                        raise Unknown('link %s' % show(x)[:80])
                    bad.append(('links', 'an edge refers to an element that is not in the mesh'))
                    break
            else:
                if h.prev(n) is not e or h.next(p) is not e:
                    bad.append(('links', 'next and prev of the edge from %s disagree' % nm(e)))
                if h.twin(t) is not e or t is e:
                    bad.append(('links', 'twin of the edge from %s' % nm(e)))
                if h.origin(n) is not h.origin(t):
                    bad.append(('links', 'the edge after %s does not start where that one ends' % nm(e)))
                if f is not MAX and f not in fs:
                    if f.op not in ('alloc',):
                        raise Unknown('face %s' % show(f)[:80])
                    bad.append(('links', 'the edge from %s refers to a face that is not in the mesh' % nm(e)))
                if h.face(n) is not f:
                    bad.append(('links', 'the edge after %s has another face' % nm(e)))
        if bad:
            return None, None, None, bad
        labels = [self.vlabel(v) for v in Vs]
        for v in Vs:
            r = h.rd('.vertices', v, '.edge')
            if r is MAX:
                bad.append(('links', '%s has no edge' % lb(self.vlabel(v))))
            elif r not in es or h.origin(r) is not v:
                bad.append(('links', 'the edge of vertex %s does not start there' % lb(self.vlabel(v))))
        faces, bounds, seen = [], [], set()
        for f in Fs:
            r = h.rd('.faces', f, '.edge')
            if r not in es or h.face(r) is not f:
                bad.append(('links', 'a face is represented by an edge of another face'))
        per = {}
        for e in E:
            if e in seen:
                continue
            c = h.cycle(e, 4 * len(E))
            if c is None:
                bad.append(('links', 'the boundary of the edge from %s is not closed' % nm(e)))
                break
            seen.update(c)
            f = h.face(e)
            if f is MAX:
                bounds.append(self.seq(c))
            else:
                if f in per:
                    bad.append(('links', 'a face has two separate boundaries'))
                per[f] = c
                faces.append(self.seq(c))
        for f in Fs:
            if f not in per:
                bad.append(('links', 'a face has no edges'))
        return labels, faces, bounds, bad


def canon_cycle(seq):
    if not seq:
        return ()
    r = [tuple(seq[i:] + seq[:i]) for i in range(len(seq))]
    return min(r, key=repr)


class Spec:
    """faces as cyclic vertex sequences; wires are edges without a face on either side"""

    def __init__(self, faces, ret=None, wires=(), facepay=None):
        self.facepay = facepay
        self.faces = [list(f) for f in faces]
        self.ret = ret
        self.wires = list(wires)

    def labels(self):
        out = []
        for f in self.faces + [list(w) for w in self.wires]:
            for x in f:
                if x not in out:
                    out.append(x)
        return out

    def open(self):
        """directed edges that have no face"""
        d = [(f[i], f[(i + 1) % len(f)]) for f in self.faces for i in range(len(f))]
        out = [(b, a) for a, b in d if (b, a) not in d]
        for a, b in self.wires:
            out += [(a, b), (b, a)]
        return out


def multiset_diff(a, b):
    a, b = list(a), list(b)
    for x in list(a):
        if x in b:
            a.remove(x)
            b.remove(x)
    return a, b


def judge(rep, rule, inst, al, hr, outs, spec, fid, dim=3):
    """compare the analysed mesh with the reference"""
    key = lambda k: '%s: %s' % (inst, k)
    if not outs:
        sure = bool(hr.ai.panics) and not hr.ai.truncated
        rep.ob(rule, key('completes'), False if sure else None, 'the operation does not complete: %s' % (hr.ai.panics[0][1] if hr.ai.panics else 'no path'),
               (fid, hr.ai.panics[0][2] if hr.ai.panics else None))
        return None
    if len(outs) > 1:
        # open conditions: all alternatives must agree with the reference
        pass
    good = []
    for st, ret in outs:
        sh = Shape(al, hr.ai, st, dim)
        try:
            labels, faces, bounds, bad = sh.shape()
            for k, m in bad:
                rep.ob(rule, key(m), False, m, (fid, None))
            if bad:
                continue
            rep.ob(rule, key('links'), True)
            a, b = multiset_diff(labels, spec.labels())
            rep.ob(rule, key('vertices'), not a and not b, 'vertices %s instead of %s' % ([lb(x) for x in a[:3]], [lb(x) for x in b[:3]]), (fid, None))
            if a or b:
                continue
            a, b = multiset_diff(faces, [canon_cycle(f) for f in spec.faces])
            ok = not a and not b
            rep.ob(rule, key('faces'), ok, 'faces %s instead of %s' % ([[lb(y) for y in x] for x in a[:2]], [[lb(y) for y in x] for x in b[:2]]), (fid, None))
            a, b = multiset_diff([(c[i], c[(i + 1) % len(c)]) for c in bounds for i in range(len(c))], spec.open())
            rep.ob(rule, key('boundary'), not a and not b, 'edges without a face: %s instead of %s' % (
                [[lb(y) for y in x] for x in a[:3]], [[lb(y) for y in x] for x in b[:3]]), (fid, None))
            if spec.ret is not None:
                h = sh.h
                if isinstance(spec.ret, tuple) and spec.ret and spec.ret[0] == 'vertex':
                    g = ret.op == 'alloc' and ret.a[0] == '.vertices' and sh.vlabel(ret) == spec.ret[1]
                    got = show(ret)[:60]
                elif isinstance(spec.ret, tuple) and spec.ret and spec.ret[0] == 'on':
                    g = ret.op == 'alloc' and ret.a[0] == '.halfedges' and sh.seq(h.cycle(ret)) == canon_cycle(list(spec.ret[1]))
                    got = 'an edge along %s' % [lb(x) for x in sh.seq(h.cycle(ret))] if ret.op == 'alloc' else show(ret)[:60]
                else:
                    g = ret.op == 'alloc' and ret.a[0] == '.halfedges'
                    got = show(ret)[:60]
                    if g:
                        w = (sh.vlabel(h.origin(ret)), sh.vlabel(h.origin(h.twin(ret))))
                        got = '%s to %s' % (lb(w[0]), lb(w[1]))
                        g = w == tuple(spec.ret)
                rep.ob(rule, key('result'), g if ret.op == 'alloc' or g else None, 'returns %s instead of %s' % (got, [lb(x) if isinstance(x, tuple) else x for x in spec.ret]), (fid, None))
            if spec.facepay is not None:
                h = sh.h
                for f in h.live('.faces'):
                    cyc = sh.seq(h.cycle(h.rd('.faces', f, '.edge')))
                    want = [w for c, w in zip(spec.faces, spec.facepay) if canon_cycle(c) == cyc]
                    got = show(h.rd('.faces', f, '.payload'))
                    rep.ob(rule, key('face payload'), got in want, 'face %s carries %s instead of %s' % ([lb(x) for x in cyc], got[:60], want[:1]), (fid, None))
            cv = [sh.h.rd('.faces', f, '.curved') for f in sh.h.live('.faces')]
            rep.ob(rule, key('flat'), None if any(not isconst(c) for c in cv) else all(c == FALSE for c in cv), 'a new face is marked as curved', (fid, None))
            good.append((sh, ret))
        except Unknown as ex:
            rep.ob(rule, key('understood'), None, str(ex), (fid, None))
    return good


# ------------------------------------------------------------------------------------------------ operations
def arr(p, n, k=0):
    return mk('array', *[X('%s%d' % (p, i)) for i in range(k, n)])


def P_(i):
    return V('p%d' % i)


def Q_(i):
    return V('q%d' % i)


class Bench:
    def __init__(self, P, rep, rule, tier):
        self.P, self.rep, self.rule, self.tier = P, rep, rule, tier
        self.al = exact.Exact(vec=lambda a: a is X('s'))
        star = mathx.math_hooks(P, skip=('centroid',))['*']
        self.extra = star
        self.noin = {}

    def fid(self, tr, fn):
        f = self.P.method(tr, fn)
        if f is None:
            raise report.Fatal('%s::%s' % (tr, fn))
        return f

    def heap(self):
        hr = HeapRun(self.P, extra=self.extra, loop=400, budget=20000000)
        hr.ai.keep_panics = True
        nrm = self.P.method('Face3d', 'normal')
        if nrm:
            def normal(ai, st, c, args, site):
                p = args[0].a[0] if args[0].op == 'ref' else args[0]
                return [(st, mk('app', 'face_normal', p.a[-1] if p.op == 'pl' else p))]
            hr.ai.hooks[nrm] = normal
        for f in [fid for t in self.P.traits.values() if t['id'].endswith('::Vector3D') for fid in [m['id'] for m in t['methods'] if m['name'] == 'slerp']]:
            hr.ai.hooks[f] = lambda ai, st, c, args, site: [(st, mk('app', 'Vector3D::slerp', *[ai.snap(st, a) for a in args]))]
        return hr

    def go(self, inst, tr, fn, args, spec, hr=None, st=None, dim=3):
        fid = self.fid(tr, fn)
        hr = hr or self.heap()
        hr.ai.panics = []
        hr.ai.deadline = min(time.time() + 60, AI.deadline or 1e18)
        try:
            outs = hr.run(fid, args, st)
        except Exception as ex:
            self.rep.ob(self.rule, '%s: analysed' % inst, None, '%s: %s' % (type(ex).__name__, ex))
            return None
        self.rep.paths += len(outs)
        self.rep.analysed(*hr.ai.visited)
        return judge(self.rep, self.rule, inst, self.al, hr, outs, spec, fid, dim)

    def polygon(self, n, k=0, name='p'):
        """a heap holding one polygon; returns (run, state, edge p0 -> p1 on the open side)"""
        hr = self.heap()
        outs = hr.run(self.fid('Make2dShape', 'insert_polygon'), [SELF, arr(name, n)])
        if len(outs) != 1:
            raise report.Fatal('insert_polygon: %d paths' % len(outs))
        return hr, outs[0][0], outs[0][1]


def poly_face(n, f=P_):
    return [f(i) for i in reversed(range(n))]


def tri_hem(L, k, shift, q=Q_):
    """faces between the boundary vertices L (in walking order) and k new vertices, for a walk along the boundary edges"""
    out = []
    n = len(L)
    if shift:
        # q0 hangs off the first boundary vertex before the walk; then q1.. are attached along the walk
        for i in range(1, k):
            out.append([L[(i - 1) % n], q(i), q(i - 1)])
            out.append([L[(i - 1) % n], L[i % n], q(i)])
    else:
        for i in range(k - 1):
            out.append([L[i % n], L[(i + 1) % n], q(i)])
            out.append([L[(i + 1) % n], q(i + 1), q(i)])
    return out


def rev(fs):
    return [list(reversed(f)) for f in fs]


def poly_hem(L, n, m, k, q=Q_):
    """(faces, wires): faces of n new and m boundary vertices along the boundary L with k new vertices"""
    N = len(L)
    faces, wires = [], []
    if k == 0:
        return [], []
    j = 0
    per = N // (m - 1) if N % (m - 1) == 0 else None
    while True:
        a, b = j * (n - 1), (j + 1) * (n - 1)
        w = [L[i % N] for i in range(j * (m - 1), (j + 1) * (m - 1) + 1)]
        if b < k:
            faces.append(w + [q(i) for i in range(b, a - 1, -1)])
        elif b == k and per == j + 1:
            faces.append(w + [q(0)] + [q(i) for i in range(k - 1, a - 1, -1)])
            return faces, wires
        else:
            # the remaining vertices hang loosely
            for i in range(a, k - 1):
                wires.append((q(i), q(i + 1)))
            if a == 0:
                wires.append((L[0], q(0)))
            return faces, wires
        j += 1


def o01(P, rep, tier, cfg, rel):
    B = Bench(P, rep, 'operation', tier)
    deep = tier == 'thorough'
    ns = (3, 4, 5) if deep else (3, 4)
    for n in ns + ((6,) if deep else ()):
        f = poly_face(n)
        B.go('insert_polygon of %d' % n, 'Make2dShape', 'insert_polygon', [SELF, arr('p', n)], Spec([f], (P_(0), P_(1))))
        B.go('insert_dihedron of %d' % n, 'Make2dShape', 'insert_dihedron', [SELF, arr('p', n)], Spec([f, f[::-1]], (P_(0), P_(1))))
        hr, st, e = B.polygon(n)
        fwd = [P_(i) for i in range(n)]
        bwd = [P_((1 - i) % n) for i in range(n)]
        for sh in (False, True):
            for k in range(0, n + (1 if sh else 0)):
                h = tri_hem(fwd, k, sh)
                w = [(fwd[0], Q_(0))] if k == 1 else []
                B.go('loft_tri with %d vertices on %d%s' % (k, n, ' shifted' if sh else ''), 'MeshLoft', 'loft_tri',
                     [SELF, e, TRUE if sh else FALSE, arr('q', k)], Spec([f] + h, (Q_(0), fwd[0]) if k else (P_(0), P_(1)), w), hr, st)
                h = rev(tri_hem(bwd, k, sh))
                w = [(bwd[0], Q_(0))] if k == 1 else []
                B.go('loft_tri_back with %d vertices on %d%s' % (k, n, ' shifted' if sh else ''), 'MeshLoft', 'loft_tri_back',
                     [SELF, e, TRUE if sh else FALSE, arr('q', k)], Spec([f] + h, (Q_(0), bwd[0]) if k else (P_(0), P_(1)), w), hr, st)
        close = lambda L: tri_hem(L, n, False) + [[L[n - 1], L[0], Q_(n - 1)], [L[0], Q_(0), Q_(n - 1)]]
        B.go('loft_tri_closed on %d' % n, 'MeshLoft', 'loft_tri_closed', [SELF, e, arr('q', n)], Spec([f] + close(fwd), (Q_(0), Q_(1))), hr, st)
        B.go('loft_tri_back_closed on %d' % n, 'MeshLoft', 'loft_tri_back_closed', [SELF, e, arr('q', n)],
             Spec([f] + rev(close(bwd)), (Q_(0), bwd[0])), hr, st)
        for k in range(0, n + 1):
            faces, wires = poly_hem(fwd, 2, 2, k)
            B.go('loft_polygon 2,2 with %d vertices on %d' % (k, n), 'MeshLoft', 'loft_polygon', [SELF, e, num(2), num(2), arr('q', k)],
                 Spec([f] + faces, (Q_(0), Q_(1)) if k > 1 else (P_(0), P_(1)), wires), hr, st)
        B.go('fill_hole_apex on %d' % n, 'MeshExtrude', 'fill_hole_apex', [SELF, e, X('a')],
             Spec([f] + [[P_(i), P_((i + 1) % n), V('a')] for i in range(n)], ('vertex', V('a'))), hr, st)
    combos = [(3, 2, 2), (4, 2, 2), (3, 3, 2), (6, 2, 3), (4, 3, 3), (3, 4, 2)] + ([(6, 3, 4), (6, 2, 4), (5, 3, 2), (6, 4, 3)] if deep else [])
    for n, a, b in combos:
        f = poly_face(n)
        hr, st, e = B.polygon(n)
        bwd = [P_((1 - i) % n) for i in range(n)]
        for k in range(0, (n // (b - 1)) * (a - 1) + 1):
            if (a, k) == (2, 2) and n == 2 * (b - 1):
                continue  # a ring of two vertices: the last face would need a second edge between them
            faces, wires = poly_hem(bwd, a, b, k)
            B.go('loft_polygon_back %d,%d with %d vertices on %d' % (a, b, k, n), 'MeshLoft', 'loft_polygon_back', [SELF, e, num(a), num(b), arr('q', k)],
                 Spec([f] + rev(faces), (Q_(1), Q_(0)) if k > 1 else (P_(0), P_(1)), wires), hr, st)
    for n in ns:
        f = poly_face(n)
        hr, st, e = B.polygon(n)
        t = X('t')
        M_ = lambda x: ('tr', x, 't')
        top = [M_(P_(i)) for i in range(n)]
        quads = [[P_(i), P_((i + 1) % n), M_(P_((i + 1) % n)), M_(P_(i))] for i in range(n)]
        B.go('extrude of %d' % n, 'MeshExtrude', 'extrude', [SELF, e, t], Spec([f, top] + quads, (top[0], top[1])), hr, st)
        tris = lambda q: [[P_(i), P_((i + 1) % n), q(i)] for i in range(n)] + [[P_((i + 1) % n), q((i + 1) % n), q(i)] for i in range(n)]
        # the tips of the hem are the images of the end points of its edges
        tq = lambda i: M_(P_((i + 1) % n))
        B.go('extrude_tri of %d' % n, 'MeshExtrude', 'extrude_tri', [SELF, e, t],
             Spec([f, [tq(i) for i in range(n)]] + tris(tq), (tq(0), tq(1))), hr, st)
        mq = lambda i: ('mid', both(M_(P_(i)), M_(P_((i + 1) % n))))
        B.go('extrude_tri2 of %d' % n, 'MeshExtrude', 'extrude_tri2', [SELF, e, t],
             Spec([f, [mq(i) for i in range(n)]] + tris(mq), (mq(0), mq(1))), hr, st)
        B.go('extrude_boundary of %d' % n, 'MeshExtrude', 'extrude_boundary', [SELF, t], Spec([f, top] + quads), hr, st)
        # two separate pieces
        outs = hr.run(B.fid('Make2dShape', 'insert_polygon'), [SELF, arr('q', 3)], st)
        top2 = [M_(Q_(i)) for i in range(3)]
        quads2 = [[Q_(i), Q_((i + 1) % 3), M_(Q_((i + 1) % 3)), M_(Q_(i))] for i in range(3)]
        B.go('extrude_boundary of %d and 3' % n, 'MeshExtrude', 'extrude_boundary', [SELF, t],
             Spec([f, top, poly_face(3, Q_), top2] + quads + quads2), hr, outs[0][0])
    # faces of a closed solid
    for n in ns:
        for face in range(n + 1):
            hr = B.heap()
            base = hr.run(B.fid('MakePrismatoid', 'insert_pyramid'), [SELF, arr('p', n), X('a')])
            if len(base) != 1:
                rep.ob('operation', 'extrude_face on a pyramid: built', None, '%d paths' % len(base))
                continue
            st = base[0][0]
            sh = Shape(B.al, hr.ai, st)
            fs = [(f, list(sh.seq(sh.h.cycle(sh.h.rd('.faces', f, '.edge'))))) for f in sh.h.live('.faces')]
            if face >= len(fs):
                continue
            f, c = fs[face]
            rest = [x for g, x in fs if g is not f]
            k = len(c)
            top = [M_(x) for x in c]
            B.go('extrude_face of face %d of a pyramid over %d' % (face, n), 'MeshExtrude', 'extrude_face', [SELF, f, t],
                 Spec(rest + [top] + [[c[i], c[(i + 1) % k], M_(c[(i + 1) % k]), M_(c[i])] for i in range(k)], ('on', top)), hr, st)
            # the triangle hem starts with the image of the end point
            tq = lambda i: M_(c[(i + 1) % k])
            B.go('extrude_tri_face of face %d of a pyramid over %d' % (face, n), 'MeshExtrude', 'extrude_tri_face', [SELF, f, t],
                 Spec(rest + [top] + [[c[i], c[(i + 1) % k], tq(i)] for i in range(k)] + [[c[(i + 1) % k], tq(i + 1), tq(i)] for i in range(k)], ('on', top)), hr, st)
    # a strip of triangles, whose faces may be represented by inner edges
    for n in (3, 4):
        hr, st, e = B.polygon(n)
        for k in range(2, n):
            outs = hr.run(B.fid('MeshLoft', 'loft_tri'), [SELF, e, FALSE, arr('q', k)], st)
            sp = Spec([poly_face(n)] + tri_hem([P_(i) for i in range(n)], k, False))
            o = sp.open()
            loop = [o[0][0]]
            nx = dict(o)
            while nx[loop[-1]] != loop[0]:
                loop.append(nx[loop[-1]])
            m = len(loop)
            B.go('extrude_boundary of a hem of %d on %d' % (k, n), 'MeshExtrude', 'extrude_boundary', [SELF, t],
                 Spec(sp.faces + [[M_(x) for x in loop]] + [[loop[i], loop[(i + 1) % m], M_(loop[(i + 1) % m]), M_(loop[i])] for i in range(m)]), hr, outs[0][0])
            sh = Shape(B.al, hr.ai, outs[0][0])
            for f in sh.h.live('.faces'):
                # lay the representative edges elsewhere: any edge may represent a face
                for e2 in sh.h.cycle(sh.h.rd('.faces', f, '.edge'))[1:]:
                    s2 = outs[0][0].copy()
                    hr.ai.write(s2, pl_ext(HEAP, '.faces', mk('ix', f), '.edge'), e2, None)
                    B.go('extrude_boundary of a hem of %d on %d, another representative edge' % (k, n), 'MeshExtrude', 'extrude_boundary', [SELF, t],
                         Spec(sp.faces + [[M_(x) for x in loop]] + [[loop[i], loop[(i + 1) % m], M_(loop[(i + 1) % m]), M_(loop[i])] for i in range(m)]), hr, s2)
    subdivision(B, rep, deep)
    interpolators(B, rep)
    rep.floor('operation', 400)
    rep.floor('interpolation', 12)


def halves(fs, ip='vpb'):
    mid = lambda a, b: ('ip', both((1, a), (1, b)), ip)
    out = []
    for a, b, c in fs:
        x, y, z = mid(a, b), mid(b, c), mid(c, a)
        out += [[a, x, z], [b, y, x], [c, z, y], [x, y, z]]
    return out


def payloads(B, hr, st):
    """give every face a payload of its own"""
    st = st.copy()
    names = {}
    h = Heap(hr.ai, st)
    for i, f in enumerate(h.live('.faces')):
        hr.ai.write(st, pl_ext(HEAP, '.faces', mk('ix', f), '.payload'), X('fp%d' % i), None)
        names[f] = 'fp%d' % i
    return st, names


def subdivision(B, rep, deep):
    bases = [('a triangle', [('Make2dShape', 'insert_polygon', [SELF, arr('p', 3)])]),
             ('a tetrahedron', [('MakePrismatoid', 'insert_pyramid', [SELF, arr('p', 3), X('a')])]),
             ('a triangle with both sides', [('Make2dShape', 'insert_dihedron', [SELF, arr('p', 3)])]),
             ('an octahedron', [('MakePrismatoid', 'insert_antiprism_iter', [SELF, arr('p', 3), arr('q', 3)])])]
    for k in (2, 3):
        bases.append(('a strip of %d' % (2 * k - 1), [('Make2dShape', 'insert_polygon', [SELF, arr('p', 3)]), ('MeshLoft', 'loft_tri', [SELF, None, FALSE, arr('q', k)])]))
    bases.append(('two triangles', [('Make2dShape', 'insert_polygon', [SELF, arr('p', 3)]), ('Make2dShape', 'insert_polygon', [SELF, arr('q', 3)])]))
    new = [i for i in B.P.inherent_all('SubdivisionDescription', 'new')]
    for nm, steps in bases:
        hr = B.heap()
        st, e = None, None
        ok = True
        for tr, fn, args in steps:
            outs = hr.run(B.fid(tr, fn), [e if a is None else a for a in args], st)
            if len(outs) != 1:
                rep.ob('operation', 'subdivision of %s: built' % nm, None, '%d paths' % len(outs))
                ok = False
                break
            st, e = outs[0]
        if not ok:
            continue
        st, names = payloads(B, hr, st)
        sh = Shape(B.al, hr.ai, st)
        fs = [(f, list(sh.seq(sh.h.cycle(sh.h.rd('.faces', f, '.edge'))))) for f in sh.h.live('.faces')]
        base = [c for f, c in fs]
        B.go('loop subdivision of %s' % nm, 'MeshSubdivision', 'loop_subdivision', [SELF, X('vpb')],
             Spec(halves(base), facepay=[names[f] for f, c in fs for _ in range(4)]), hr, st)
        if len(new) == 1:
            for b in (1, 2, 4):
                if b == 4 and (nm.endswith('sides') or len(base) > 4 and not deep):
                    continue
                d = hr.run(new[0], [num(b), num(0)], st)
                if len(d) != 1:
                    rep.ob('operation', 'description', None, '%d paths' % len(d))
                    continue
                want = base
                x = b
                while x > 1:
                    want, x = halves(want), x // 2
                B.go('subdivision %d of %s' % (b, nm), 'MeshSubdivision', 'subdivision_frequency', [SELF, d[0][1], X('vpb')], Spec(want), hr, d[0][0])


def interpolators(B, rep, rule='interpolation'):
    """what the shipped interpolators compute for the weights used by the subdivision"""
    P = B.P
    half = Poly.const(Fraction(1, 2))
    for fid, ty in mathx.defs(P, 'VertexInterpolator', 'call'):
        nm = leaf(fid.split('::{')[0]) if ty is None else ty.split('<')[0].split('::')[-1]
        sl = 'Slerp' in str(ty)
        for ws in ([(1, 1, 0), (1, 0, 1), (0, 1, 1)] + ([] if sl else [(1, 0, 0), (0, 3, 0), (1, 2, 3), (1, 1, 1)])):
            inst = '%s %s' % (nm, ws)
            hr, st, e = B.polygon(3)
            vs = [x for x in Heap(hr.ai, st).live('.vertices')]
            own = mk('ref', place(mk('M', X('ipol'))))
            if sl:
                outs = hr.run(P.inherent_all('SlerpVertexInterpolator', 'new')[0], [X('center'), X('radius')], st)
                if len(outs) != 1:
                    rep.ob(rule, inst, None, 'new: %d paths' % len(outs))
                    continue
                st, me = outs[0]
                own, st = models.tmpref(hr.ai, st, me)
            arr_ = mk('array', *[mk('tuple', num(w), v) for w, v in zip(ws, vs)])
            try:
                outs = hr.run(fid, [own, SELF, arr_], st)
            except Exception as ex:
                rep.ob(rule, inst, None, '%s: %s' % (type(ex).__name__, ex))
                continue
            rep.paths += len(outs)
            rep.analysed(*hr.ai.visited)
            if not outs:
                rep.ob(rule, inst, None, 'no path')
            sh = Shape(B.al, hr.ai, outs[0][0]) if outs else None
            for s, ret in outs:
                if not (ret.op == 'app' and leaf(ret.a[0]) == 'from_pos'):
                    rep.ob(rule, inst, None, show(ret)[:100])
                    continue
                names = [sh.vlabel(v)[1] for v in vs]
                al = exact.Exact(vec=lambda a: True)
                p = {v: al.norm(hr.ai.deref(s, mk('app', 'HasPosition::pos', mk('refto', X(n))))) for v, n in zip(vs, names)}
                got = al.real(ret.a[1])
                if sl:
                    c, r = al.norm(X('center')), al.norm(X('radius'))
                    u = [v for v, w in zip(vs, ws) if w]
                    unit = lambda q: Poly.atom(('app', 'normalize', exact.reduce(q).key()))
                    opts = []
                    for a, b in ((u[0], u[1]), (u[1], u[0])):
                        sl_ = Poly.atom(('app', 'slerp', unit(p[a] - c).key(), unit(p[b] - c).key(), half.key()))
                        opts += [c + unit(sl_) * r, c + sl_ * r]
                    rep.ob(rule, inst, got in opts, 'the position is %s instead of %s' % (str(got)[:300], str(opts[0])[:300]), (fid, None))
                else:
                    want = Poly()
                    for v, w in zip(vs, ws):
                        want = want + p[v] * Poly.const(Fraction(w, sum(ws)))
                    rep.ob(rule, inst, mathx.agree(got, want), 'the position is %s instead of %s' % (str(got)[:300], str(want)[:300]), (fid, None))
    m = mathx.Math(P, rep, 'interpolation', concrete=True)
    for fn_, want in (('b', lambda b, c: b), ('c', lambda b, c: c), ('frequency', lambda b, c: b + c), ('triangulation_number', lambda b, c: b * b + b * c + c * c)):
        ids = P.inherent_all('SubdivisionDescription', fn_)
        new = P.inherent_all('SubdivisionDescription', 'new')
        if len(ids) != 1 or len(new) != 1:
            rep.ob('interpolation', fn_, None, 'not found')
            continue
        ai, outs = m.run(new[0], [X('b'), X('c')])
        for s, d in outs:
            r, s = models.tmpref(ai, s, d)
            ai2, o2 = m.run(ids[0], [r], st=s)
            for s2, v in o2:
                got = m.alg.norm(v)
                rep.ob('interpolation', fn_, got == want(m.alg.norm(X('b')), m.alg.norm(X('c'))), '%s is %s' % (fn_, got), (ids[0], None))


# ------------------------------------------------------------------------------------------------ primitive solids
def num_(x):
    """approximate value of an exact constant, for the reference side only"""
    r = 0.0
    for (s, n), c in x.d.items():
        t = float(c)
        for a, k in s:
            t *= valof(a) ** k
        r += t
    return r


def valof(a):
    import math
    if isinstance(a, tuple) and a[0] == 'rt':
        return math.sqrt(a[1] if isinstance(a[1], int) else num_(Poly(dict(a[1]))))
    if isinstance(a, tuple) and a[0] == 'app' and a[1] == 'cos':
        return math.cos(num_(Poly(dict(a[2]))))
    if a == ('const', 'PI'):
        return math.pi
    return 1.0                  # sizes


def hull(vs):
    """outward faces of the convex polyhedron spanned by exact points around the origin (reference side)"""
    import itertools
    import math
    pts = [tuple(num_(x) for x in v) for v in vs]
    faces = {}
    for a, b, c in itertools.combinations(range(len(pts)), 3):
        u = [pts[b][i] - pts[a][i] for i in range(3)]
        w = [pts[c][i] - pts[a][i] for i in range(3)]
        n = (u[1] * w[2] - u[2] * w[1], u[2] * w[0] - u[0] * w[2], u[0] * w[1] - u[1] * w[0])
        ln = math.sqrt(sum(x * x for x in n))
        if ln < 1e-9:
            continue
        n = [x / ln for x in n]
        d = [sum(n[i] * (p[i] - pts[a][i]) for i in range(3)) for p in pts]
        if min(d) < -1e-9 and max(d) > 1e-9:
            continue
        if max(d) > 1e-9:
            n = [-x for x in n]
        on = tuple(i for i in range(len(pts)) if abs(d[i]) < 1e-9)
        if on in faces:
            continue
        ce = [sum(pts[i][k] for i in on) / len(on) for k in range(3)]
        ax = [pts[on[0]][k] - ce[k] for k in range(3)]
        ay = [n[1] * ax[2] - n[2] * ax[1], n[2] * ax[0] - n[0] * ax[2], n[0] * ax[1] - n[1] * ax[0]]
        ang = lambda i: math.atan2(sum((pts[i][k] - ce[k]) * ay[k] for k in range(3)), sum((pts[i][k] - ce[k]) * ax[k] for k in range(3)))
        faces[on] = sorted(on, key=ang)
    return list(faces.values())


def S_(n):
    return Poly.atom(X(n))


def root(n):
    return exact.sqrt_q(Fraction(n))


def ring(r, n, shift, y):
    pi = Poly.atom(exact.PI)
    out = []
    for i in range(n):
        a = C(Fraction(2 * i + shift, n)) * pi
        out.append(pos(r * exact.trig('cos', a), y, -r * exact.trig('sin', a)))
    return out


def around(n):
    return [(i, (i + 1) % n) for i in range(n)]


def f_pyramid(b, apex):
    return [b[::-1]] + [[b[i], b[j], apex] for i, j in around(len(b))]


def f_frustum(b, t):
    return [b[::-1], t] + [[b[i], b[j], t[j], t[i]] for i, j in around(len(b))]


def f_anti(b, t):
    return [b[::-1], t] + [[b[i], b[j], t[i]] for i, j in around(len(b))] + [[b[j], t[j], t[i]] for i, j in around(len(b))]


def o02(P, rep, tier, cfg, rel):
    B = Bench(P, rep, 'solid', tier)
    deep = tier == 'thorough'
    K, T_, S2 = 'MakePrismatoid', 'MakeSphere', 'Make2dShape'
    r, h, R, l = S_('r'), S_('h'), S_('R'), S_('l')
    xr, xh, xR, xl = X('r'), X('h'), X('R'), X('l')
    nrm = lambda hr, f: B.al.norm(mk('app', 'normalize', mk('app', 'face_normal', mk('ix', f))))
    f0 = slot('.faces', 0)
    up = lambda height: 'shift by %s' % exact.reduce(-(B.al.norm(mk('app', 'Vector::normalize', mk('app', 'face_normal', mk('ix', f0)))) * height))
    half = Poly.const(Fraction(1, 2))
    sn = lambda a, b: exact.trig('sin', C(Fraction(a, b)) * Poly.atom(exact.PI))
    for n in (3, 4, 5) + ((6,) if deep else ()):
        p = [P_(i) for i in range(n)]
        q = [Q_(i) for i in range(n)]
        A = V('a')
        ap, aq = arr('p', n), arr('q', n)
        for pre, ret in (('insert_', True), ('', False)):
            me = [SELF] if ret else []
            w = lambda x: x if ret else None
            B.go('%spyramid on %d' % (pre, n), K, pre + 'pyramid', me + [ap, X('a')], Spec(f_pyramid(p, A), w((p[1], p[0]))))
            B.go('%sfrustum on %d' % (pre, n), K, pre + 'frustum', me + [ap, aq, FALSE], Spec(f_frustum(p, q), w((q[0], q[1]))))
            B.go('%santiprism_iter on %d' % (pre, n), K, pre + 'antiprism_iter', me + [ap, aq], Spec(f_anti(p, q), w((q[0], q[1]))))
            t = [('tr', x, up(h)) for x in p]
            B.go('%sprism on %d' % (pre, n), K, pre + 'prism', me + [ap, xh], Spec(f_frustum(p, t), w((t[0], t[1]))))
            t = [('mid', both(t[i], t[j])) for i, j in around(n)]
            B.go('%santiprism on %d' % (pre, n), K, pre + 'antiprism', me + [ap, xh], Spec(f_anti(p, t), w((t[0], t[1]))))
            if not ret:
                B.go('polygon of %d' % n, S2, 'polygon', [ap], Spec([p[::-1]]))
                B.go('dihedron of %d' % n, S2, 'dihedron', [ap], Spec([p[::-1], p]))
        c = ring(r, n, 0, Z)
        for fn in ('regular_pyramid', 'cone'):
            B.go('%s of %d' % (fn, n), K, fn, [xr, xh, num(n)], Spec(f_pyramid(c, pos(0, h, 0))))
        B.go('regular_frustum of %d' % n, K, 'regular_frustum', [xr, xR, xh, num(n), FALSE], Spec(f_frustum(c, ring(R, n, 0, h))))
        B.go('regular_prism of %d' % n, K, 'regular_prism', [xr, xh, num(n)], Spec(f_frustum(c, [('tr', x, up(h)) for x in c])))
        B.go('uniform_prism of %d' % n, K, 'uniform_prism', [xr, num(n)], Spec(f_frustum(c, [('tr', x, up(2 * r * sn(1, n))) for x in c])))
        B.go('regular_antiprism of %d' % n, K, 'regular_antiprism', [xr, xh, num(n)], Spec(f_anti(c, ring(r, n, 1, h))))
        side, chord = 2 * r * sn(1, n), 2 * r * sn(1, 2 * n)
        hh = exact.sqrt(side * side - chord * chord)
        B.go('uniform_antiprism of %d' % n, K, 'uniform_antiprism', [xr, num(n)], Spec(f_anti(c, ring(r, n, 1, hh))))
        pi = Poly.atom(exact.PI)
        star = lambda a, b: [('pos',) + tuple(exact.reduce((b if i % 2 else a) * exact.trig(g, C(Fraction(2 * i, n)) * pi)).key() for g in ('sin', 'cos')) for i in range(n)]
        B.go('regular_star of %d' % n, S2, 'regular_star', [xr, xR, num(n)], Spec([star(r, R)[::-1]]), dim=2)
        s_ = star(r, R)
        B.go('insert_regular_star of %d' % n, S2, 'insert_regular_star', [SELF, xr, xR, num(n)], Spec([s_[::-1]], (s_[0], s_[1])), dim=2)
        B.go('regular_polygon of %d' % n, S2, 'regular_polygon', [xr, num(n)], Spec([star(r, r)[::-1]]), dim=2)
    # boxes
    al = B.al
    for fn, arg in (('cuboid', X('s')), ('cube', xl), ('regular_hexahedron', xl)):
        d = [al.comp(X('s'), k) if fn == 'cuboid' else l for k in 'xyz']
        P4 = lambda z: [pos(*[half * d[i] * s for i, s in enumerate(v)]) for v in ((-1, -1, z), (1, -1, z), (1, 1, z), (-1, 1, z))]
        B.go(fn, K, fn, [arg], Spec(f_frustum(P4(-1), P4(1))))
    # platonic solids: exact corners, faces of their convex hull
    e, sq = half * l, half * l * (root(2) * half)
    tet = [(-e, Z, -sq), (Z, -e, sq), (e, Z, -sq), (Z, e, sq)]
    octa = [(r, Z, Z), (-r, Z, Z), (Z, r, Z), (Z, -r, Z), (Z, Z, r), (Z, Z, -r)]
    phi = half + half * root(5)
    one = exact.reduce(r * root(3) * C(Fraction(1, 3)))
    dod = [tuple(one * s for s in (a, b, c)) for a in (1, -1) for b in (1, -1) for c in (1, -1)]
    for a in (1, -1):
        for b in (1, -1):
            x, y = one * phi * a, one * (phi - 1) * b
            dod += [(x, y, Z), (Z, x, y), (y, Z, x)]
    ico = []
    for a in (1, -1):
        for b in (1, -1):
            x, y = l * phi * half * a, l * half * b
            ico += [(x, y, Z), (Z, x, y), (y, Z, x)]
    for fn, tr, arg, pts in (('regular_tetrahedron', K, xl, tet), ('regular_octahedron', K, xr, octa), ('dodecahedron', T_, xr, dod), ('regular_icosahedron', T_, xl, ico)):
        solid(B, fn, tr, [arg], pts)
    # spheres
    ipn = 'SlerpVertexInterpolator(center 0, radius r)'
    et = 4 * r * C(Fraction(1, 6)) * root(6)
    ei = exact.reduce(4 * r * exact.invert(exact.sqrt(C(10) + 2 * root(5))))
    sub = lambda pts, var, v: [tuple(replace(x, var, v) for x in q) for q in pts]
    for fn, pts in (('geodesic_tetrahedron', sub(tet, 'l', et)), ('geodesic_octahedron', octa), ('geodesic_icosahedron', sub(ico, 'l', ei)), ('icosphere', sub(ico, 'l', ei))):
        for k in (1, 2, 4):
            if k == 4 and not deep and 'icosa' in fn or k > 1 and fn == 'icosphere':
                continue
            solid(B, fn, T_, [xr, num(k)], pts, k, ipn)
    for n, m in ((2, 3), (3, 3), (3, 4), (4, 5)) + (((5, 6), (6, 3)) if deep else ()):
        row = lambda i: [uv(r, i, j, n, m) for j in range(m)]
        faces = [[row(1)[a], row(1)[b], pos(0, r, 0)] for a, b in around(m)]
        for i in range(1, n - 1):
            faces += [[row(i)[b], row(i)[a], row(i + 1)[a], row(i + 1)[b]] for a, b in around(m)]
        faces += [[row(n - 1)[b], row(n - 1)[a], pos(0, -r, 0)] for a, b in around(m)]
        B.go('uv_sphere %d, %d' % (n, m), T_, 'uv_sphere', [xr, num(n), num(m)], Spec(faces))
    sizes(B, rep)
    rep.floor('solid', 300)


def uv(r, i, j, n, m):
    pi = Poly.atom(exact.PI)
    f, t = C(Fraction(i, n)) * pi, -C(Fraction(2 * j + 4, m)) * pi
    s, c = exact.trig('sin', f), exact.trig('cos', f)
    return pos(r * s * exact.trig('cos', t), r * c, r * s * exact.trig('sin', t))


def replace(p, var, v):
    """substitute a size"""
    out = Poly()
    for (s, n), c in p.d.items():
        t = C(c)
        for a, k in s:
            t = t * (exact.power(v, k) if a is X(var) else Poly.atom(a, k))
        out = out + t
    return exact.reduce(out)


def solid(B, fn, tr, args, pts, k=1, ip=None):
    fs = hull(pts)
    lab = [pos(*q) for q in pts]
    faces = [[lab[i] for i in f] for f in fs]
    n = k
    while n > 1:
        faces, n = halves(faces, ip), n // 2
    inst = fn if len(args) == 1 else '%s, %d' % (fn, k)
    B.go(inst, tr, fn, args, Spec(faces))
    if fn.startswith('geodesic') or fn in ('dodecahedron', 'regular_octahedron'):
        # reference self check: all corners on the sphere
        r2 = Poly.atom(X('r')) * Poly.atom(X('r'))
        for q in pts:
            assert exact.reduce(sum((x * x for x in q), Z)) == r2, (fn, q)


def sizes(B, rep):
    m = mathx.Math(B.P, rep, 'solid')
    al = exact.Exact()
    r, n, a = S_('r'), S_('n'), S_('a')
    pi = Poly.atom(exact.PI)
    q = exact.sqrt(C(10) + 2 * root(5))
    sin = lambda x: exact.trig('sin', exact.reduce(x))
    for fn, args, want in (('regular_polygon_sidelength', [X('r'), X('n')], 2 * r * sin(pi / n)),
                           ('regular_polygon_area', [X('r'), X('n')], C(Fraction(1, 2)) * n * r * r * sin(2 * pi / n)),
                           ('icosahedron_r2a', [X('r')], exact.reduce(4 * r * exact.invert(q))),
                           ('icosahedron_a2r', [X('a')], exact.reduce(C(Fraction(1, 4)) * a * q))):
        ids = [f for f in B.P.fns if f.split('::')[-1] == fn]
        if len(ids) != 1:
            rep.ob('solid', fn, None, 'not found')
            continue
        ai, outs = m.run(ids[0], args)
        for s, v in outs:
            got = al.real(v)
            rep.ob('solid', fn, got == want, '%s is %s instead of %s' % (fn, got, want), (ids[0], None))

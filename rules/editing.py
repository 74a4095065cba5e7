"""E01: every editing call with legal arguments, on a collection of small meshes, completes (with debug assertions on) and
leaves exactly the mesh that the call describes. Connectivity is exact; payloads are symbols."""
import time
from ai import *
from mesh import *
from heap import *
from solids import Unknown
import mathx
import report

PLACE = lambda n: pl_ext(place(mk('M', mk(n))))
THE = PLACE('mesh')
SELF_REF = mk('ref', THE)


class Ref:
    """reference mesh: directed edges (u, v) over vertex names; exact successor of each, face name and payloads"""

    def __init__(self):
        self.vp, self.next, self.face, self.ep, self.fp = {}, {}, {}, {}, {}

    def copy(self):
        r = Ref()
        for k in self.__dict__:
            setattr(r, k, dict(getattr(self, k)))
        return r

    def prev(self, e):
        return [a for a, b in self.next.items() if b == e][0]

    def cyc(self, e):
        out, x = [], e
        while True:
            out.append(x)
            x = self.next[x]
            if x == e:
                return out

    def out(self, v):
        return [e for e in self.next if e[0] == v]

    def corners(self, v):
        """(ingoing, outgoing) boundary edges that follow each other at v"""
        return [(e, self.next[e]) for e in self.next if e[1] == v and self.face[e] is None]

    def component(self, v):
        todo, seen = [v], {v}
        while todo:
            x = todo.pop()
            for e in self.out(x):
                if e[1] not in seen:
                    seen.add(e[1])
                    todo.append(e[1])
        return seen

    def edge(self, a, b, pa, pb, face=None):
        """adds the pair a -> b and b -> a as an island"""
        self.next[(a, b)], self.next[(b, a)] = (b, a), (a, b)
        self.face[(a, b)] = self.face[(b, a)] = face
        self.ep[(a, b)], self.ep[(b, a)] = pa, pb

    def link(self, a, b):
        self.next[a] = b

    def chord(self, inside, outside, p1, p2):
        v, w = inside[1], outside[1]
        ni, no = self.next[inside], self.next[outside]
        self.next[inside], self.next[(v, w)] = (v, w), no
        self.next[outside], self.next[(w, v)] = (w, v), ni
        self.face[(v, w)] = self.face[(w, v)] = None
        self.ep[(v, w)], self.ep[(w, v)] = p1, p2
        return (v, w), (w, v)

    def hang(self, v, n, corner, p1, p2):
        """pair v -> n, n -> v at a corner of v; None: v has no edges yet"""
        self.ep[(v, n)], self.ep[(n, v)] = p1, p2
        self.face[(v, n)] = self.face[(n, v)] = None
        self.next[(v, n)] = (n, v)
        if corner:
            self.next[corner[0]], self.next[(n, v)] = (v, n), corner[1]
        else:
            self.next[(n, v)] = (v, n)

    def bridge(self, a, ca, b, cb, p1, p2):
        """pair a -> b, b -> a between corners of two islands"""
        self.face[(a, b)] = self.face[(b, a)] = None
        self.ep[(a, b)], self.ep[(b, a)] = p1, p2
        self.next[(a, b)] = cb[1] if cb else (b, a)
        self.next[(b, a)] = ca[1] if ca else (a, b)
        if ca:
            self.next[ca[0]] = (a, b)
        if cb:
            self.next[cb[0]] = (b, a)


def ref_of(src):
    r = Ref()
    for i in range(src.nv):
        r.vp[i] = X('%svp%d' % (src.name, i))
    for e in src.edges:
        r.next[e], r.face[e] = src.next[e], src.face[e]
        r.ep[e] = X('%sep%d_%d' % ((src.name,) + e))
    for f in range(src.nf):
        r.fp[f] = (X('%sfp%d' % (src.name, f)), f in src.curved)
    return r


def pool(tier):
    """(name, Source)"""
    S = lambda *a, **k: Source(*a, name='m', **k)
    out = [('nothing', S(0, [])), ('a vertex', S(1, [])), ('an edge', S(2, [(None, [0, 1])])), ('a path', S(3, [(None, [0, 1, 2, 1])])),
           ('a path and a vertex', S(4, [(None, [0, 1, 2, 1])])), ('a path of 4', S(4, [(None, [0, 1, 2, 3, 2, 1])])),
           ('a star', S(4, [(None, [0, 1, 0, 2, 0, 3])])),
           ('an open triangle', S(3, [(None, [0, 1, 2]), (None, [0, 2, 1])])), ('an open square', S(4, [(None, [0, 1, 2, 3]), (None, [0, 3, 2, 1])])),
           ('a triangle', S(3, [(0, [0, 1, 2]), (None, [0, 2, 1])])), ('a square', S(4, [(0, [0, 1, 2, 3]), (None, [0, 3, 2, 1])], curved=(0,))),
           ('two triangles', S(4, [(0, [0, 1, 2]), (1, [0, 2, 3]), (None, [0, 3, 2, 1])])),
           ('triangles at a vertex', S(5, [(0, [0, 1, 2]), (1, [0, 3, 4]), (None, [0, 2, 1, 0, 4, 3])])),
           ('a tetrahedron', S(4, [(0, [0, 1, 2]), (1, [0, 2, 3]), (2, [0, 3, 1]), (3, [3, 2, 1])])),
           ('an open tetrahedron', S(4, [(0, [0, 1, 2]), (1, [0, 2, 3]), (2, [0, 3, 1]), (None, [3, 2, 1])])),
           ('a triangle with a tail', S(4, [(0, [0, 1, 2]), (None, [0, 2, 1, 3, 1])])),
           ('a triangle with an inner tail', S(4, [(0, [0, 1, 3, 1, 2]), (None, [0, 2, 1])])),
           ('a triangle and an edge', S(5, [(0, [0, 1, 2]), (None, [0, 2, 1]), (None, [3, 4])])),
           ('two separate triangles', S(6, [(0, [0, 1, 2]), (None, [0, 2, 1]), (1, [3, 4, 5]), (None, [3, 5, 4])])),
           ('holes at a vertex', S(6, [(None, [0, 1, 2]), (None, [0, 3, 4, 5]), (0, [0, 2, 1, 0, 5, 4, 3])])),
           ('holes at a vertex, other edge first', S(6, [(None, [0, 1, 2]), (None, [0, 3, 4, 5]), (0, [0, 2, 1, 0, 5, 4, 3])], wheel={0: (0, 3)})),
           ('a dihedron', S(3, [(0, [0, 1, 2]), (1, [0, 2, 1])])),
           ('a triangle with gaps', S(3, [(0, [0, 1, 2]), (None, [0, 2, 1])], gaps={'v': (1,), 'e': (0, 3), 'f': (0,)}))]
    if tier == 'thorough':
        w = {0: (0, 2)}
        out += [('an open pentagon', S(5, [(None, [0, 1, 2, 3, 4]), (None, [0, 4, 3, 2, 1])])),
                ('an open hexagon', S(6, [(None, [0, 1, 2, 3, 4, 5]), (None, [0, 5, 4, 3, 2, 1])])),
                ('a path of 5', S(5, [(None, [0, 1, 2, 3, 4, 3, 2, 1])])),
                ('a star of 4', S(5, [(None, [0, 1, 0, 2, 0, 3, 0, 4])], wheel={0: (0, 3)})),
                ('two triangles, other edge first', S(4, [(0, [0, 1, 2]), (1, [0, 2, 3]), (None, [0, 3, 2, 1])], wheel=w)),
                ('three triangles', S(5, [(0, [0, 1, 2]), (1, [0, 2, 3]), (2, [0, 3, 4]), (None, [0, 4, 3, 2, 1])])),
                ('two squares', S(6, [(0, [0, 1, 2, 3]), (1, [3, 2, 4, 5]), (None, [0, 3, 5, 4, 2, 1])])),
                ('an edge inside', S(5, [(0, [0, 1, 3, 4, 3, 1, 2]), (None, [0, 2, 1])]))]
    return out


class Run:
    def __init__(self, P, rep, tier):
        self.P, self.rep, self.tier = P, rep, tier
        self.extra = mathx.math_hooks(P)['*']

    def fid(self, tr, fn):
        f = self.P.method(tr, fn)
        if f is None:
            raise report.Fatal('%s::%s' % (tr, fn))
        return f

    def go(self, tr, fn, inst, src, args, wants, result=None, then=()):
        """wants: reference meshes, one of which must come out; result: function (reader, returned term) -> text of the mismatch or None"""
        fid = self.fid(tr, fn)
        rep, rule = self.rep, fn
        hr = HeapRun(self.P, extra=self.extra, loop=200, budget=2000000)
        ai = hr.ai
        ai.keep_panics, ai.panics = True, []
        ai.deadline = min(time.time() + 30, AI.deadline or 1e18)
        key = lambda k: '%s: %s' % (inst, k)
        st = src.lay(self.P, ai, St(), 100, THE)
        try:
            outs = hr.run(fid, [SELF_REF] + args, st)
            for f2, a2 in then:
                nxt = []
                for s1, r1 in outs:
                    nxt += hr.run(f2, [SELF_REF] + a2, s1)
                outs = nxt
        except Exception as ex:
            rep.ob(rule, key('analysed'), None, '%s: %s' % (type(ex).__name__, ex), (fid, None))
            return
        rep.paths += len(outs)
        rep.analysed(fid, *ai.visited)
        # a single path that exceeds the bound: nothing was left open, the loop goes round the small mesh for ever
        endless = not ai.panics and ai.truncated == 1
        sure = bool(ai.panics) and not ai.truncated or endless
        site = ai.panics[0][2] if ai.panics else None
        rep.ob(rule, key('completes'), True if outs else False if sure else None,
               'the legal call does not end' if endless else 'the legal call is refused: %s' % (ai.panics[0][1] if ai.panics else 'no path'), (fid, site))
        got = []
        for s, r in outs:
            try:
                got.append(self.compare(ai, s, r, src, wants, result))
            except Unknown as ex:
                got.append((None, str(ex)))
            except Decline as ex:
                got.append((None, str(ex)))
        if not got:
            return
        bad = [m for ok, m in got if ok is False]
        unk = [m for ok, m in got if ok is None]
        ok = True if not bad and not unk else (False if bad and len(bad) == len(got) else None)
        rep.ob(rule, key('mesh'), ok, (bad or unk or [''])[0], (fid, None))

    def compare(self, ai, st, ret, src, wants, result):
        h = Heap(ai, st, SELF_REF)
        Vs, Es, Fs = h.live('.vertices'), h.live('.halfedges'), h.live('.faces')
        name = {}
        for v in Vs:
            p = h.payload(v)
            while p.op in ('refto', 'ref'):
                p = p.a[0] if p.op == 'refto' else ai.deref(st, p)
            if p.op == 'app' and str(p.a[0]).split('::')[-1] == 'clone':
                p = p.a[1]
            if p.op != 'p':
                raise Unknown('vertex payload %s' % show(p)[:80])
            if p in name.values():
                return False, 'two vertices carry the payload %s' % show(p)
            name[v] = p
        vs, es, fs = set(Vs), set(Es), set(Fs)
        ename = {}
        for e in Es:
            t, o = h.twin(e), h.origin(e)
            for x in (t, o, h.next(e), h.prev(e), h.face(e)):
                if x.op != 'alloc' and x is not MAX:
                    raise Unknown('link %s' % show(x)[:80])
            if t not in es or o not in vs or h.next(e) not in es or h.prev(e) not in es:
                return False, 'an edge from %s refers to an element that is not in the mesh' % (show(name[o]) if o in vs else '?')
        for e in Es:
            t = h.twin(e)
            if h.twin(t) is not e or t is e:
                return False, 'the twin of an edge from %s is not its twin' % show(name[h.origin(e)])
            ename[e] = (name[h.origin(e)], name[h.origin(t)])
            if h.rd('.halfedges', e, '.id') is not e:
                raise Unknown('id of an edge')
        nm = lambda k: '%s to %s' % (show(k[0]), show(k[1]))
        if len(set(ename.values())) != len(ename):
            return False, 'two edges join the same vertices'
        for e in Es:
            if h.prev(h.next(e)) is not e:
                return False, 'the edge after %s does not know it' % nm(ename[e])
        for v in Vs:
            r = h.rd('.vertices', v, '.edge')
            has = any(h.origin(e) is v for e in Es)
            if r is MAX and not has:
                continue
            if r.op != 'alloc' and r is not MAX:
                raise Unknown('edge %s' % show(r)[:80])
            if r not in es or h.origin(r) is not v:
                return False, 'the edge of vertex %s does not leave it' % show(name[v])
        for f in Fs:
            r = h.rd('.faces', f, '.edge')
            if r.op != 'alloc' and r is not MAX:
                raise Unknown('edge %s' % show(r)[:80])
            if r not in es or h.face(r) is not f:
                return False, 'the edge of a face is not one of its edges'
        first = None
        for w in wants:
            m = self.against(h, ai, st, ename, name, Fs, w)
            if m is None:
                if result is not None:
                    m = result(Reader(h, ename, name), ret, w)
                    if m is not None:
                        return False, m
                return True, ''
            first = first or m
        return False, first

    def against(self, h, ai, st, ename, name, Fs, w):
        """None if the mesh is the reference mesh"""
        nm = lambda k: '%s to %s' % (show(k[0]), show(k[1]))
        P_ = w.vp
        a, b = set(name.values()), set(P_.values())
        if a != b:
            return 'vertices %s too many, %s missing' % ([show(x) for x in a - b][:3], [show(x) for x in b - a][:3])
        full = {(P_[u], P_[v]): (u, v) for u, v in w.next}
        a, b = set(ename.values()), set(full)
        if a != b:
            return 'edges %s too many, %s missing' % ([nm(x) for x in a - b][:3], [nm(x) for x in b - a][:3])
        fmap = {}
        for e, k in ename.items():
            r = full[k]
            n = ename[h.next(e)]
            x = w.next[r]
            x = (P_[x[0]], P_[x[1]])
            if n != x:
                return 'the edge %s is followed by %s instead of %s' % (nm(k), nm(n), nm(x))
            f, g = h.face(e), w.face[r]
            if (f is MAX) != (g is None):
                return 'the edge %s has %s face' % (nm(k), 'no' if f is MAX else 'a')
            if g is not None and fmap.setdefault(g, f) is not f:
                return 'the edges of one face disagree at %s' % nm(k)
            p, q = h.rd('.halfedges', e, '.payload'), w.ep[r]
            if q is not None and p is not q:
                if p.op != 'p':
                    raise Unknown('edge payload %s' % show(p)[:80])
                return 'the edge %s carries %s instead of %s' % (nm(k), show(p), show(q))
        if len(set(fmap.values())) != len(fmap):
            return 'two faces became one'
        if set(Fs) != set(fmap.values()):
            return '%d faces instead of %d' % (len(Fs), len(fmap))
        for g, f in fmap.items():
            p, c = h.rd('.faces', f, '.payload'), h.rd('.faces', f, '.curved')
            q, d = w.fp[g]
            if q is not None and p is not q:
                if p.op != 'p':
                    raise Unknown('face payload %s' % show(p)[:80])
                return 'a face carries %s instead of %s' % (show(p), show(q))
            if d is not None:
                if isinstance(d, bool):
                    d = TRUE if d else FALSE
                if c is not d:
                    if not isconst(c):
                        raise Unknown('curved %s' % show(c)[:80])
                    return 'a face has the wrong curvedness'
        return None


class Reader:
    def __init__(self, h, ename, name):
        self.h, self.ename, self.name = h, ename, name

    def edge(self, t):
        return self.ename.get(t)

    def text(self, t):
        k = self.edge(t)
        if k: return '%s to %s' % (show(k[0]), show(k[1]))
        return show(self.name[t]) if t in self.name else show(t)[:60]


def returns(*ws):
    """result: tuple (or single value) of directed edges (pairs), vertices (names) and faces (('f', name))"""
    def f(rd, ret, w):
        items = list(ret.a) if ret.op == 'tuple' else [ret]
        if len(items) != len(ws):
            raise Unknown('result %s' % show(ret)[:80])
        for x, want in zip(items, ws):
            if x.op != 'alloc':
                raise Unknown('result %s' % show(ret)[:80])
            if isinstance(want, tuple) and want[0] == 'f':
                e = [e for e, k in rd.ename.items() if rd.h.face(e) is x]
                inv = {w.vp[v]: v for v in w.vp}
                if not e or w.face.get(tuple(inv[y] for y in rd.ename[e[0]])) != want[1]:
                    return 'another face is returned'
                continue
            if isinstance(want, tuple):
                if rd.edge(x) != (w.vp[want[0]], w.vp[want[1]]):
                    return 'returns the edge %s instead of %s to %s' % (rd.text(x), show(w.vp[want[0]]), show(w.vp[want[1]]))
            elif rd.name.get(x) is not w.vp[want]:
                return 'returns %s instead of the vertex %s' % (rd.text(x), show(w.vp[want]))
        return None
    return f


def nothing(rd, ret, w):
    if ret.op != 'adt':
        raise Unknown('result %s' % show(ret)[:80])
    return None if ret.a[1] == 'None' else 'the result is not None'


A, B, N1, N2 = X('a'), X('b'), X('new1'), X('new2')
EA, EB, FP, CU = X('ea'), X('eb'), X('fp'), X('cu')


def e01(P, rep, tier, cfg, rel):
    R = Run(P, rep, tier)
    for mname, src in pool(tier):
        base = ref_of(src)
        V, Ed = src.vs, src.es
        E_ = lambda e: '%d-%d' % e
        inst = lambda s: 'on %s, %s' % (mname, s)
        # an isolated edge, a vertex, a path, a loop
        w = base.copy()
        w.vp.update(a=A, b=B)
        w.edge('a', 'b', EA, EB)
        R.go('MeshHalfEdgeBuilder', 'add_isolated_edge', inst('an edge'), src, [A, EA, B, EB], [w], returns('a', 'b'))
        w = base.copy()
        w.vp.update(a=A)
        R.go('MeshBuilder', 'add_vertex', inst('a vertex'), src, [A], [w], returns('a'))
        small = src.nv <= 3
        for k in (2, 3, 4) if small else (3,):
            ps = [X('q%d' % i) for i in range(k)]
            w = base.copy()
            for i, p in enumerate(ps):
                w.vp['q%d' % i] = p
            for i in range(k - 1):
                a, b = 'q%d' % i, 'q%d' % (i + 1)
                if i == 0:
                    w.edge(a, b, None, None)
                else:
                    w.hang(a, b, (('q%d' % (i - 1), a), (a, 'q%d' % (i - 1))), None, None)
            R.go('MeshBuilder', 'insert_path', inst('a path of %d' % k), src, [mk('array', *ps)], [w], returns(('q1', 'q0'), ('q%d' % (k - 2), 'q%d' % (k - 1))))
            if k > 2:
                w2 = w.copy()
                w2.chord(('q1', 'q0'), ('q%d' % (k - 2), 'q%d' % (k - 1)), None, None)
                R.go('MeshBuilder', 'insert_loop', inst('a loop of %d' % k), src, [mk('array', *ps)], [w2], returns(('q1', 'q0')))
        # a vertex hanging at a boundary corner
        for e in src.edges:
            n = base.next[e]
            if base.face[e] is None:
                v = e[1]
                w = base.copy()
                w.vp['n'] = N1
                w.hang(v, 'n', (e, n), EA, EB)
                R.go('MeshHalfEdgeBuilder', 'add_vertex_via_edge', inst('at %s' % E_(e)), src, [Ed[e], Ed[n], N1, EA, EB], [w], returns('n', (v, 'n'), ('n', v)))
        for v in range(src.nv):
            c = base.corners(v)
            if len(c) == 1:
                w = base.copy()
                w.vp['n'] = N1
                w.hang(v, 'n', c[0], EA, EB)
                R.go('MeshHalfEdgeBuilder', 'add_vertex_via_vertex', inst('at %d' % v), src, [V[v], N1, EA, EB], [w], returns('n', (v, 'n'), ('n', v)))
                if small:
                    w = w.copy()
                    w.ep[(v, 'n')] = w.ep[('n', v)] = None
                    R.go('MeshBuilder', 'add_vertex_via_vertex_default', inst('at %d' % v), src, [V[v], N1], [w], returns('n', (v, 'n'), ('n', v)))
        # joining two components
        for a in range(src.nv):
            for b in range(src.nv):
                ca, cb = base.corners(a), base.corners(b)
                if b in base.component(a) or len(ca) > 1 or len(cb) > 1 or not ca and base.out(a) or not cb and base.out(b):
                    continue
                w = base.copy()
                w.bridge(a, ca[0] if ca else None, b, cb[0] if cb else None, EA, EB)
                R.go('MeshHalfEdgeBuilder', 'insert_edge_between', inst('%d with %d' % (a, b)), src, [V[a], EA, V[b], EB], [w], returns((a, b), (b, a)))
        # chords of a boundary
        for i in src.edges:
            for o in base.cyc(i):
                if base.face[i] is not None or i[1] == o[1] or (i[1], o[1]) in base.next:
                    continue
                w = base.copy()
                e1, e2 = w.chord(i, o, EA, EB)
                R.go('MeshHalfEdgeBuilder', 'insert_edge', inst('%s and %s' % (E_(i), E_(o))), src, [Ed[i], EA, Ed[o], EB], [w], returns(e1, e2))
                R.go('HalfEdgeSemiBuilder', 'insert_edge_no_check', inst('%s and %s' % (E_(i), E_(o))), src, [Ed[i], EA, Ed[o], EB], [w], returns(e1, e2))
                w = w.copy()
                w.fp['n'] = (FP, CU)
                for x in w.cyc(i):
                    w.face[x] = 'n'
                R.go('MeshHalfEdgeBuilder', 'close_face', inst('%s and %s' % (E_(i), E_(o))), src, [Ed[i], EA, Ed[o], EB, FP, CU], [w], returns(('f', 'n'), e1, e2))
                into = [x for x in base.next if x[1] == o[1] and base.face[x] is None and set(i) & {y[0] for y in base.cyc(x)}]
                if into == [o]:
                    R.go('MeshHalfEdgeBuilder', 'close_face_vertices', inst('%s and %d' % (E_(i), o[1])), src, [V[i[0]], EA, V[i[1]], EB, V[o[1]], FP, CU], [w], returns(('f', 'n'), e1, e2))
                    d = w.copy()
                    d.ep[e1] = d.ep[e2] = None
                    d.fp['n'] = (None, CU)
                    R.go('MeshBuilder', 'close_face_vertices_default', inst('%s and %d' % (E_(i), o[1])), src, [V[i[0]], V[i[1]], V[o[1]], CU], [d], returns(('f', 'n'), e1, e2))
        # filling and emptying
        for e in src.edges:
            if base.face[e] is None:
                w = base.copy()
                w.fp['n'] = (FP, CU)
                for x in w.cyc(e):
                    w.face[x] = 'n'
                R.go('MeshBuilder', 'close_hole', inst('at %s' % E_(e)), src, [Ed[e], FP, CU], [w], returns(('f', 'n')))
        for f in range(src.nf):
            w = base.copy()
            for x in list(w.face):
                if w.face[x] == f:
                    w.face[x] = None
            R.go('MeshBuilder', 'remove_face', inst('face %d' % f), src, [src.fs[f]], [w])
        # subdivision of an edge
        for e in src.edges:
            u, v = e
            t = (v, u)
            R.go('HalfEdgeSemiBuilder', 'subdivide_unsafe_try_fixup', inst('%s, which is not subdivided' % E_(e)), src, [Ed[e], EA], [base], nothing)
            for k in (0, 1, 2) if src.nv <= 4 else (2,):
                w = base.copy()
                ns = ['n%d' % i for i in range(k)]
                items = []
                for i, x in enumerate(ns):
                    w.vp[x] = X('n%d' % i)
                    items.append(mk('tuple', X('ea%d' % i), X('eb%d' % i), X('n%d' % i)))
                chain = [u] + ns + [v]
                if k:
                    pe, ne, pt, nt = base.prev(e), base.next[e], base.prev(t), base.next[t]
                    fwd = [(chain[i], chain[i + 1]) for i in range(k + 1)]
                    bwd = [(y, x) for x, y in reversed(fwd)]
                    for x in (e, t):
                        for d in (w.next, w.face, w.ep):
                            del d[x]
                    for i in range(k):
                        w.next[fwd[i]] = fwd[i + 1]
                        w.next[bwd[i]] = bwd[i + 1]
                    w.next[fwd[-1]] = bwd[0] if ne == t else ne
                    w.next[bwd[-1]] = fwd[0] if nt == e else nt
                    if pe != t:
                        w.next[pe] = fwd[0]
                    if pt != e:
                        w.next[pt] = bwd[0]
                    for x in fwd: w.face[x] = base.face[e]
                    for x in bwd: w.face[x] = base.face[t]
                    for i in range(k):
                        w.ep[fwd[i]], w.ep[bwd[k - i]] = X('ea%d' % i), X('eb%d' % i)
                    w.ep[fwd[k]], w.ep[bwd[0]] = base.ep[e], base.ep[t]
                R.go('MeshBuilder', 'insert_vertices_into_edge', inst('%d into %s' % (k, E_(e))), src, [Ed[e], mk('array', *items)], [w], returns((chain[0], chain[1])))
                if k == 1:
                    # the two half-edges one after the other: the old ones stay at the ends where they start
                    w = w.copy()
                    n = ns[0]
                    w.vp[n] = N1
                    w.ep[(u, n)], w.ep[(n, v)] = base.ep[e], EA
                    w.ep[(v, n)], w.ep[(n, u)] = base.ep[t], EB
                    R.go('HalfEdgeSemiBuilder', 'subdivide_unsafe', inst('%s and its twin' % E_(e)), src, [Ed[e], N1, EA], [w], None,
                         then=[(R.fid('HalfEdgeSemiBuilder', 'subdivide_unsafe_try_fixup'), [Ed[t], EB])])
    for r, n in (('insert_edge', 30), ('close_face', 30), ('insert_edge_between', 30), ('add_vertex_via_edge', 50), ('add_vertex_via_vertex', 20),
                 ('insert_vertices_into_edge', 100), ('close_hole', 40), ('remove_face', 20), ('close_face_vertices', 20)):
        rep.floor(r, n)

"""T05, C01: relations between two meshes, decided on given meshes with symbolic payloads."""
import time
from ai import *
from heap import *
import mathx, models
import report


class Unknown(Exception):
    pass


# ------------------------------------------------------------------------------------------------ given meshes
def pool(tier):
    """[(name, nv, boundary cycles, curved faces)]"""
    r = [('a triangle', 3, [(0, [0, 1, 2]), (None, [0, 2, 1])], (0,)),
         ('two faces sharing an edge', 5, [(0, [0, 1, 2]), (1, [0, 2, 3, 4]), (None, [0, 4, 3, 2, 1])], (1,)),
         ('a wire and an isolated vertex', 4, [(None, [0, 1, 2, 1])], ()),
         ('two faces meeting in a vertex', 5, [(0, [0, 1, 2]), (1, [0, 3, 4]), (None, [0, 2, 1, 0, 4, 3])], (0,)),
         ('two separate parts', 7, [(0, [0, 1, 2]), (None, [0, 2, 1]), (1, [3, 4, 5, 6]), (None, [6, 5, 4, 3])], (1,))]
    tet = ('a closed tetrahedron', 4, [(0, [0, 1, 2]), (1, [0, 2, 3]), (2, [0, 3, 1]), (3, [1, 3, 2])], (2,))
    fan = ('a closed fan around a vertex', 5, [(0, [4, 0, 1]), (1, [4, 1, 2]), (2, [4, 2, 3]), (3, [4, 3, 0]), (None, [3, 2, 1, 0])], ())
    return r + [tet] + ([fan] if tier == 'thorough' else [])


def source(x, k, name=''):
    """the mesh with slots left out and edges stored in another order (k = 0: compact)"""
    _, nv, cycles, curved = x
    ne = sum(len(c) for _, c in cycles)
    if not k:
        return Source(nv, cycles, curved, name=name)
    order = [(i * 5 + 3) % ne for i in range(ne)] if ne % 5 else [(i * 7 + 3) % ne for i in range(ne)]
    s = Source(nv, cycles, curved, gaps={'v': (0, 3), 'e': (1, 2, ne), 'f': (0,)}, name=name, order=order)
    return s


PLACE = lambda n: pl_ext(place(mk('M', mk(n))))


class Copy:
    """the copy found in a final state, in terms of the numbers of the source"""

    def __init__(self, ai, st, mesh, src, vlabel):
        self.ai, self.st, self.src = ai, st, src
        h = self.h = Heap(ai, st, mesh)
        self.lab = {}
        for v in h.live('.vertices'):
            self.lab[v] = vlabel(h.payload(v))
        self.bad = []
        self.mesh = mesh

    def edges(self):
        """edge slot -> (origin number, target number)"""
        h = self.h
        r = {}
        for e in h.live('.halfedges'):
            t = h.twin(e)
            if t.op != 'alloc' or t not in h.live('.halfedges'):
                self.bad.append(('twin', 'an edge refers to %s as its twin' % show(t)[:40]))
                continue
            a, b = self.lab.get(h.origin(e)), self.lab.get(h.origin(t))
            r[e] = (a, b)
        return r


def compare(rep, rule, inst, c, fid, edgepay, facepay, meshpay):
    """obligations for one final state"""
    key = lambda k: '%s: %s' % (inst, k)
    h, src = c.h, c.src

    def ob(k, good, msg):
        rep.ob(rule, key(k), good, msg, (fid, None))
        return good
    want = sorted(range(src.nv))
    got = sorted(c.lab.values(), key=repr)
    if not ob('vertices', got == want, 'the result has the vertices %s instead of %s' % (got, want)):
        return
    E = c.edges()
    for k, m in c.bad:
        ob(k, False, m)
    if c.bad or not ob('edges', sorted(E.values(), key=repr) == sorted(src.edges, key=repr), 'edges %s instead of %s' % (sorted(E.values(), key=repr), sorted(src.edges))):
        return
    F = {}
    for f in h.live('.faces'):
        F[f] = facepay(h.rd('.faces', f, '.payload'), h.rd('.faces', f, '.edge'), E)
    if not ob('faces', len(F) == src.nf and len(set(F.values())) == src.nf, 'faces %s of %d' % (list(F.values()), src.nf)):
        return
    for e, p in sorted(E.items(), key=lambda x: repr(x[1])):
        nm = '%d to %d' % p
        for what, g, w in (('next', E.get(h.next(e)), src.next[p]), ('prev', E.get(h.prev(e)), src.prev[p]), ('twin', E.get(h.twin(e)), p[::-1])):
            ob('%s links' % what, g == w, '%s of the edge %s is %s instead of %s' % (what, nm, g, w))
        f = h.face(e)
        g = None if is_max(f) else F.get(f, show(f)[:40])
        ob('face links', g == src.face[p], 'the edge %s lies on face %s instead of %s' % (nm, g, src.face[p]))
        r = edgepay(h.rd('.halfedges', e, '.payload'), p)
        ob('edge payloads', r, 'the edge %s carries %s' % (nm, show(h.rd('.halfedges', e, '.payload'))[:80]))
        ob('ids', h.rd('.halfedges', e, '.id') is e, 'the edge %s has the id %s in slot %s' % (nm, show(h.rd('.halfedges', e, '.id'))[:40], show(e)))
    for v, i in c.lab.items():
        r = h.rd('.vertices', v, '.edge')
        if i in src.rep:
            ob('vertex representatives', r in E and E[r][0] == i, 'vertex %d is represented by %s' % (i, E.get(r, show(r)[:40])))
        else:
            ob('vertex representatives', is_max(r), 'the isolated vertex %d is represented by %s' % (i, E.get(r, show(r)[:40])))
        ob('ids', h.rd('.vertices', v, '.id') is v, 'vertex %d has the id %s in slot %s' % (i, show(h.rd('.vertices', v, '.id'))[:40], show(v)))
    for f, i in F.items():
        r = h.rd('.faces', f, '.edge')
        ob('face representatives', r in E and src.face[E[r]] == i, 'face %s is represented by %s' % (i, E.get(r, show(r)[:40])))
        g = h.rd('.faces', f, '.curved')
        ob('curvature', g is (TRUE if i in src.curved else FALSE) if isconst(g) else None, 'face %s is marked %s' % (i, show(g)[:40]))
        ob('ids', h.rd('.faces', f, '.id') is f, 'face %s has the id %s in slot %s' % (i, show(h.rd('.faces', f, '.id'))[:40], show(f)))
    ob('mesh payload', meshpay(c), 'the mesh carries another payload')


def is_max(x):
    return x.op == 'MAX' or isconst(x) and isinstance(x.a[0], int) and x.a[0] in (2 ** 64 - 1, 2 ** 32 - 1, 2 ** 16 - 1, 2 ** 8 - 1)


def snapshot(ai, st, n, src):
    out = {}
    for k, slots, fs in (('.vertices', src.vs, ('.id', '.edge', '.payload')), ('.halfedges', src.es.values(), ('.id', '.next', '.prev', '.twin', '.origin_id', '.face', '.payload')),
                         ('.faces', src.fs, ('.id', '.edge', '.curved', '.payload'))):
        for s in slots:
            for f in fs:
                out[(k, s, f)] = ai.read(st, pl_ext(root_of(n), k, mk('ix', s), f))
    return out


# ------------------------------------------------------------------------------------------------ conversion
def strip(t):
    while t.op == 'refto':
        t = t.a[0]
    return t


def is_call(t, f):
    return t.op == 'app' and t.a[0] == 'call:' and len(t.a) > 2 and strip(t.a[1]) is X(f)


def call_of(t, f, x):
    """t is f applied to (a reference to) x"""
    return strip(t.a[2]) is x if is_call(t, f) else None


def scalar(t):
    """(payload, quantity, axis), 0 or None"""
    while t.op == 'cast' or t.op == 'app' and str(t.a[0]).split('::')[-1] in ('to_f64', 'from', 'into', 'as_') and len(t.a) == 2:
        t = t.a[-1]
    if isconst(t):
        return ('const', t.a[0])
    if t.op == 'ini':
        p = t.a[0]
        ax = str(p.a[-1]) if p.op == 'pl' else ''
        if ax in ('.x', '.y', '.z'):
            q = p
            # find the opaque accessor the component is read from
            def find(z):
                if type(z) is not T:
                    return None
                if z.op == 'app' and str(z.a[0]).split('::')[-1] in ('pos', 'normal', 'uv') and len(z.a) == 2 and z.a[1].op == 'refto':
                    return (str(z.a[0]).split('::')[-1], z.a[1].a[0])
                for y in z.a:
                    r = find(y)
                    if r:
                        return r
                return None
            r = find(q)
            if r:
                return (r[0], r[1], ax[1:])
    if t.op == 'app' and str(t.a[0]).split('::')[-1] in ('x', 'y', 'z') and len(t.a) == 2:
        z = t.a[1]
        while z.op == 'refto':
            z = z.a[0]
        if z.op == 'app' and str(z.a[0]).split('::')[-1] in ('pos', 'normal', 'uv') and z.a[1].op == 'refto':
            return (str(z.a[0]).split('::')[-1], z.a[1].a[0], str(t.a[0]).split('::')[-1])
    raise Unknown('component ' + show(t)[:80])


def vector(t):
    if t.op == 'app' and str(t.a[0]).split('::')[-1] in ('from_xy', 'new', 'from_xyz', 'vec2', 'vec3') and len(t.a) > 2:
        return [scalar(x) for x in t.a[1:]]
    if t.op == 'array':
        return [scalar(x) for x in t.a]
    raise Unknown('vector ' + show(t)[:80])


def trim(v):
    v = list(v)
    while v and v[-1] in (('const', 0), ('const', 0.0)) or v and v[-1][0] == 'const' and v[-1][1] in ('0', '0.0', '-0.0'):
        v.pop()
    return v


def t05(P, rep, tier, cfg, rel):
    f = [x for x in P.fns if x.endswith('::import_mesh')]
    if f and cfg == 'core':
        for x in pool(tier):
            for k in (0, 1):
                convert(P, rep, 'copy', 'import of %s%s' % (x[0], ' with gaps' if k else ''), f[0], source(x, k), opaque=True)
        rep.floor('copy', 200)
    n = 0
    for fn, tol, in (('to_nd', True), ('to_3d', True), ('from', False)):
        for g in [x for x in P.fns if x.endswith('::' + fn) and 'extensions' in x and ('mesh2d' in x or 'mesh3d' in x)]:
            b = P.fns[g]
            n += 1
            for x in pool(tier)[:None if tier == 'thorough' else 4]:
                for k in (0, 1) if tier == 'thorough' else (1,):
                    convert(P, rep, 'flat' if tol else 'single precision', '%s of %s' % (g.split('::', 2)[2], x[0]), g, source(x, k), tol=tol)
    rep.floor('flat', 100)
    if not n:
        raise report.Fatal('no conversion found')


def convert(P, rep, rule, inst, fid, src, opaque=False, tol=False):
    hr = HeapRun(P, extra=mathx.math_hooks(P)['*'], loop=400, budget=20000000)
    ai = hr.ai
    ai.keep_panics = True
    ai.panics = []
    ai.deadline = min(time.time() + 60, AI.deadline or 1e18)
    m = PLACE('src')
    st = src.lay(P, ai, St(), 100, m)
    before = snapshot(ai, st, 100, src)

    def flat(ai, st, c, args, site):
        st = st.copy()
        h = Heap(ai, st, args[0])
        st.event('flatten', args[0], args[1], tuple(sorted(h.h.items())))
        # the flattened mesh differs from the given one in every position
        for i, v in enumerate(h.live('.vertices')):
            p = pl_ext(root_of(h.h['.vertices']), '.vertices', mk('ix', v), '.payload')
            ai.write(st, p, mk('flattened', ai.read(st, p)), site)
        return [(st, args[0])]
    for t in P.traits.values():
        for q in t['methods']:
            if q['name'] == 'flatten_curved_edges':
                ai.hooks[q['id']] = flat
    args = [mk('ref', m)] + ([X(a) for a in ('fv', 'fe', 'ff', 'fm')] if opaque else [X('tol')] if tol else [])
    key = lambda k: '%s: %s' % (inst, k)
    try:
        outs = hr.run(fid, args, st)
    except Exception as ex:
        rep.ob(rule, key('analysed'), None, '%s: %s' % (type(ex).__name__, ex))
        return
    rep.paths += len(outs)
    rep.analysed(fid, *ai.visited)
    sure = bool(ai.panics) and not ai.truncated
    rep.ob(rule, key('completes'), bool(outs) and not sure or (False if sure else None),
           'the conversion does not complete: %s' % (ai.panics[0][1] if ai.panics else 'no path'), (fid, ai.panics[0][2] if ai.panics else None))
    inner = (lambda v: mk('flattened', v)) if tol else (lambda v: v)
    vps = {inner(X('%svp%d' % (src.name, i))): i for i in range(src.nv)}
    into = [x for x in P.fns if x.endswith('::from') and 'vertex_payload' in x and 'extensions::bevy' in x]

    def vlabel(t):
        if opaque:
            if not is_call(t, 'fv'):
                if t in vps:
                    return 'the unconverted %d' % vps[t]
                raise Unknown('vertex payload ' + show(t)[:80])
            for v, i in vps.items():
                if call_of(t, 'fv', v):
                    return i
            raise Unknown('vertex payload ' + show(t)[:80])
        if t.op == 'app' and str(t.a[0]).split('::')[-1] == 'from_pos':
            parts = {'pos': t.a[1]}
        elif t.op == 'app' and str(t.a[0]).split('::')[-1] == 'into' and t.a[1].op == 'refto' and into:
            a2 = HeapRun(P, extra=mathx.math_hooks(P)['*']).ai
            r, s2 = models.tmpref(a2, St(), t.a[1].a[0])
            o = a2.run(into[0], [r], s2)
            rep.analysed(into[0], *a2.visited)
            if len(o) != 1 or o[0][1].op != 'adt':
                raise Unknown('payload conversion ' + show(o[0][1])[:60])
            d = o[0][1]
            parts = {{'position': 'pos'}.get(k, k): v for k, v in zip(d.a[2], d.a[3:])}
        else:
            raise Unknown('vertex payload ' + show(t)[:80])
        out = None
        for k, v in parts.items():
            xs = trim(vector(v))
            who = {x[1] for x in xs if x[0] != 'const'}
            dim = 2 if k == 'uv' or tol else 3
            if len(who) != 1 or [(x[0], x[2]) for x in xs if x[0] != 'const'] != [(k, a) for a in 'xyz'[:dim]] or len(xs) != dim:
                return '%s made of %s' % (k, [(x[0], show(x[1])[:20]) + tuple(x[2:]) if x[0] != 'const' else x[1] for x in xs])
            w = vps.get(who.pop(), '?')
            if w == '?':
                return '%s of the mesh before it was flattened' % k if tol else '?'
            if out is not None and out != w:
                return 'mixed payload'
            out = w
        return out

    def edgepay(t, e):
        if not opaque:
            return True
        for q in src.edges:
            if call_of(t, 'fe', X('%sep%d_%d' % ((src.name,) + q))):
                return q == e
        return None

    def facepay(t, r, E):
        if not opaque:
            return src.face.get(E.get(r))
        for i in range(src.nf):
            if call_of(t, 'ff', X('%sfp%d' % (src.name, i))):
                return i
        raise Unknown('face payload ' + show(t)[:80])

    def meshpay(c):
        if not opaque:
            return True
        v = ai.proj1(c.mesh, '.payload')
        r = call_of(v, 'fm', X(src.name + 'mp'))
        return r if r else None
    for st, ret in outs:
        try:
            c = Copy(ai, st, ret, src, vlabel)
            compare(rep, rule, inst, c, fid, edgepay, facepay, meshpay)
            after = snapshot(ai, st, 100, src)
            ch = [k for k in before if before[k] is not after[k]]
            rep.ob(rule, key('the given mesh stays as it is'), not ch, 'the conversion changes %s of the given mesh' % (ch[0][0] + ch[0][2] if ch else ''), (fid, None))
            if tol:
                ev = [e for e in st.events() if e[0] == 'flatten']
                rep.ob(rule, key('flattened once with the given tolerance'), len(ev) == 1 and ev[0][2] is X('tol'),
                       'flattened %d times, tolerance %s' % (len(ev), [show(e[2])[:30] for e in ev]), (fid, None))
        except (Unknown, Decline) as ex:
            rep.ob(rule, key('understood'), None, str(ex), (fid, None))


# ------------------------------------------------------------------------------------------------ comparison
def rot(c):
    """canonical form of a cyclic sequence"""
    i = min(range(len(c)), key=lambda i: list(map(repr, c[i:] + c[:i])))
    return tuple(c[i:] + c[:i])


def faces_of(src, vm=lambda v: v):
    """face number -> cyclic vertices"""
    return {f: rot([vm(v) for v in c]) for f, c in src.cycles if f is not None}


class Pair:
    def __init__(self, name, A, B, m=None):
        self.name, self.A, self.B = name, A, B
        self.m = m or {i: i for i in range(A.nv)}

    def iso(self, m=None):
        """faces of A -> faces of B under the vertex map, or None if the meshes differ"""
        m = m or self.m
        A, B = self.A, self.B
        if A.nv != B.nv or len(A.edges) != len(B.edges) or A.nf != B.nf:
            return None
        if {(m[a], m[b]) for a, b in A.edges} != set(B.edges):
            return None
        fa, fb = faces_of(A, m.get), faces_of(B)
        if sorted(fa.values(), key=repr) != sorted(fb.values(), key=repr):
            return None
        inv = {c: f for f, c in fb.items()}
        return {f: inv[c] for f, c in fa.items()}

    def trivial(self):
        """None if the same ids do not stand for the same elements everywhere"""
        A, B = self.A, self.B
        if set(A.vs) != set(B.vs) or set(A.es.values()) != set(B.es.values()) or set(A.fs) != set(B.fs):
            return None
        vb = {s: i for i, s in enumerate(B.vs)}
        eb = {s: e for e, s in B.es.items()}
        m = {i: vb[s] for i, s in enumerate(A.vs)}
        em = {e: eb[s] for e, s in A.es.items()}
        for e in A.edges:
            if (m[e[0]], m[e[1]]) != em[e] or em[A.next[e]] != B.next[em[e]]:
                return None
            fa, fb = A.face[e], B.face[em[e]]
            if (fa is None) != (fb is None) or fa is not None and A.fs[fa] is not B.fs[fb]:
                return None
        fb = {s: i for i, s in enumerate(B.fs)}
        return m, em, {i: fb[s] for i, s in enumerate(A.fs)}


def pairs(tier):
    """pairs of meshes, equal or different in one respect"""
    S = lambda nv, cyc, name, **k: Source(nv, cyc, name=name, **k)
    tri = [(0, [0, 1, 2]), (None, [0, 2, 1])]
    irt = [(0, [0, 2, 1]), (None, [0, 1, 2])]
    two = [(0, [0, 1, 2]), (1, [0, 2, 3]), (None, [0, 3, 2, 1])]
    owt = [(0, [0, 1, 3]), (1, [1, 2, 3]), (None, [0, 3, 2, 1])]
    swp = [(1, [0, 1, 2]), (0, [0, 2, 3]), (None, [0, 3, 2, 1])]
    hole = [(0, [0, 1, 2]), (None, [0, 2, 3]), (None, [0, 3, 2, 1])]
    hol2 = [(None, [0, 1, 2]), (0, [0, 2, 3]), (None, [0, 3, 2, 1])]
    star = [(None, [0, 1, 0, 2, 0, 3])]
    sta2 = [(None, [0, 1, 0, 3, 0, 2])]
    bow = [(0, [0, 1, 2, 0, 3, 4]), (None, [0, 2, 1]), (None, [0, 4, 3])]
    tet = [(0, [0, 1, 2]), (1, [0, 2, 3]), (2, [0, 3, 1]), (3, [1, 3, 2])]
    path = [(None, [0, 1, 2, 3, 2, 1])]
    pat2 = [(None, [0, 2, 1, 3, 1, 2])]
    out = []

    def pair(name, nv, a, b=None, nv2=None, ka={}, kb={}, m=None):
        out.append(Pair(name, S(nv, a, 'a', **ka), S(nv2 or nv, b or a, 'b', **kb), m))
    perm = lambda c: {'order': [(i * 7 + 2) % sum(len(x) for _, x in c) for i in range(sum(len(x) for _, x in c))]}
    gap = {'gaps': {'v': (1,), 'e': (0, 3), 'f': (0,)}}
    both = [('an edge', 2, [(None, [0, 1])]), ('a triangle', 3, tri), ('two triangles', 4, two), ('a star of wires', 4, star), ('a path of wires', 4, path)]
    both += [('a face meeting itself in a vertex', 5, bow)] + ([('a tetrahedron', 4, tet)] if tier == 'thorough' else [])
    for n, nv, c in both:
        pair('%s and itself' % n, nv, c)
        pair('%s and itself with gaps' % n, nv, c, ka=gap, kb=gap)
        turned = [(f, x[1:] + x[:1]) for f, x in c]
        w = {}
        for x in (x for _, x in c):
            for i in range(len(x)):
                w[x[i]] = (x[i], x[(i + 1) % len(x)])
        pair('%s and itself with other representatives' % n, nv, c, turned, ka={'order': None}, kb={'wheel': w, 'order': order_like(c, turned)})
        pair('%s and one with an isolated vertex' % n, nv, c, nv2=nv + 1)
        pair('%s with an isolated vertex and one without' % n, nv + 1, c, nv2=nv)
    pair('two triangles stored in another order', 4, two, kb=perm(two))
    pair('two triangles with other ids', 4, two, kb=gap)
    pair('two triangles and two with interchanged faces', 4, two, swp)
    pair('a triangle and an inside-out one', 3, tri, irt, kb={'order': order_like(tri, irt)})
    pair('a split square and one with the other diagonal', 4, two, owt, kb={'order': None})
    pair('two triangles and one beside a hole', 4, two, hole, kb={'order': order_like(two, hole)})
    pair('two triangles, one beside a hole, and two', 4, hole, two, ka={'order': None}, kb={'order': order_like(hole, two)})
    pair('a triangle beside a hole and a hole beside a triangle', 4, hole, hol2, kb={'order': order_like(hole, hol2)})
    pair('two stars with wires in opposite order', 4, star, sta2, kb={'order': order_like(star, sta2)})
    pair('two paths through different vertices', 4, path, pat2)
    pair('a triangle and the same with renamed corners', 3, tri, m={0: 1, 1: 2, 2: 0})
    pair('a triangle and the same with reversed corners', 3, tri, m={0: 1, 1: 0, 2: 2})
    if tier == 'thorough':
        pair('a tetrahedron and the same with renamed corners', 4, tet, m={0: 1, 1: 2, 2: 0, 3: 3})
    return out


def order_like(a, b):
    """stores the edges of b in the slots the same edges have in a"""
    E = lambda cyc: [(c[i], c[(i + 1) % len(c)]) for _, c in cyc for i in range(len(c))]
    ea, eb = E(a), E(b)
    return [eb.index(e) for e in ea]


VARIANTS = ('Equivalent', 'DifferentNumberOfVertices', 'DifferentNumberOfEdges', 'DifferentNumberOfFaces', 'DifferentVertices', 'DifferentEdges', 'DifferentFaces',
            'NoCorrespondingVertex', 'NoCorrespondingEdge', 'NoCorrespondingFace')


def leaves(t, out):
    todo = [t]
    seen = set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'p':
            out.add(x)
        todo += [y for y in x.a if type(y) is T]
    return out


class Compare:
    def __init__(self, P, rep, rule, tier):
        self.P, self.rep, self.rule, self.tier = P, rep, rule, tier
        self.slow = set()
        ids = [m['id'] for t in P.traits.values() if t['id'].endswith('::MeshBasics') for m in t['methods']]
        self.ids = {i.split('::')[-1]: i for i in ids}
        self.about = [m['id'] for t in P.traits.values() for m in t['methods'] if m['name'] in ('is_about', 'curve_type')]
        self.about += [f for f in P.fns if f.endswith('::is_about') and 'urve' in f]

    def fid(self, n):
        f = self.ids.get(n)
        if f is None or f not in self.P.fns:
            raise report.Fatal('MeshBasics::' + n)
        return f

    def run(self, pr, fn, extra, inst, withiso=False):
        if fn in self.slow:
            self.rep.ob(self.rule, '%s of %s: analysed' % (fn, inst), None, 'a smaller instance took too long')
            return None
        hr = HeapRun(self.P, extra=mathx.math_hooks(self.P)['*'], loop=400, budget=20000000, maxpaths=4000)
        ai = hr.ai
        ai.keep_panics = True
        ai.panics = []
        t0 = time.time()
        ai.deadline = min(t0 + 40, AI.deadline or 1e18)
        for f in self.about:
            ai.hooks[f] = lambda ai, st, c, args, site, n=f.split('::')[-1]: [(st, mk('app', n, *[ai.snap(st, a) for a in args]))]
        a, b = PLACE('a'), PLACE('b')
        st = pr.A.lay(self.P, ai, St(), 100, a)
        st = pr.B.lay(self.P, ai, st, 200, b)
        before = snapshot(ai, st, 100, pr.A), snapshot(ai, st, 200, pr.B)
        args = [mk('ref', a), mk('ref', b)]
        if withiso:
            iso = mk('map0')
            for i in range(min(pr.A.nv, pr.B.nv)):
                iso = mk('mput', iso, pr.A.vs[i], pr.B.vs[pr.m[i]])
            r, st = models.tmpref(ai, st, adt(self.P, 'IndexIsomorphism', map=iso))
            args.append(r)
        fid = self.fid(fn)
        key = '%s of %s' % (fn, inst)
        try:
            outs = hr.run(fid, args + [X(x) for x in extra], st)
        except Exception as ex:
            self.rep.ob(self.rule, key + ': analysed', None, '%s: %s' % (type(ex).__name__, ex))
            if time.time() - t0 > 30:
                self.slow.add(fn)
            return None
        self.rep.paths += len(outs)
        self.rep.analysed(fid, *ai.visited)
        sure = bool(ai.panics) and not ai.truncated
        p = ai.panics[0] if ai.panics else None
        if sure and any(self.atom(pr, t) is None for t in p[0].conds):
            sure = None
        self.rep.ob(self.rule, key + ': completes', bool(outs) and not ai.panics or (False if sure else None),
                    'the comparison does not complete: %s' % (p[1] if p else 'no path'), (fid, p[2] if p else None))
        for s, _ in outs:
            ch = [k for n, src, bf in ((100, pr.A, before[0]), (200, pr.B, before[1])) for k, v in snapshot(ai, s, n, src).items() if bf[k] is not v]
            self.rep.ob(self.rule, key + ': only reads', not ch, 'the comparison changes %s' % (ch[0][0] + ch[0][2] if ch else ''), (fid, None))
        return ai, fid, outs

    def atom(self, pr, t, one=False):
        """(kind, element of A, element of B, other leaves) of an opaque comparison, or None"""
        if not one and (t.op != 'app' or not (t.a[0] == 'call:' or str(t.a[0]).split('::')[-1] in ('is_about', 'eq'))):
            return None
        ls = leaves(t, set())
        el = {}
        rest = set()
        names = {}
        for i in range(pr.A.nv):
            names['avp%d' % i] = ('v', 'a', i)
        for i in range(pr.B.nv):
            names['bvp%d' % i] = ('v', 'b', i)
        for s, src in (('a', pr.A), ('b', pr.B)):
            for e in src.edges:
                names['%sep%d_%d' % ((s,) + e)] = ('e', s, e)
            for f in range(src.nf):
                names['%sfp%d' % (s, f)] = ('f', s, f)
        for x in ls:
            n = names.get(x.a[0])
            if n:
                if (n[0], n[1]) in el:
                    return None
                el[(n[0], n[1])] = n[2]
            else:
                rest.add(x.a[0])
        if len(el) == 1 and one:
            return next(iter(el.items()))
        if len(el) != 2 or one:
            return None
        k = {q[0] for q in el}
        if len(k) != 1 or {q[1] for q in el} != {'a', 'b'}:
            return None
        k = k.pop()
        return k, el[(k, 'a')], el[(k, 'b')], rest

    def outcome(self, pr, ret):
        if ret.op != 'adt' or ret.a[1] not in VARIANTS:
            raise Unknown('result ' + show(ret)[:80])
        return ret.a[1], list(ret.a[3:])

    def conds(self, pr, st, want):
        """{(kind, a, b): truth} of a path; want: kind -> names that must take part in the comparison"""
        r = Conds()
        for t, v in st.conds.items():
            at = self.atom(pr, t)
            if at is None and self.atom(pr, t, True):
                r.single.add(self.atom(pr, t, True))
                continue
            if at is None or v not in (0, 1):
                raise Unknown('condition ' + show(t)[:100])
            k, a, b, rest = at
            if k not in want or want[k] - rest:
                raise Wrong('compares %s %s and %s without %s' % ({'v': 'vertices', 'e': 'edges', 'f': 'faces'}[k], a, b, sorted(want.get(k, {'being asked to'}) - rest)))
            r[(k, a, b)] = v
        return r

    def fixed(self, pr, fn, extra, want, trivial):
        """comparison along a given correspondence"""
        rep, rule = self.rep, self.rule
        key = lambda k: '%s of %s: %s' % (fn, pr.name, k)
        o = self.run(pr, fn, extra, pr.name, withiso=not trivial)
        if o is None:
            return
        ai, fid, outs = o
        A, B = pr.A, pr.B
        if trivial:
            same = pr.trivial()
            vm, em, fm = same or (None, None, None)
        else:
            fm = pr.iso()
            same = fm is not None
            vm, em = pr.m, {e: (pr.m[e[0]], pr.m[e[1]]) for e in A.edges} if same else None
        accepted = 0
        for st, ret in outs:
            try:
                var, ids = self.outcome(pr, ret)
                cs = self.conds(pr, st, want)
                if var == 'Equivalent':
                    accepted += 1
                    if not rep.ob(rule, key('equal only if they correspond'), bool(same), 'meshes that differ are reported as equivalent', (fid, None)):
                        continue
                    need = set()
                    if 'v' in want:
                        need |= {('v', i, j) for i, j in vm.items()}
                    if 'e' in want:
                        need |= {('e', e, f) for e, f in em.items()}
                    if 'f' in want:
                        need |= {('f', e, f) for e, f in fm.items()}
                    bad = [c for c in cs if cs[c] != 1 or c not in need]
                    miss = [c for c in need if cs.get(c) != 1]
                    hold = not bad and not miss or (None if not bad and all(c not in cs and cs.unsure(c) for c in miss) else False)
                    rep.ob(rule, key('everything compared'), hold, 'equivalent although %s' % (
                        '%s is not compared with %s' % miss[0][1:] if miss and miss[0] not in cs else '%s and %s differ or do not correspond' % (bad or miss)[0][1:] if bad or miss else ''), (fid, None))
                    continue
                ok, why = self.truthful(pr, var, ids, cs, same, vm, em, fm, trivial)
                rep.ob(rule, key('true reason'), ok, '%s is reported although %s' % (var, why), (fid, None))
            except Wrong as ex:
                rep.ob(rule, key('understood'), False, str(ex), (fid, None))
            except Unknown as ex:
                rep.ob(rule, key('understood'), None, str(ex), (fid, None))
        if same:
            rep.ob(rule, key('equal meshes are equivalent'), accepted > 0 or None if ai.truncated else accepted > 0, 'no way to report equal meshes as equivalent', (fid, None))

    def truthful(self, pr, var, ids, cs, same, vm, em, fm, trivial):
        A, B = pr.A, pr.B
        if var.startswith('DifferentNumberOf'):
            n = {'Vertices': (A.nv, B.nv), 'Edges': (len(A.edges), len(B.edges)), 'Faces': (A.nf, B.nf)}[var[17:]]
            return n[0] != n[1], 'both have %d' % n[0]
        ea = {s: e for e, s in A.es.items()}
        eb = {s: e for e, s in B.es.items()}
        va = {s: i for i, s in enumerate(A.vs)}
        vb = {s: i for i, s in enumerate(B.vs)}
        fa = {s: i for i, s in enumerate(A.fs)}
        fb = {s: i for i, s in enumerate(B.fs)}
        tab = {'V': (va, vb, 'v', vm), 'E': (ea, eb, 'e', em), 'F': (fa, fb, 'f', fm)}
        if var.startswith('Different'):
            a, b, k, mp = tab[var[9]]
            if ids[0] not in a or ids[1] not in b:
                return False, 'it names elements that do not exist'
            x, y = a[ids[0]], b[ids[1]]
            if cs.get((k, x, y)) == 0:
                return (mp is None or mp.get(x) == y), '%s and %s do not correspond' % (x, y)
            if same:
                return False, '%s and %s are equal' % (x, y)
            if k == 'e' and trivial:
                f = lambda S, e: (S.vs[e[0]], S.vs[e[1]], S.es[S.next[e]])
                return f(A, x) != f(B, y), 'the edges are the same'
            if k == 'f' and trivial:
                f = lambda S, n: rot([S.es[e] for e in cyc_edges(S, n)])
                return f(A, x) != f(B, y), 'the faces are the same'
            return (None if k == 'v' and trivial else False), 'the two were not found to be different'
        if same:
            return False, 'the meshes correspond'
        if var == 'NoCorrespondingVertex':
            return bool(set(va) - set(vb)) if trivial else None, 'every vertex has a counterpart'
        if var == 'NoCorrespondingEdge':
            if ids[0] not in ea:
                return False, 'it names an edge that does not exist'
            e = ea[ids[0]]
            return (ids[0] not in eb) if trivial else (pr.m[e[0]], pr.m[e[1]]) not in B.es, 'the edge %s has a counterpart' % (e,)
        if ids[0] not in fa:
            return False, 'it names a face that does not exist'
        f = fa[ids[0]]
        return (ids[0] not in fb) if trivial else faces_of(A, pr.m.get)[f] not in faces_of(B).values(), 'face %s has a counterpart' % f

    def search(self, pr, fn, extra, want, mapping=False):
        """comparison along a correspondence that is searched for"""
        rep, rule = self.rep, self.rule
        key = lambda k: '%s of %s: %s' % (fn, pr.name, k)
        o = self.run(pr, fn, extra, pr.name)
        if o is None:
            return
        ai, fid, outs = o
        A, B = pr.A, pr.B
        n = 0
        for st, ret in outs:
            try:
                cs = self.conds(pr, st, want)
                m = {}
                clash = False
                for (k, a, b), v in cs.items():
                    if v:
                        clash |= a in m or b in m.values()
                        m[a] = b
                lone = [i for i in range(A.nv) if all(cs.get(('v', i, j)) == 0 for j in range(B.nv))]
                bij = not clash and len(m) == A.nv
                if mapping:
                    if ret.op != 'adt' or ret.a[1] not in ('Ok', 'Err'):
                        raise Unknown('result ' + show(ret)[:80])
                    if ret.a[1] == 'Err':
                        rep.ob(rule, key('no correspondence'), bool(lone) or clash, 'no correspondence is found although every vertex has its own counterpart', (fid, None))
                        continue
                    n += 1
                    mp = ai.proj1(ret.a[3], '.map')
                    g = {}
                    while mp.op == 'mput':
                        g.setdefault(mp.a[1], mp.a[2])
                        mp = mp.a[0]
                    if mp.op != 'map0':
                        raise Unknown('map ' + show(mp)[:60])
                    rep.ob(rule, key('correspondence'), bij and g == {A.vs[i]: B.vs[j] for i, j in m.items()}, 'the correspondence %s instead of %s' % (
                        {show(a): show(b) for a, b in g.items()}, m), (fid, None))
                    continue
                var, ids = self.outcome(pr, ret)
                if var == 'Equivalent':
                    n += 1
                    rep.ob(rule, key('equal only if they correspond'), bij and pr.iso(m) is not None, 'meshes that differ are reported as equivalent (under %s)' % m, (fid, None))
                elif var == 'NoCorrespondingVertex':
                    rep.ob(rule, key('no correspondence'), bool(lone) or clash, 'no correspondence is found although every vertex has its own counterpart', (fid, None))
                elif var.startswith('DifferentNumberOf'):
                    c = {'Vertices': (A.nv, B.nv), 'Edges': (len(A.edges), len(B.edges)), 'Faces': (A.nf, B.nf)}[var[17:]]
                    rep.ob(rule, key('true reason'), c[0] != c[1], 'both have %d' % c[0], (fid, None))
                else:
                    rep.ob(rule, key('true reason'), bij and pr.iso(m) is None, '%s is reported although the meshes correspond under %s' % (var, m), (fid, None))
            except Wrong as ex:
                rep.ob(rule, key('understood'), False, str(ex), (fid, None))
            except Unknown as ex:
                rep.ob(rule, key('understood'), None, str(ex), (fid, None))
        if A.nv == B.nv and pr.iso() is not None:
            rep.ob(rule, key('equal meshes are equivalent'), n > 0, 'no way to report equal meshes as equivalent', (fid, None))


class Wrong(Exception):
    pass


class Conds(dict):
    """outcomes of the comparisons of a path, and the elements it looks at on their own"""
    def __init__(self):
        dict.__init__(self)
        self.single = set()

    def unsure(self, c):
        return ((c[0], 'a'), c[1]) in self.single and ((c[0], 'b'), c[2]) in self.single


def cyc_edges(S, n):
    for f, c in S.cycles:
        if f == n:
            return [(c[i], c[(i + 1) % len(c)]) for i in range(len(c))]


def c01(P, rep, tier, cfg, rel):
    C = Compare(P, rep, 'comparison', tier)
    ps = pairs(tier)
    for pr in ps:
        C.fixed(pr, 'is_trivially_isomorphic', [], {}, True)
        C.fixed(pr, 'is_trivially_isomorphic_pos', ['eps'], {'v': {'eps'}}, True)
        C.fixed(pr, 'is_trivially_isomorphic_pos_curved', ['eps'], {'v': {'eps'}, 'e': {'eps'}}, True)
        C.fixed(pr, 'is_trivially_isomorphic_ex', ['cv', 'ce', 'cf'], {'v': {'cv'}, 'e': {'ce'}, 'f': {'cf'}}, True)
        C.fixed(pr, 'is_isomorphic', ['cv', 'ce', 'cf'], {'v': {'cv'}, 'e': {'ce'}, 'f': {'cf'}}, False)
    C2 = Compare(P, rep, 'search', tier)
    for pr in ps:
        if pr.A.nv + pr.B.nv > (8 if tier == 'thorough' else 7):
            continue
        C2.search(pr, 'find_payload_isomorphism', ['f'], {'v': {'f'}}, mapping=True)
        C2.search(pr, 'is_isomorphic_by', ['f'], {'v': {'f'}})
        C2.search(pr, 'is_isomorphic_by_pos', ['eps'], {'v': {'eps'}})
        C2.search(pr, 'is_isomorphic_pos', ['eps'], {'v': {'eps'}})
    for name, want in (('eq', True), ('ne', False)):
        fid = P.inherent('MeshEquivalenceDifference', name)
        ad = [a for a in P.adts.values() if a['id'].endswith('::MeshEquivalenceDifference')]
        if not fid or not ad:
            continue
        for v in ad[0]['variants']:
            m = HeapRun(P)
            fs = tuple(f[0] for f in v['fields'])
            r, st = models.tmpref(m.ai, St(), mk('adt', ad[0]['id'], v['name'], fs, *[X('x' + f) for f in fs]))
            outs = m.run(fid, [r], st)
            w = (v['name'] == 'Equivalent') == want
            ok = all(x is (TRUE if w else FALSE) for _, x in outs) and len(outs) > 0
            rep.ob('verdict', '%s of %s' % (name, v['name']), ok if all(isconst(x) for _, x in outs) else None, '%s of %s is not %s' % (name, v['name'], w), (fid, None))
    rep.floor('comparison', 600)
    rep.floor('search', 100)

"""P01: drawing paths (path builder, SVG outlines, glyph outlines) inserts exactly the drawn polyline/curves."""
from meshrec import *
import re

X, Y = Poly.atom(('X',)), Poly.atom(('Y',))


def p01(P, rep, tier, cfg, rel):
    builder(P, rep)
    if cfg in ('core', 'full'):
        svg(P, rep, 4 if tier == 'thorough' else 3)
        fonts(P, rep, 3)
        group(P, rep)
    rep.floor('step', 25)
    rep.floor('svg', 25)
    rep.floor('glyph', 40)


# ---------------------------------------------------------------- points
def points_extra(al, t):
    if t.op == 'app':
        nm, a = leaf(str(t.a[0])), t.a[1:]
        if nm == 'from_xy' and len(a) == 2:
            return al.norm(a[0]) * X + al.norm(a[1]) * Y
        if nm == 'from_x' and len(a) == 1:
            return al.norm(a[0]) * X
        if nm == 'apply' and len(a) == 2 and default_of(al.strip(a[0])) is DEF:
            return al.norm(a[1])
        if nm == 'apply_vec' and len(a) == 2 and default_of(al.strip(a[0])) is DEF:
            return al.norm(a[1])
    r = label(al, t)
    return Poly.atom(r) if r else None


def label(al, t):
    """name of a coordinate of an input segment"""
    if t.op != 'f' or t.a[0] not in ('.x', '.y'):
        return None
    b = t.a[1]
    moved = False
    if b.op == 'post' and b.a[0] == 1 and b.a[1].op == 'app' and leaf(str(b.a[1].a[0])) == 'map_point' and 'abs_transform' in show(b.a[1].a[1]):
        moved = True
        b = al.strip(b.a[1].a[2])
    if b.op == 'f' and b.a[0][1:].isdigit() and b.a[1].op == 'f' and str(b.a[1].a[0]).startswith('@'):
        k = which(b.a[1].a[1])
        if k is not None:
            return ('seg', 'moved' if moved else 'raw', k, b.a[1].a[0][1:], int(b.a[0][1:]), t.a[0][1:])
    return None


def which(t):
    """(source, index) of a drawn segment"""
    src = None
    if t.op == 'ini' and t.a[0].op == 'pl' and len(t.a[0].a) == 1 and t.a[0].a[0].op == 'M':
        t = t.a[0].a[0].a[0]
    if t.op == 'at':
        src, t = t.a[0], t.a[1]
    if t.op != 'item':
        return None
    m = re.fullmatch(r'n(?:\+(\d+))?', str(t.a[1]))
    if not m:
        return None
    return (src if src is not None else t.a[0], int(m.group(1) or 0))


def point(k, var, i, moved=True):
    at = lambda ax: Poly.atom(('seg', 'moved' if moved else 'raw', k, var, i, ax))
    return at('x') * X + at('y') * Y


# ---------------------------------------------------------------- what the code did
class Graph:
    """vertices (position key / term), edges (i, j, payload i->j, payload j->i), curves {(edge, dir): (kind, controls)}, faces [(edge, dir), payload]"""

    def __init__(self, m, st):
        self.m, self.st = m, st
        self.verts, self.vidx, self.vterm = [], {}, []
        self.edges, self.eidx = [], {}
        self.curves, self.faces, self.open = [], [], []
        k = -1
        for e in log(st):
            if e[0] == 'mesh':
                k += 1
                self.op(e[1], e[2], k)
            else:
                self.curve(e[1], e[2])

    def v(self, t):
        if t not in self.vidx:
            self.vidx[t] = len(self.verts)
            self.verts.append(('given', t))
        return self.vidx[t]

    def newv(self, t, payload):
        self.vidx[t] = len(self.verts)
        self.verts.append(self.payload(payload))

    def payload(self, p):
        if p.op == 'app' and leaf(str(p.a[0])) == 'from_pos' and len(p.a) == 2:
            return ('pos', self.m.alg.norm(p.a[1]).key())
        return ('payload', p)

    def edge(self, a, b, pa, pb, ea, eb):
        n = len(self.edges)
        self.edges.append((self.v(a), self.v(b), pa, pb))
        for t in ea:
            self.eidx.setdefault(t, (n, 0))
        for t in eb:
            self.eidx.setdefault(t, (n, 1))

    def op(self, nm, a, k):
        E, V = lambda i: new('E', k, i), lambda i: new('V', k, i)
        if nm == 'add_vertex':
            self.newv(V(0), a[0])
        elif nm == 'insert_edge_between':
            self.edge(a[0], a[2], a[1], a[3], [E(0), mk('edge', a[0], a[2])], [E(1), mk('edge', a[2], a[0])])
        elif nm == 'add_vertex_via_vertex':
            self.newv(V(0), a[1])
            self.edge(a[0], V(0), a[2], a[3], [E(1), mk('edge', a[0], V(0))], [E(2), mk('edge', V(0), a[0])])
        elif nm == 'add_isolated_edge':
            self.newv(V(0), a[0])
            self.newv(V(1), a[2])
            self.edge(V(0), V(1), a[1], a[3], [mk('edge', V(0), V(1))], [mk('edge', V(1), V(0))])
        elif nm == 'close_face_vertices':
            self.edge(a[2], a[4], a[1], a[3], [E(1), mk('edge', a[2], a[4])], [E(2), mk('edge', a[4], a[2])])
            self.faces.append((self.e(mk('edge', a[0], a[2])), a[5], a[6]))
            self.faces_last_edge = (len(self.edges) - 1, 0)
        elif nm == 'close_hole':
            self.faces.append((self.e(a[0]), a[1], a[2]))
        else:
            self.open.append('operation %s' % nm)

    def e(self, t):
        return self.eidx.get(t, ('given', t))

    def curve(self, e, c):
        if c.op != 'adt':
            self.open.append('curve %s' % show(c)[:60])
            return
        self.curves.append((self.e(e), str(c.a[1]), tuple(self.m.alg.norm(x).key() for x in c.a[3:])))


class Spec:
    def __init__(self):
        self.verts, self.edges, self.curves, self.faces = [], [], [], []

    def v(self, p):
        self.verts.append(p)
        return len(self.verts) - 1

    def given(self, t):
        for i, x in enumerate(self.verts):
            if x == ('given', t):
                return i
        return self.v(('given', t))

    def pos(self, p):
        return self.v(('pos', p.key()))

    def edge(self, i, j, pa=DEF, pb=DEF):
        self.edges.append((i, j, pa, pb))
        return len(self.edges) - 1

    def curve(self, e, kind, ctrls):
        if kind != 'Linear':
            self.curves.append(((e, 0), kind, tuple(c.key() for c in ctrls)))

    def face(self, sides, fp=DEF):
        self.faces.append((set(sides), fp))


def rev(e):
    return (e[0], 1 - e[1])


def differs(g, s):
    """first difference between what was drawn and what should have been, or None"""
    vmap, left = {}, list(range(len(g.verts)))
    for i, p in enumerate(s.verts):
        j = next((j for j in left if g.verts[j] == p), None)
        if j is None:
            return 'no vertex with %s' % pshow(p)
        vmap[i] = j
        left.remove(j)
    extra = [j for j in left if g.verts[j][0] != 'given']
    if extra:
        return 'an additional vertex with %s' % pshow(g.verts[extra[0]])
    emap, left = {}, list(range(len(g.edges)))
    for i, (a, b, pa, pb) in enumerate(s.edges):
        hit = None
        for j in left:
            c, d, qa, qb = g.edges[j]
            if (c, d) == (vmap[a], vmap[b]) and (qa, qb) == (pa, pb):
                hit = (j, 0)
            elif (d, c) == (vmap[a], vmap[b]) and (qb, qa) == (pa, pb):
                hit = (j, 1)
            if hit:
                break
        if not hit:
            return 'edge %d from vertex %d to vertex %d is not drawn (with its payloads)' % (i, a, b)
        emap[i] = hit
        left.remove(hit[0])
    if left:
        return 'an additional edge is drawn'
    tr = lambda e: (emap[e[0]][0], emap[e[0]][1] ^ e[1]) if e[0] != 'given' else e
    got = {}
    for e, kind, cs in g.curves:
        if e[0] != 'given' and e[1] == 1:
            e, cs = rev(e), cs[::-1]
        got[e] = (kind, cs)
    got = {e: c for e, c in got.items() if c[0] != 'Linear'}
    want = {}
    for e, kind, cs in s.curves:
        e = tr(e)
        if e[1] == 1:
            e, cs = rev(e), cs[::-1]
        want[e] = (kind, cs)
    for e in want:
        if e not in got:
            return 'a curved segment is drawn straight'
        if got[e] != want[e]:
            return 'a curved segment gets kind %s controls %s instead of %s %s' % (got[e][0], [kshow(c) for c in got[e][1]], want[e][0], [kshow(c) for c in want[e][1]])
    if set(got) - set(want):
        return 'a straight segment is drawn curved'
    if len(g.faces) != len(s.faces):
        return '%d faces instead of %d' % (len(g.faces), len(s.faces))
    fs = list(g.faces)
    for sides, fp in s.faces:
        sides = {tr(x) for x in sides}
        j = next((j for j, (e, q, c) in enumerate(fs) if e in sides and q is fp), None)
        if j is None:
            return 'the face is made at %s with payload %s' % (eshow(fs[0][0]), show(fs[0][1])[:40])
        fs.pop(j)
    return None


def kshow(k):
    return repr(Poly(dict(k)))[:150]


def pshow(p):
    return 'position %s' % kshow(p[1]) if p[0] == 'pos' else '%s %s' % (p[0], show(p[1])[:100])


def eshow(e):
    return show(e[1])[:60] if e[0] == 'given' else 'edge %d%s' % (e[0], ' backwards' if e[1] else '')


VOCAB = {'apply', 'transformed', 'transform', 'from_pos', 'posof', 'pos', 'default', 'max', 'h_advance', 'kern', 'as_scaled', 'glyph_id', 'pt_to_px_scale', 'height_unscaled', 'outline', 'chars'}


def clear(g):
    """is everything in the graph within the understood vocabulary?"""
    if g.open:
        return g.open[0]
    for kind, p in g.verts:
        if kind == 'pos':
            w = strange(Poly(dict(p)))
        else:
            w = strange_t(p)
        if w:
            return w
    for e, kind, cs in g.curves:
        for c in cs:
            w = strange(Poly(dict(c)))
            if w:
                return w
        if e[0] == 'given' and strange_t(e[1]):
            return strange_t(e[1])
    for e, q, c in g.faces:
        if e[0] == 'given' and strange_t(e[1]):
            return strange_t(e[1])
    return None


def strange(p):
    for a in p.atoms():
        w = strange_a(a)
        if w:
            return w


def strange_a(a):
    if type(a) is T:
        return strange_t(a)
    if isinstance(a, tuple) and a:
        if a[0] == 'seg' or a[0] in ('X', 'Y'):
            return None
        if a[0] == 'app':
            if a[1] not in VOCAB:
                return str(a[1])
            for x in a[2:]:
                w = strange(Poly(dict(x))) if isinstance(x, tuple) else None
                if w:
                    return w
            return None
        return str(a[0])
    return None


def strange_t(t):
    for x in walk(t):
        if type(x) is T:
            if x.op == 'app' and leaf(str(x.a[0])) not in VOCAB:
                return leaf(str(x.a[0]))
            if x.op in ('post', 'un', 'cast', 'star', 'fold', 'acc', 'upd'):
                return x.op
    return None


def judge(rep, rule, lab, g, spec, where, hard=True):
    d = differs(g, spec)
    good = d is None
    why = d or ''
    if not good:
        w = clear(g)
        if w:
            good, why = None, '%s; not understood: %s' % (d, w)
    rep.ob(rule, lab, good, why, where)
    return good


# ---------------------------------------------------------------- the builder, one call at a time
FIELDS = ('closed', 'has_face', 'start_vertex', 'current_vertex', 'start_edges', 'current_edges', 'transform')


def builder_fn(P, name):
    return P.inherent('PathBuilder', name)


def builder(P, rep):
    tr = mk('f', '.transform', mk('p', 0, 'a0'))
    for name in ('line_to_ex', 'line_to', 'line', 'line_ex', 'quad', 'quad_to', 'cubic', 'cubic_to', 'close', 'add_vertex_autoclose', 'move_to_new'):
        fid = builder_fn(P, name)
        if not fid:
            rep.ob('step', name, None, 'not found')
            continue
        unit(P, rep, name, fid)
    for name in ('start', 'start_ex', 'start_at', 'start_at_edge', 'new'):
        fid = builder_fn(P, name)
        if not fid:
            rep.ob('step', name, None, 'not found')
            continue
        begin(P, rep, name, fid)


def state(ai, s, v):
    v = ai.deref(s, v) if v.op == 'ref' else v
    out = {}
    for f in FIELDS:
        out[f] = ai.snap(s, ai.proj1(v, '.' + f))
    return out


def opt(v, s):
    """None / pair / term"""
    if v.op == 'adt' and str(v.a[1]) == 'None':
        return None
    if v.op == 'adt' and str(v.a[1]) == 'Some':
        x = v.a[3]
        return tuple(x.a) if x.op == 'tuple' else x
    return v


def known(s, before, f):
    """is the optional field present on this path?"""
    for c, v in s.conds.items():
        if c.op == 'discr' and c.a[0] is before[f]:
            if v in (0, frozenset({1})):
                return False
            if v in (1, frozenset({0})):
                return True
    return None


def unit(P, rep, name, fid):
    m = Math(P, rep, 'step', loop=2, extra=points_extra)
    args, atoms, st = sym_args(P, fid)
    A = [a for a in atoms]
    ai, outs = m.run(fid, args, name, st=st, hooks={'*': recorder(P)})
    if ai is None:
        return
    where = (fid, loc(P, fid))
    before = state(ai, st, args[0])
    seen = set()
    for s, r in outs:
        facts_ = m.facts(list(s.conds.items()))
        if facts_ is None:
            continue
        sp = Spec()
        fin = state(ai, s, args[0])
        want = dict(before)
        cv, sv = before['current_vertex'], before['start_vertex']
        T_ = lambda x: m.alg.norm(mk('app', 'TransformTrait::apply', mk('refto', before['transform']), x))
        arg = lambda i: ai.snap(s, args[i])
        g = Graph(m, s)
        face = None
        eq = eq_on(m, s)
        if name == 'add_vertex_autoclose':
            same = eq(arg(1), posof(s, sv))
            if same is None:
                same = False
            tag = 'returns to the start' if same else 'new point'
            if not same:
                sp.pos(T_(arg(1)))
            ret = sv if same else next((t for t, i in g.vidx.items() if g.verts[i][0] == 'pos'), None)
            if ai.snap(s, r) is not ret:
                rep.ob('step', '%s: %s' % (name, tag), None if r.op not in ('fresh', 'f', 'p') else False, 'returns %s' % show(ai.snap(s, r))[:100], where)
        elif name == 'move_to_new':
            tag = 'move'
            i = sp.pos(T_(arg(1)))
            v = g_vertex(g)
            want.update(start_vertex=v, current_vertex=v, closed=FALSE)
        elif name == 'close':
            if eqv(s, before['closed']) is True:
                tag = 'closed before'
                sp.face([('given', pair(before['start_edges'], 0))], arg(1))
                want.update(has_face=TRUE, closed=TRUE)
                face = True
            elif known(s, before, 'current_edges') is False:
                tag = 'no edges'
                want.update(has_face=TRUE, closed=TRUE)
            else:
                openp = any_eq(s, pair(before['current_edges'], 1))
                tag = 'open' if openp else 'meets the start'
                if openp:
                    e = sp.edge(sp.given(cv), sp.given(sv))
                sp.face([('given', pair(before['start_edges'], 0))] , arg(1))
                want.update(has_face=TRUE, closed=TRUE)
                if openp:
                    want.update(current_vertex=sv, current_edges='drawn')
                face = True
        else:
            i = sp.given(cv)
            ctr = []
            pa = pb = DEF
            if name in ('line_to_ex', 'line_to'):
                w = arg(1)
                if name == 'line_to_ex':
                    pa, pb = arg(2), arg(3)
            elif name in ('quad_to', 'cubic_to'):
                w = arg(2 if name == 'quad_to' else 3)
                ctr = [T_(arg(k)) for k in range(1, 2 if name == 'quad_to' else 3)]
            else:
                w = None
            if name in ('quad', 'cubic'):
                ctr = [T_(arg(k)) for k in range(1, 2 if name == 'quad' else 3)]
                pnew = ('pos', T_(arg(2 if name == 'quad' else 3)).key())
            elif name == 'line':
                pnew = ('pos', T_(arg(1)).key())
            elif name == 'line_ex':
                pnew = None
                pa, pb = arg(2), arg(3)
            if w is not None:
                j = sp.given(w)
            elif name == 'line_ex':
                got = [p for p in g.verts if p[0] != 'given']
                p = got[0] if len(got) == 1 else None
                okp = p and p[0] == 'payload' and p[1].op == 'app' and leaf(str(p[1].a[0])) in ('transformed', 'transform') and m.alg.strip(p[1].a[1]) is arg(1) and m.alg.strip(p[1].a[2]) is before['transform']
                plain_ = p and p[0] == 'payload' and p[1] is arg(1)
                rep.ob('step', 'line_ex: transforms the payload', True if okp else False if plain_ or p is None else None, 'the new vertex gets %s' % (p and pshow(p)), where)
                if p is None:
                    continue
                j = sp.v(p)
            else:
                j = sp.v(pnew)
            e = sp.edge(i, j, pa, pb)
            sp.curve(e, {1: 'QuadraticBezier', 2: 'CubicBezier'}.get(len(ctr), 'Linear'), ctr)
            both = False
            back = None if w is None else eqt(s, w, sv)
            w_ = w if w is not None else g_vertex(g)
            if w is None:
                back = False
            elif back is None and is_eq(fin['closed'], w, sv):
                both = True
            first = known(s, before, 'current_edges') is False
            tag = '%s%s' % ('first segment' if first else 'next segment', ', back to the start' if back else '')
            want.update(current_vertex=w_, current_edges='drawn')
            if first:
                want.update(start_edges='reverse')
            want['closed'] = TRUE if back else FALSE if back is False else fin['closed'] if both else 'unknown'
            if both:
                seen.add(tag + ', back to the start')
        lab = '%s: %s' % (name, tag)
        seen.add(tag)
        if judge(rep, 'step', lab, g, sp, where):
            check_state(rep, lab, g, s, before, fin, want, where)
        if face and g.faces:
            rv = ai.snap(s, r)
            rep.ob('step', lab + ': returns the face', True if rv.op == 'fresh' and rv.a[0] == 'F' else None if rv.op == 'app' and leaf(str(rv.a[0])) != 'max' else False, 'returns %s' % show(rv)[:80], where)
    need = {'close': ['closed before', 'no edges', 'open', 'meets the start'], 'line_to_ex': ['first segment', 'next segment', 'next segment, back to the start'],
            'add_vertex_autoclose': ['new point', 'returns to the start'], 'line': ['first segment', 'next segment'], 'cubic_to': ['first segment', 'next segment'],
            'quad_to': ['first segment', 'next segment']}.get(name, [])
    for t in need:
        rep.ob('step', '%s can be used: %s' % (name, t), t in seen, 'no path of the function handles this case (every one panics)', where)


def pair(t, i):
    return mk('f', '.%d' % i, mk('f', '.0', mk('f', '@Some', t)))


def g_vertex(g):
    ts = [t for t, i in g.vidx.items() if g.verts[i][0] != 'given']
    return ts[0] if len(ts) == 1 else None


def eqv(s, t):
    v = s.conds.get(t)
    return bool(v) if v in (0, 1) else None


def eqt(s, a, b):
    if a is b:
        return True
    for c, v in s.conds.items():
        if c.op == 'bin' and c.a[0] == 'Eq' and v in (0, 1) and {c.a[1], c.a[2]} == {a, b}:
            return bool(v)
    return None


def is_eq(c, a, b):
    return c.op == 'bin' and c.a[0] == 'Eq' and {c.a[1], c.a[2]} == {a, b}


def any_eq(s, t):
    return any(c.op == 'bin' and c.a[0] == 'Eq' and v == 1 and t in (c.a[1], c.a[2]) for c, v in s.conds.items())


def eq_on(m, s):
    r = m.facts(list(s.conds.items()))
    signs = r[0] if r else {}

    def f(a, b):
        d = m.alg.norm(a) - m.alg.norm(b)
        k, z = m.signed(d, {0})
        if k is None:
            return bool(z)
        al = signs.get(k)
        if al is None:
            return None
        return True if al <= z else False if not (al & z) else None
    return f


def check_state(rep, lab, g, s, before, fin, want, where):
    for f in FIELDS:
        w, x = want[f], fin[f]
        if w is before[f] and x is w:
            continue
        good = None
        if w in ('drawn', 'reverse'):
            p = opt(x, s)
            if isinstance(p, tuple) and g.edges:
                es = [g.e(t) for t in p]
                n = len(g.edges) - 1
                fwd = 0 if g.edges[n][0] == g.vidx.get(before['current_vertex']) else 1
                es = [(e[0], e[1] ^ fwd) if e[0] != 'given' else e for e in es]
                good = es == ([(n, 0), (n, 1)] if w == 'drawn' else [(n, 1), (n, 0)])
                if any(e[0] == 'given' and strange_t(e[1]) for e in es):
                    good = None
            elif p is None or x is before[f]:
                good = False
        elif w == 'unknown':
            good = True if x.op == 'bin' or x.op in ('or', 'not') else None
        elif x is w:
            good = True
        elif w in (TRUE, FALSE):
            good = False if x in (TRUE, FALSE) else known_is(s, x, w)
            if w is FALSE and x is before[f] and eqv(s, x) is False or w is TRUE and x is before[f] and eqv(s, x) is True:
                good = True
            elif x is before[f]:
                good = False if eqv(s, x) is not None else None
        elif x.op in ('fresh', 'f', 'p', 'adt', 'ini') or x is before[f]:
            good = False
        if f == 'closed' and w is before[f] and good is False:
            good = None
        rep.ob('step', '%s: %s afterwards' % (lab, f.replace('_', ' ')), good, '%s becomes %s' % (f, show(x)[:100]), where)


def known_is(s, x, w):
    v = eqv(s, x)
    return None if v is None else v == (w is TRUE)


def begin(P, rep, name, fid):
    m = Math(P, rep, 'step', loop=2, extra=points_extra)
    args, atoms, st = sym_args(P, fid)
    ai, outs = m.run(fid, args, name, st=st, hooks={'*': recorder(P)})
    if ai is None:
        return
    where = (fid, loc(P, fid))
    for s, r in outs:
        fin = state(ai, s, r)
        g = Graph(m, s)
        sp = Spec()
        if name == 'start':
            sp.pos(m.alg.norm(ai.snap(s, args[1])))
        elif name == 'start_ex':
            sp.v(('payload', ai.snap(s, args[1])))
        lab = name
        if judge(rep, 'step', lab, g, sp, where):
            sv, cv, se, ce = [fin[f] for f in ('start_vertex', 'current_vertex', 'start_edges', 'current_edges')]
            rep.ob('step', lab + ': nothing closed', fin['closed'] is FALSE and fin['has_face'] is FALSE or (None if strange_t(fin['closed']) else False), 'starts closed', where)
            rep.ob('step', lab + ': starts where it is', sv is cv, 'starts at %s but continues from %s' % (show(sv)[:80], show(cv)[:80]), where)
            if name in ('start', 'start_ex'):
                # a new vertex has no edges; if the code asks, both answers are followed
                rep.ob('step', lab + ': at the new vertex', True if sv is g_vertex(g) else None, 'starts at %s' % show(sv)[:80], where)
            if name == 'start_at' and opt(se, s) is None:
                rep.ob('step', lab + ': at the given vertex', True if sv is ai.snap(s, args[1]) else False if sv.op in ('p', 'fresh') else None, 'starts at %s' % show(sv)[:80], where)
            if name == 'start_at_edge':
                e = ai.snap(s, args[1])
                t = target_of(sv, e)
                rep.ob('step', lab + ': at the target', t, 'starts at %s' % show(sv)[:80], where)
                p = opt(se, s)
                good = isinstance(p, tuple) and p[0] is e
                rep.ob('step', lab + ': enters by the given edge', good if isinstance(p, tuple) else None, 'start edges %s' % show(se)[:100], where)
                good = se is ce
                rep.ob('step', lab + ': current edges are the start edges', good, 'start edges %s current edges %s' % (show(se)[:80], show(ce)[:80]), where)
            rep.ob('step', lab + ': no transformation', True if default_of(fin['transform']) is DEF else None, 'transform %s' % show(fin['transform'])[:60], where)


def target_of(v, e):
    s = show(v)
    if 'origin_id' not in s and 'target' not in s:
        return None
    if v.op == 'ini' and v.a[0].a[1:] == ('.origin_id',):
        h = v.a[0].a[0].a[0]
        if h.op == 'handle':
            x = h.a[1]
            if x.op == 'ini' and x.a[0].a[1:] in (('.next',), ('.twin',)) and x.a[0].a[0].op == 'M' and x.a[0].a[0].a[0] is mk('handle', 'e', e):
                return True
            if x is e:
                return False
    return None


# ---------------------------------------------------------------- outlines of documents
SEG = ['MoveTo', 'LineTo', 'QuadTo', 'CubicTo', 'Close']
CURVE = ['Line', 'Quad', 'Cubic']
PTS = {'MoveTo': 1, 'LineTo': 1, 'QuadTo': 2, 'CubicTo': 3, 'Close': 0}


def kinds(s, names):
    """{source: {index: variant}} of the drawn elements whose variant is decided on the path"""
    out = {}
    for c, v in s.conds.items():
        if c.op == 'discr':
            w = which(c.a[0])
            if w is None:
                continue
            if isinstance(v, frozenset):
                left = set(range(len(names))) - v
                v = left.pop() if len(left) == 1 else None
            out.setdefault(w[0], {})[w[1]] = names[v] if isinstance(v, int) and v < len(names) else None
    return out


def drawn(s, src):
    """number of elements drawn from the iterators over `src`, and whether the end was reached"""
    n, end = 0, False
    for c, v in s.conds.items():
        if c.op == 'exhausted':
            base = c.a[0]
            while base.op == 'adv':
                base = base.a[0]
            if base is src or same_source(base, src):
                if v == 0:
                    n += 1
                else:
                    end = True
    return n, end


def same_source(base, src):
    return False


def takes(P, ty, where):
    return [f for f, d in P.fns.items() if where in f and '{closure' not in f and any(x == ty for x in d['inputs'])]


def svg(P, rep, loop):
    fids = takes(P, '&usvg::Path', '::svg::')
    if len(fids) != 1:
        rep.ob('svg', 'path import', None, '%d functions take a path' % len(fids))
        return
    fid = fids[0]
    m = Math(P, rep, 'svg', loop=loop, extra=points_extra, maxpaths=20000)
    m.stepwise = True
    args, atoms, st = sym_args(P, fid)
    ai, outs = m.run(fid, args, 'svg', st=st, hooks={'*': recorder(P)})
    if ai is None:
        return
    where = (fid, loc(P, fid))
    seen = set()
    for s, r in outs:
        if m.facts(list(s.conds.items())) is None:
            continue
        g = Graph(m, s)
        sp = Spec()
        if invisible(s):
            judge(rep, 'svg', 'invisible paths draw nothing', g, sp, where)
            continue
        ks = kinds(s, SEG)
        if not ks:
            judge(rep, 'svg', 'an empty path draws nothing', g, sp, where)
            continue
        if len(ks) > 1:
            rep.ob('svg', 'segments', None, '%d sources of segments' % len(ks), where)
            continue
        src, ks = next(iter(ks.items()))
        seq = [ks.get(i) for i in range(max(ks) + 1)]
        if None in seq:
            rep.ob('svg', 'segments', None, 'a drawn segment is not inspected', where)
            continue
        if len(seq) > 1 and seq[1] != 'Close' and eq_on(m, s)(point((src, 1), seq[1], PTS[seq[1]] - 1), point((src, 0), 'MoveTo', 0)):
            continue    # a single segment from the start to itself
        if len([x for x in seq if x != 'Close']) == 2:
            continue    # a single segment encloses nothing; the mesh refuses it
        if seq[0] != 'MoveTo' or 'MoveTo' in seq[1:] or 'Close' in seq[:-1]:
            continue    # not a single sub-path
        lab, ok_ = outline(m, s, sp, src, seq)
        seen.add(lab)
        judge(rep, 'svg', lab + ' drawn as given', g, sp, where)
    for t in ['line', 'quadratic', 'cubic']:
        for e in ['closed by a line', 'returning to its start']:
            rep.ob('svg', 'a %s outline %s can be drawn' % (t, e), any(t in x and e in x for x in seen), 'no path of the function draws it (every one panics)', where)


def invisible(s):
    return any(c.op == 'app' and leaf(str(c.a[0])) == 'is_visible' and v == 0 for c, v in s.conds.items())


def outline(m, s, sp, src, seq):
    eq = eq_on(m, s)
    P0 = point((src, 0), 'MoveTo', 0)
    v0 = cur = sp.pos(P0)
    path, closed, names = [], False, []
    for k, kd in enumerate(seq[1:], 1):
        if kd == 'Close':
            break
        if closed:
            break    # drawing on after returning: the builder refuses
        n = PTS[kd]
        end = point((src, k), kd, n - 1)
        back = eq(end, P0)
        if back:
            nxt, closed = v0, True
        else:
            nxt = sp.pos(end)
        e = sp.edge(cur, nxt)
        sp.curve(e, {'LineTo': 'Linear', 'QuadTo': 'QuadraticBezier', 'CubicTo': 'CubicBezier'}[kd], [point((src, k), kd, i) for i in range(n - 1)])
        path.append(e)
        cur = nxt
        names.append({'LineTo': 'line', 'QuadTo': 'quadratic', 'CubicTo': 'cubic'}[kd])
    if path:
        if not closed:
            path.append(sp.edge(cur, v0))
        sp.face([(e, 1) for e in path])
    return 'outline of %s segments %s' % ('/'.join(names) or 'no', 'returning to its start' if closed else 'closed by a line' if path else 'empty'), True


def group(P, rep):
    """every path of every group is imported, in nested groups too"""
    fids = takes(P, '&usvg::Group', '::svg::')
    if len(fids) != 1:
        rep.ob('svg', 'group import', None, '%d functions take a group' % len(fids))
        return
    fid = fids[0]
    paths_ = set(takes(P, '&usvg::Path', '::svg::'))
    m = Math(P, rep, 'svg', loop=2, extra=points_extra)
    m.stepwise = True
    args, atoms, st = sym_args(P, fid)

    def star(ai, st, c, rid, a, site):
        nm = 'path' if rid in paths_ else 'group' if rid == fid and len([e for e in st.events()]) >= 0 and site is not None else None
        if nm:
            st = st.copy()
            st.event('import', nm, ai.snap(st, a[-1]), ai.snap(st, a[0]))
            return [(st, UNIT)]
        return None
    ai, outs = m.run(fid, args, 'svg', st=st, hooks={'*': star})
    where = (fid, loc(P, fid))
    if ai is None:
        return
    n = 0
    for s, r in outs:
        ks = {}
        for c, v in s.conds.items():
            if c.op == 'discr':
                w = which(m.alg.strip(c.a[0]))
                if w is None:
                    continue
                ks[w] = v
        ev = [(e[1], e[2]) for e in s.events() if e[0] == 'import']
        want = []
        okk = True
        for (src, k), v in sorted(ks.items(), key=lambda x: x[0][1]):
            if v == 0:
                want.append(('group', k))
            elif v == 1:
                want.append(('path', k))
            else:
                okk = False
        got = []
        for kind, x in ev:
            w = next((which(m.alg.strip(y)) for y in walk(x) if type(y) is T and y.op in ('item', 'at') and which(y)), None)
            got.append((kind, w[1] if w else None))
        if not okk or any(k is None for _, k in got):
            rep.ob('svg', 'children of a group', None if okk else True, 'not understood: %s' % got, where)
            continue
        hidden = {w[1] for c, v in s.conds.items() if c.op == 'app' and leaf(str(c.a[0])) == 'is_visible' and v == 0 for y in walk(c)
                  if type(y) is T for w in [which(y)] if w}
        got = [x for x in got if x[1] not in hidden]
        want = [x for x in want if x[1] not in hidden or x[0] != 'path']
        n += len(want)
        rep.ob('svg', 'children of a group', got == want, 'imports %s of children %s' % (got, want), where)
    rep.ob('svg', 'groups have children', n > 0 or None, 'no child seen', where)


# ---------------------------------------------------------------- glyphs
def fonts(P, rep, loop):
    text = [f for f, d in P.fns.items() if '::fonts::' in f and d.get('item') == 'layout_text']
    draw = takes(P, 'ab_glyph::GlyphId', '::fonts::')
    if len(draw) == 1:
        glyph(P, rep, draw[0], loop, None)
    else:
        rep.ob('glyph', 'outline', None, '%d functions draw a glyph' % len(draw))
    if len(text) == 1:
        glyph(P, rep, text[0], 2, 1 if len(draw) == 1 else None)
    else:
        rep.ob('glyph', 'layout', None, 'not found')


def limit(n):
    """at most n curves of every outline"""
    def star(ai, st, c, rid, a, site):
        if str(c['id']) == 'std::iter::Iterator::next' and a and a[0].op == 'ref':
            it = ai.read(st, ai.deref_place(a[0]))
            k = 0
            while it.op == 'adv':
                k, it = k + 1, it.a[0]
            if k >= n and 'curves' in show(it)[-20:]:
                return [(st, NONE)]
        return None
    return star


def glyph(P, rep, fid, loop, curves):
    m = Math(P, rep, 'glyph', loop=loop, extra=points_extra, maxpaths=30000)
    m.stepwise = True
    if curves is not None:
        m.steplimit = lambda it: curves if 'curves' in show(it)[-20:] else None
    args, atoms, st = sym_args(P, fid)
    H = recorder(P)
    ai, outs = m.run(fid, args, 'glyph', st=st, hooks={'*': H if curves is None else first_of(H, limit(curves))})
    if ai is None:
        return
    where = (fid, loc(P, fid))
    text = curves is not None or not any(x == 'ab_glyph::GlyphId' for x in P.fns[fid]['inputs'])
    font = mk('f', '.font', mk('p', 0, 'a0'))
    size = mk('f', '.scale', mk('p', 0, 'a0'))
    seen = set()
    for s, r in outs:
        if m.facts(list(s.conds.items())) is None:
            continue
        g = Graph(m, s)
        sp = Spec()
        scale = None
        for c, v in s.conds.items():
            if c.op == 'discr' and c.a[0].op == 'app' and leaf(str(c.a[0].a[0])) == 'pt_to_px_scale':
                one = v in (1, frozenset({0}))
                scale = m.alg.norm(mk('f', '.x', mk('f', '.0', mk('f', '@Some', c.a[0])))) if one else m.alg.norm(size)
        ks = kinds(s, CURVE)
        if scale is None:
            if ks and g.verts:
                rep.ob('glyph', 'scale', None, 'the size of the font is not looked up', where)
            continue
        px = scale / m.alg.norm(mk('app', 'ab_glyph::Font::height_unscaled', mk('refto', font)))
        names = []
        und = None
        if not text:
            for src, kk in ks.items():
                seq = [kk.get(i) for i in range(max(kk) + 1)]
                if None in seq:
                    und = 'a drawn curve is not inspected'
                    continue
                contour(m, s, sp, src, seq, px, m.alg.norm(mk('p', 2, 'a2')), names)
        else:
            gl = glyphs(s)
            pos, last = Poly(), None
            for gid in gl:
                sf = scaled_of(gid)
                if sf is None:
                    und = 'glyph %s' % show(gid)[:60]
                    break
                S = m.alg.norm(m.alg.strip(sf).a[2]) if m.alg.strip(sf).op == 'app' and len(m.alg.strip(sf).a) == 3 else None
                if S is None or S != scale:
                    if S is not None:
                        rep.ob('glyph', 'advances and outlines use the same scale', False if not strange(S) else None, 'advances in scale %s, outlines in %s' % (S, scale), where)
                    und = 'scale'
                    break
                rep.ob('glyph', 'advances and outlines use the same scale', True, '', where)
                if last is not None:
                    pos = pos + m.alg.norm(mk('app', 'ab_glyph::ScaleFont::kern', sf, last, gid))
                for src, kk in ks.items():
                    if outline_of(src) is gid:
                        seq = [kk.get(i) for i in range(max(kk) + 1)]
                        if None in seq:
                            und = 'a drawn curve is not inspected'
                            continue
                        contour(m, s, sp, src, seq, px, pos, names)
                pos = pos + m.alg.norm(mk('app', 'ab_glyph::ScaleFont::h_advance', sf, gid))
                last = gid
        lab = 'text' if text else 'contour of %s' % ('/'.join(names) or 'nothing')
        if und:
            rep.ob('glyph', lab, None, und, where)
            continue
        seen.update(names)
        judge(rep, 'glyph', lab, g, sp, where)
    if not text:
        for t in ('first', 'next', 'closing'):
            for k in ('Line', 'Quad', 'Cubic'):
                rep.ob('glyph', 'a %s %s can be drawn' % (t, k), '%s %s' % (t, k) in seen, 'no path of the function draws it', where)


def outline_of(src):
    for y in walk(src):
        if type(y) is T and y.op == 'app' and leaf(str(y.a[0])) == 'outline':
            return y.a[-1]
    return None


def glyphs(s):
    """glyphs asked for, in the order of their characters"""
    out = {}
    for c, v in s.conds.items():
        for y in walk(c):
            if type(y) is T and y.op == 'app' and leaf(str(y.a[0])) == 'outline':
                gid = y.a[-1]
                k = next((w[1] for z in walk(gid) if type(z) is T and z.op == 'item' for w in [which(z)] if w), None)
                if k is not None:
                    out[k] = gid
    return [out[k] for k in sorted(out)]


def scaled_of(gid):
    for y in walk(gid):
        if type(y) is T and y.op == 'app' and leaf(str(y.a[0])) == 'as_scaled':
            return mk('refto', y)
    return None


def contour(m, s, sp, src, seq, px, x0, names):
    eq = eq_on(m, s)
    at = lambda k, kd, i: point((src, k), kd, i, False)
    place_ = lambda p: p * px + x0 * X
    first, cur, path = None, None, []
    for k, kd in enumerate(seq):
        n = {'Line': 2, 'Quad': 3, 'Cubic': 4}[kd]
        a, b = at(k, kd, 0), at(k, kd, n - 1)
        if kd == 'Line' and eq(a, b):
            continue
        fin = False
        if first is None:
            first = a
            v0 = sp.pos(place_(a))
            v1 = sp.pos(place_(b))
            path = [sp.edge(v0, v1)]
            cur = v1
            names.append('first ' + kd)
        elif eq(b, first):
            path.append(sp.edge(cur, v0))
            fin = True
            names.append('closing ' + kd)
        else:
            w = sp.pos(place_(b))
            path.append(sp.edge(cur, w))
            cur = w
            names.append('next ' + kd)
        sp.curve(path[-1], {'Line': 'Linear', 'Quad': 'QuadraticBezier', 'Cubic': 'CubicBezier'}[kd], [place_(at(k, kd, i)) for i in range(1, n - 1)])
        if fin:
            sp.face([(e, 0) for e in path])
            first = None

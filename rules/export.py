"""G02: meshes as triangle lists. A mesh of fixed connectivity lies on an exact half-edge heap; the triangulation of one face is
replaced by a stand-in that appends a fan over its corners, and the resulting index and vertex lists are compared with it."""
import time
from ai import *
import alg
import heap
import mathx
import models
from heap import Source, pl_ext, root_of
from tiling import strip

X = lambda n: mk('p', n, n)
last = lambda s: str(s).split('::')[-1]
TETRA = [(0, [0, 1, 2]), (1, [0, 3, 1]), (2, [1, 3, 2]), (3, [2, 3, 0])]
STRIP = [(0, [0, 1, 2, 3]), (1, [3, 2, 4]), (None, [0, 3, 4, 2, 1])]
PAIR = [(0, [0, 1, 2]), (None, [2, 1, 0]), (1, [3, 4, 5, 6]), (None, [6, 5, 4, 3])]
SINGLE = [(0, [0, 1, 2, 3, 4]), (None, [4, 3, 2, 1, 0])]


def meshes(full):
    out = [('two faces', Source(5, STRIP)), ('a face', Source(5, SINGLE)),
           ('two faces with deleted vertices', Source(5, STRIP, gaps={'v': (0, 3), 'f': (0,)})),
           ('separate faces with a deleted vertex between', Source(7, PAIR, gaps={'v': (2,), 'f': (1,), 'e': (1,)}))]
    if full:
        out += [('a tetrahedron', Source(4, TETRA)), ('separate faces', Source(7, PAIR)), ('a tetrahedron with deleted vertices', Source(4, TETRA, gaps={'v': (1, 2, 5)}))]
    return out


def corners(src, f):
    return next(c for g, c in src.cycles if g == f)


class Run:
    def __init__(self, P, src, secs=30):
        self.P, self.src = P, src
        star0 = mathx.math_hooks(P)['*']

        def face_of(ai, st, t):
            n = 0
            while t.op in ('ref', 'refto') and n < 5:
                t = ai.deref(st, t) if t.op == 'ref' else t.a[0]
                n += 1
            if t.op == 'adt' and 'id' in t.a[2]:
                i = t.a[3 + t.a[2].index('id')]
                return src.fs.index(i) if i in src.fs else None
            return None

        def star(ai, st, c, rid, a, site):
            nme = last(c['name'])
            if nme == 'triangulate_face' and len(a) >= 4:
                f = face_of(ai, st, a[0])
                tri = a[2]
                t = ai.deref(st, tri)
                if f is None or t.op != 'adt' or 'indices' not in t.a[2]:
                    return None
                buf = t.a[3 + t.a[2].index('indices')]
                old = ai.deref(st, buf)
                if old.op != 'array':
                    return None
                st = st.copy()
                vs = [src.vs[i] for i in corners(src, f)]
                new = [x for k in range(1, len(vs) - 1) for x in (vs[0], vs[k], vs[k + 1])]
                st.event('tess', f, ai.snap(st, a[3]), len(old.a), len(new))
                ai.write(st, ai.deref_place(buf), mk('array', *old.a, *new), site)
                return [(st, UNIT)]
            if nme == 'index' and len(a) == 1:
                t = strip(ai.deref(st, a[0]) if a[0].op == 'ref' else a[0])
                return [(st, num(t.a[1], 'usize'))] if t.op == 'alloc' else None
            if nme in ('normal', 'normal_naive') and len(a) == 2 and face_of(ai, st, a[0]) is not None:
                return [(st, mk('app', 'face_' + nme, num(face_of(ai, st, a[0]))))]
            return star0(ai, st, c, rid, a, site)
        self.h = heap.HeapRun(P, extra=star)
        ai = self.ai = self.h.ai
        ai.deadline = min(time.time() + secs, AI.deadline or 1e18)
        ai.keep_panics, ai.panics = True, []
        self.pl = pl_ext(place(mk('M', mk('m'))))
        self.st = src.lay(P, ai, St(), 0, self.pl)

    def run(self, fid, args):
        return self.h.run(fid, [mk('ref', self.pl)] + args, self.st)


def plain(t):
    """a payload without copies around it"""
    n = 0
    while n < 6:
        n += 1
        t = strip(t)
        if t.op == 'app' and last(t.a[0]) in ('clone', 'clone_from', 'to_owned') and len(t.a) == 2:
            t = t.a[1]
        else:
            break
    return t


def known(t):
    """nothing but payloads, face normals and exact arithmetic"""
    t = plain(t)
    if t.op in ('p', 'c', 'num', 'const'):
        return True
    if t.op == 'app':
        return last(t.a[0]) in ('set_normal', 'normalize', 'face_normal', 'allocate', 'set_pos', 'default', 'normal', 'pos') and all(known(x) for x in t.a[1:] if type(x) is type(t))
    if t.op == 'bin':
        return all(known(x) for x in t.a[1:] if type(x) is type(t))
    return False


def unit_normal(f):
    return lambda t: t.op == 'app' and last(t.a[0]) == 'normalize' and len(t.a) == 2 and strip(t.a[1]) == mk('app', 'face_normal', num(f))


def lists(r, st, ret):
    ret = models.deep(r.ai, st, ret)
    if ret.op != 'tuple' or len(ret.a) != 2:
        raise ValueError('the result is %s' % show(ret)[:60])
    out = [strip(models.deep(r.ai, st, x)) for x in ret.a]
    for x in out:
        if x.op != 'array':
            raise ValueError('the list is %s' % repr(x)[:160])
    return out[0].a, out[1].a


def number(t):
    if isconst(t):
        return t.a[0]
    if t.op == 'alloc' and t.a[0] == '.vertices':
        return t.a[1]
    raise ValueError('index %s' % show(t)[:40])


def judge(r, st, ret, flat):
    """None or what is wrong; ValueError if the form is not recognised"""
    src = r.src
    calls = [e for e in st.events() if e[0] == 'tess']
    ix, vs = lists(r, st, ret)
    for e in calls:
        if strip(e[2]) != X('algo'):
            if not (e[2].op == 'adt' or strip(e[2]).op == 'adt'):
                raise ValueError('algorithm %s' % show(e[2])[:40])
            return 'a face is triangulated with %s instead of the requested algorithm' % show(e[2])[:60]
    got = [e[1] for e in calls]
    if not got and ix:
        raise ValueError('no face is triangulated by triangulate_face')
    for f in range(src.nf):
        if got.count(f) != 1:
            return 'face %d is triangulated %d times' % (f, got.count(f))
    if len(ix) != sum(e[4] for e in calls):
        return '%d indices for %d triangles' % (len(ix), sum(e[4] for e in calls) // 3)
    used, owner, pos = {}, {}, 0
    for e in sorted(calls, key=lambda e: e[3]):
        f = e[1]
        c = corners(src, f)
        want = [x for k in range(1, len(c) - 1) for x in (c[0], c[k], c[k + 1])]
        for k, w in enumerate(want):
            i = number(ix[pos + k])
            if not 0 <= i < len(vs):
                return 'index %d of a list of %d vertices' % (i, len(vs))
            p = plain(vs[i])
            if flat:
                if not (p.op == 'app' and last(p.a[0]) == 'set_normal' and len(p.a) == 3):
                    if p.op == 'p':
                        return 'the normal of the copy of corner %d is not set' % w
                    raise ValueError('vertex %s' % show(p)[:80])
                base, n = plain(p.a[1]), strip(p.a[2])
                if not unit_normal(f)(n):
                    if not known(n):
                        raise ValueError('normal %s' % show(n)[:80])
                    return 'corner %d of face %d gets the normal %s' % (w, f, show(n)[:60])
                if owner.setdefault(i, f) != f:
                    return 'vertex %d is shared by two faces' % i
                p = base
            if p != X('vp%d' % w):
                if p.op != 'p' and not known(p):
                    raise ValueError('vertex %s' % show(p)[:80])
                return 'corner %d of face %d becomes %s' % (w, f, show(p)[:60])
            used.setdefault(i, []).append((f, w))
        pos += len(want)
    if flat:
        n = sum(len(corners(src, f)) for f in range(src.nf))
        if len(vs) != n:
            return '%d vertices for %d corners' % (len(vs), n)
    else:
        all_ = sorted(show(plain(p)) for p in vs)
        want = sorted(show(X('vp%d' % i)) for i in range(src.nv))
        if all_ != want:
            return 'the vertices are %s' % ' '.join(all_)[:80]
    return None


def g02(P, rep, tier, cfg, rel):
    full = tier == 'thorough'
    for nme, flat in (('triangulate', False), ('triangulate_and_generate_flat_normals_post', True)):
        for fid in [x for x in [P.method('Triangulateable', nme)] if x]:
            for what, src in meshes(full):
                key = '%s of %s' % ('shared vertices' if not flat else 'flat normals', what)
                r = Run(P, src)
                try:
                    outs = r.run(fid, [X('algo'), X('meta')])
                except Exception as ex:
                    rep.ob('triangle list', key, None, '%s: %s' % (type(ex).__name__, str(ex)[:100]))
                    continue
                finish(rep, r, outs, fid, 'triangle list', key, lambda st, ret: judge(r, st, ret, flat))
    smooth(P, rep, full)
    rep.floor('triangle list', 8)
    rep.floor('smooth normals', 2)
    if cfg == 'full':
        bevy(P, rep, full)


def finish(rep, r, outs, fid, rule, key, f):
    rep.analysed(*r.ai.visited)
    rep.paths += len(outs)
    good, msg = (True, '') if outs else (None, 'no outcome')
    for st, ret in outs:
        try:
            w = f(st, ret)
        except (ValueError, KeyError, AttributeError, IndexError) as ex:
            good, msg = None, 'form not recognised: %s' % str(ex)[:140]
            continue
        if w:
            good, msg = False, w
            break
    if good:
        for st, why, site, stack in r.ai.panics:
            good, msg = (False if not st.conds else None), 'panics (%s)' % str(why)[:80]
    rep.ob(rule, key, good, msg, (fid, None))


def smooth(P, rep, full):
    for fid in [x for x in [P.method('WithNormals', 'generate_smooth_normals')] if x]:
        for what, src in meshes(full):
            key = 'vertex normals of %s' % what
            r = Run(P, src)
            try:
                outs = r.run(fid, [])
            except Exception as ex:
                rep.ob('smooth normals', key, None, '%s: %s' % (type(ex).__name__, str(ex)[:100]))
                continue

            def check(st, ret):
                H = heap.Heap(r.ai, st)
                E = alg.Alg(vec=lambda a: False, extra=lambda al, t: alg.Poly.atom(t) if t.op == 'app' and last(t.a[0]) in ('normalize', 'face_normal') else None)
                for i, v in enumerate(src.vs):
                    p = plain(models.deep(r.ai, st, H.payload(v)))
                    if p.op == 'p':
                        return 'the normal of vertex %d is not set' % i if p == X('vp%d' % i) else 'vertex %d becomes %s' % (i, show(p))
                    if not (p.op == 'app' and last(p.a[0]) == 'set_normal' and len(p.a) == 3):
                        raise ValueError('vertex %s' % show(p)[:80])
                    if plain(p.a[1]) != X('vp%d' % i):
                        raise ValueError('vertex %s' % show(p.a[1])[:80])
                    n = strip(p.a[2])
                    if not (n.op == 'app' and last(n.a[0]) == 'normalize'):
                        if known(n):
                            return 'the normal of vertex %d is not normalised' % i
                        raise ValueError('normal %s' % show(n)[:80])
                    got = E.norm(n.a[1])
                    fs = [f for f, c in src.cycles if f is not None and i in c]
                    want = alg.Poly()
                    for f in fs:
                        want = want + alg.Poly.atom(mk('app', 'N', num(f)))
                    have = alg.Poly()
                    for (s, d), c in got.d.items():
                        if len(s) != 1 or s[0][1] != 1:
                            raise ValueError('normal %s' % str(got)[:80])
                        a = s[0][0]
                        t = next((f for f in range(src.nf) if unit_normal(f)(a)), None) if type(a) is type(n) else None
                        if t is None:
                            if known(n.a[1]):
                                return 'the normal of vertex %d is made from %s' % (i, show(n.a[1])[:60])
                            raise ValueError('normal %s' % str(a)[:80])
                        have = have + alg.Poly.atom(mk('app', 'N', num(t))) * alg.Poly.const(c)
                    fac = {have.d.get(m, 0) / c for m, c in want.d.items()}
                    if set(have.d) != set(want.d) or len(fac) != 1 or min(fac) <= 0:
                        return 'the normal of vertex %d has the direction of %s for the faces %s' % (i, str(have)[:60], fs)
                return None
            finish(rep, r, outs, fid, 'smooth normals', key, check)


FLAT, SHARED = 'triangulate_and_generate_flat_normals_post', 'triangulate'


def bevy(P, rep, full):
    """the lists go to the bevy mesh unchanged, and the flat ones exactly on request"""
    fid = next(iter(P.inherent_all('HalfEdgeMeshImpl', 'bevy_set_ex')), None)
    if not fid:
        return
    for flat in (TRUE, FALSE):
        key = 'bevy mesh with %s normals' % ('flat' if flat is TRUE else 'given')
        r = Run(P, Source(5, SINGLE))
        star0 = r.ai.hooks['*']

        def star(ai, st, c, rid, a, site):
            nme = last(c['name'])
            if nme in (FLAT, SHARED) and len(a) == 3:
                st = st.copy()
                st.event('lists', nme, strip(ai.snap(st, a[1])))
                return [(st, mk('tuple', mk('array', *[X('i%d' % k) for k in range(3)]), mk('array', *[X('vx%d' % k) for k in range(2)])))]
            if nme in ('insert_indices', 'insert_attribute', 'remove_indices', 'remove_attribute', 'with_inserted_indices', 'with_inserted_attribute') and len(a) >= 1:
                st = st.copy()
                st.event('bevy', nme, tuple(ai.snap(st, x) for x in a[1:]))
                return [(st, mk('app', nme, *[ai.snap(st, x) for x in a]))]
            if nme == 'attributes' and len(a) == 1 and not c['name'].startswith('procedural'):
                return [(st, mk('it', 'val', mk('array')))]
            if nme in ('pos', 'normal') and len(a) == 1:
                return [(st, mk('app', nme, strip(ai.snap(st, a[0]))))]
            if nme == 'to_array' and len(a) == 1:
                return [(st, strip(ai.snap(st, a[0])))]
            if nme == 'index' and len(a) == 1:
                return [(st, mk('app', 'index', strip(ai.snap(st, a[0]))))]
            return star0(ai, st, c, rid, a, site)
        r.ai.hooks['*'] = star
        try:
            outs = r.run(fid, [X('mesh'), X('algo'), flat, X('meta')])
        except Exception as ex:
            rep.ob('bevy', key, None, '%s: %s' % (type(ex).__name__, str(ex)[:100]))
            continue

        def check(st, ret):
            ls = [e for e in st.events() if e[0] == 'lists']
            if len(ls) != 1:
                raise ValueError('%d triangulations' % len(ls))
            if ls[0][1] != (FLAT if flat is TRUE else SHARED):
                return 'uses %s' % ls[0][1]
            if ls[0][2] != X('algo'):
                return 'triangulates with %s' % show(ls[0][2])[:60]
            ev = [e for e in st.events() if e[0] == 'bevy' and e[1].startswith('insert')]
            ixs = [e for e in ev if e[1] == 'insert_indices']
            if len(ixs) != 1:
                return 'inserts the indices %d times' % len(ixs)
            if [e[1] for e in st.events() if e[0] == 'bevy' and 'ind' in e[1]][-1] != 'insert_indices':
                return 'removes the indices again'
            x = ixs[0][2][0]
            if x.op != 'adt' or last(x.a[0]) != 'Indices':
                raise ValueError('indices %s' % show(x)[:80])
            lst = strip(x.a[3])
            if lst.op != 'array':
                raise ValueError('indices %s' % show(lst)[:80])
            got = [uncast(y) for y in lst.a]
            want = [mk('app', 'index', X('i%d' % k)) for k in range(3)]
            if got != want:
                if all(y.op == 'app' and y.a[0] == 'index' for y in got):
                    return 'the indices are %s' % ' '.join(show(y)[:20] for y in got)
                raise ValueError('indices %s' % show(lst)[:80])
            for c, v in st.conds.items():
                t = show(c)
                if x.a[1] == 'U16' and 'size_of' in t and v == 1 and c.op == 'bin' and c.a[0] == 'Eq' and any(isconst(y) and y.a[0] > 2 for y in c.a[1:]):
                    return 'indices of four or more bytes are stored in two'
            seen = {}
            for e in [e for e in ev if e[1] == 'insert_attribute']:
                at, val = e[2]
                n = show(at)
                k = 'position' if 'POSITION' in n else 'normal' if 'NORMAL' in n else None
                if k is None:
                    continue
                if val.op != 'adt':
                    raise ValueError('%s %s' % (k, show(val)[:60]))
                v = strip(val.a[3])
                if v.op != 'array':
                    raise ValueError('%s %s' % (k, show(v)[:60]))
                seen[k] = [strip(y) for y in v.a]
            for k, fn in (('position', 'pos'), ('normal', 'normal')):
                if k not in seen:
                    return 'sets no %s' % k
                if seen[k] != [mk('app', fn, X('vx%d' % i)) for i in range(2)]:
                    if all(y.op == 'app' and y.a[0] in ('pos', 'normal') for y in seen[k]):
                        return 'the %ss are %s' % (k, ' '.join(show(y)[:30] for y in seen[k]))
                    raise ValueError('%s %s' % (k, show(seen[k][0])[:80] if seen[k] else 'list'))
            return None
        r.ai.panics_ok = True
        pans = r.ai.panics
        r.ai.panics = []
        finish(rep, r, outs, fid, 'bevy', key, check)
    rep.floor('bevy', 2)


def uncast(t):
    n = 0
    while t.op == 'cast' and n < 6:
        t, n = t.a[-1], n + 1
    return strip(t)

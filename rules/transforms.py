"""M01: affine maps obey their laws; M02: payloads and meshes are transformed as a whole."""
import re
import mathx
from mathx import *
from mathx import loc
import linmodel
from geometry import at, fn, ref_arg, nd_vectors

TRAITS_INLINE = ('Vector', 'Vector2D', 'Vector3D', 'Vector4D', 'HasZero', 'TransformTrait', 'Quarternion')


def math(P, rep, rule, n):
    m = Math(P, rep, rule, concrete=True, consts={'D': n}, loop=160, maxpaths=400,
             skip=[(k, x) for k in CONTRACT for x in CONTRACT[k] if k.split('::')[-1] in TRAITS_INLINE]
             + [('transformable::Transformable', x) for x in CONTRACT['transformable::Transformable']],
             hooks={'*': linmodel.hook(n)})
    m.cval = linmodel.cval(None, n)
    return m


def atoms(name, n, k0):
    return [mk('p', k0 + i, '%s%d' % (name, i)) for i in range(n)]


def mat(name, n, k0):
    return mk('array', *[mk('array', *atoms('%s%d_' % (name, i), n, k0 + i * n)) for i in range(n)])


def vecval(m, ai, st, r):
    k = 0
    while r.op in ('ref', 'refto') and k < 4:
        r = ai.deref(st, r) if r.op == 'ref' else r.a[0]
        k += 1
    if r.op == 'app' and leaf(r.a[0]) == 'new' and len(r.a) > 2:
        r = mk('array', *r.a[1:])
    if r.op != 'array':
        return None
    try:
        return tuple(m.alg.norm(ai.snap(st, x)) for x in r.a)
    except Exception:
        return None


def polys(v):
    return tuple(at(x) for x in v.a)


class Kind:
    """one implementation of the transform trait with its symbolic general element"""
    def __init__(self, label, n, fns, general, rot=None, uniform=False):
        self.label, self.n, self.fns, self.general, self.rot, self.uniform = label, n, fns, general, rot, uniform


def kinds(P, rep, tier):
    out = []
    for im in P.impls:
        if not im.get('trait', '').endswith('transform::TransformTrait'):
            continue
        fns = {f.split('::')[-1]: f for f, t in im['items'] if f in P.fns}
        ty = str(im.get('self_ty'))
        if 'NdAffine' in ty:
            new = P.inherent('NdAffine', 'new')
            for n in (2, 3, 4):
                def general(k, n=n, new=new):
                    m = math(P, rep, 'law', n)
                    if not new:
                        return None
                    ai, outs = m.run(new, [mat('m%d_' % k, n, 100 * k), mk('array', *atoms('t%d_' % k, n, 100 * k + 50))], 'NdAffine::new')
                    return outs[0][1] if len(outs) == 1 else None
                out.append(Kind('NdAffine %dD' % n, n, fns, general))
        elif 'Affine2' in ty:
            out.append(Kind('Affine2', 2, fns, lambda k: linmodel.aff(mat('m%d_' % k, 2, 100 * k), mk('array', *atoms('t%d_' % k, 2, 100 * k + 50)))))
        elif 'Mat5' in ty:
            def general5(k, im=im):
                A, t = mat('m%d_' % k, 4, 100 * k), atoms('t%d_' % k, 4, 100 * k + 50)
                data = []
                for i in range(4):
                    data += list(A.a[i].a) + [t[i]]
                data += [num(0)] * 4 + [num(1)]
                return mat5(P, im, data)
            out.append(Kind('Mat5', 4, fns, general5))
        elif 'Transform' in ty:
            def general3(k, uniform=True):
                s = mk('p', 100 * k + 60, 's%d' % k)
                sc = mk('array', s, s, s) if uniform else mk('array', *atoms('s%d_' % k, 3, 100 * k + 60))
                return linmodel.trs(mk('array', *atoms('t%d_' % k, 3, 100 * k + 50)), mat('r%d_' % k, 3, 100 * k), sc)
            out.append(Kind('bevy Transform', 3, fns, general3, uniform=True))
    return out


def mat5(P, im, data):
    adt = im.get('self_adt')
    a = P.adts.get(adt) if adt else None
    if not a or len(a['variants']) != 1 or [f[0] for f in a['variants'][0]['fields']] != ['data']:
        return None
    return mk('adt', adt, a['variants'][0]['name'], ('data',), mk('array', *data))


def m01(P, rep, tier, cfg, rel):
    for K in kinds(P, rep, tier):
        laws(P, rep, K)
    rotations(P, rep)
    payloads(P, rep)
    defaults(P, rep)
    nd_vectors(P, rep, tier, ('Transformable',))


def known_of(*vs):
    out = set()

    def walk(t):
        if type(t) is T:
            if t.op == 'p':
                out.add(t)
            else:
                for x in t.a:
                    walk(x)
        elif isinstance(t, tuple):
            for x in t:
                walk(x)
    for v in vs:
        walk(v)
    return out


def laws(P, rep, K):
    n = K.n
    m = math(P, rep, 'law', n)
    p = mk('array', *atoms('p', n, 1))
    v = mk('array', *atoms('v', n, 11))
    u1 = mk('array', *([mk('p', 30, 'k')] * n))
    A, B = K.general(1), K.general(2)
    if A is None or B is None:
        rep.ob('law', K.label, None, 'representation not recognised')
        return
    known = known_of(p, v, u1, A, B)

    def call(name, args, st=None):
        """[(st, value)] of a trait method on values"""
        fid = K.fns.get(name)
        if not fid:
            return None
        st = (st or St()).copy()
        aa = []
        for i, x in enumerate(args):
            aa.append(ref_arg(st, '%s%d' % (name, i), x) if P.fns[fid]['inputs'][i].startswith('&') else x)
        ai, outs = m.run(fid, aa, '%s of %s' % (name, K.label), st=st)
        res = []
        for s, r in outs:
            k = 0
            while r.op in ('ref', 'refto') and k < 3:
                r = ai.deref(s, r) if r.op == 'ref' else r.a[0]
                k += 1
            res.append((ai, s, ai.snap(s, r)))
        return res

    def ev(name, args):
        r = call(name, args)
        if not r:
            return None
        vals = [x for _, s, x in r if m.facts(list(s.conds.items())) is not None]
        if any(x is not vals[0] for x in vals):
            return None
        return vals[0]

    def law(label, t, point, want, vector=False):
        """t applied to point is want (tuple of Poly)"""
        lab = '%s: %s' % (K.label, label)
        if t is None:
            rep.ob('law', lab, None, 'transform not understood')
            return
        outs = call('apply_vec' if vector else 'apply', [t, point])
        if not outs:
            rep.ob('law', lab, None, 'no path')
        for ai, s, r in outs or []:
            f = m.facts([(c, x) for c, x in s.conds.items() if not nan(c)])
            if f is None:
                continue
            got = vecval(m, ai, s, r)
            good = got is not None and mathx.agree(got, want)
            if not good and (got is None or not und_val(got, known)):
                good = None
            rep.ob('law', lab, good, 'maps to %s instead of %s' % (repr(got)[:160], repr(want)[:160]), (K.fns.get('apply'), loc(P, K.fns.get('apply'))))
    Pp, Vv, Uu = polys(p), polys(v), polys(u1)
    zero = mk('array', *[num(0)] * n)

    def image(t, point, vector=False):
        outs = call('apply_vec' if vector else 'apply', [t, point])
        vs = {repr(vecval(m, ai, s, r)): vecval(m, ai, s, r) for ai, s, r in outs or []}
        return list(vs.values())[0] if len(vs) == 1 else None
    Ap, A0 = image(A, p), image(A, zero)
    law('identity maps every point to itself', ev('identity', []), p, Pp)
    law('identity maps every direction to itself', ev('identity', []), p, Pp, True)
    law('translation adds its vector', ev('from_translation', [v]), p, tuple(x + y for x, y in zip(Pp, Vv)))
    law('translation keeps directions', ev('from_translation', [v]), p, Pp, True)
    law('scale multiplies the components', ev('from_scale', [v]), p, tuple(x * y for x, y in zip(Pp, Vv)))
    law('scale multiplies the components of directions', ev('from_scale', [v]), p, tuple(x * y for x, y in zip(Pp, Vv)), True)
    # the general element means matrix * point + translation
    if K.label.startswith('NdAffine') or K.label in ('Affine2', 'Mat5'):
        M = [[at(mk('p', 100 + i * n + j, 'm1_%d_%d' % (i, j))) for j in range(n)] for i in range(n)]
        t1 = [at(x) for x in atoms('t1_', n, 150)]
        lin = tuple(sum((M[i][j] * Pp[j] for j in range(n)), lift(0)) for i in range(n))
        law('point image is matrix times point plus translation', A, p, tuple(x + y for x, y in zip(lin, t1)))
        law('direction image is matrix times direction', A, p, lin, True)
    if Ap and A0:
        law('directions are images of differences', A, p, tuple(x - y for x, y in zip(Ap, A0)), True)
        law('adding a translation moves the image', ev('with_translation', [A, v]), p, tuple(x + y for x, y in zip(Ap, Vv)))
        AV = image(A, p, True)
        if AV:
            law('adding a translation keeps directions', ev('with_translation', [A, v]), p, AV, True)
            s, S = (u1, Uu) if K.uniform else (v, Vv)
            law('adding a scale scales the image', ev('with_scale', [A, s]), p, tuple(x * y for x, y in zip(Ap, S)))
            law('adding a scale scales directions', ev('with_scale', [A, s]), p, tuple(x * y for x, y in zip(AV, S)), True)
            # chain: first self, then other
            AB = ev('chain', [A, B])
            pa = rebuild(m, Ap)
            if pa is not None:
                want = image(B, pa)
                if want:
                    law('chaining applies the first, then the second transform', AB, p, want)
            va = rebuild(m, AV)
            if va is not None:
                want = image(B, va, True)
                if want:
                    law('chaining applies to directions alike', AB, p, want, True)


def rebuild(m, ps):
    """array term whose components normalise to the polynomials"""
    out = []
    for q in ps:
        t = None
        for (mono, vecs), c in q.d.items():
            if vecs:
                return None
            x = num(int(c)) if c == int(c) else None
            if x is None:
                return None
            for a, k in mono:
                for _ in range(k):
                    if type(a) is not T:
                        return None
                    x = mk('bin', 'Mul', x, a) if not (isconst(x) and x.a[0] == 1) else a
            t = x if t is None else mk('bin', 'Add', t, x)
        out.append(t if t is not None else num(0))
    return mk('array', *out)


def nan(c):
    return c.op == 'app' and 'is_nan' in str(c.a[0]) or c.op == 'not' and nan(c.a[0])


# ---------------------------------------------------------------- rotations of the nalgebra backend
def rotations(P, rep):
    new, tm = P.inherent('NdRotate', 'new'), P.inherent('NdRotate', 'to_matrix')
    fr = next((f for im in P.impls if im.get('trait', '').endswith('transform::TransformTrait') and 'NdAffine' in str(im.get('self_ty'))
               for f, t in im['items'] if f.endswith('::from_rotation')), None)
    if not (new and tm):
        return
    for n in (2, 3, 4):
        m = math(P, rep, 'rotation', n)
        R = mat('r', n, 100)
        p = mk('array', *atoms('p', n, 1))
        known = known_of(R, p)
        ai, outs = m.run(new, [R], 'rotation of %d dimensions' % n)
        for s, r in outs:
            s = s.copy()
            a2, o2 = m.run(tm, [ref_arg(s, 'rot', r)], 'matrix of a rotation of %d dimensions' % n, st=s)
            for s2, x in o2:
                good = same_mat(m, a2, s2, x, R)
                rep.ob('rotation', 'matrix of a rotation in %d dimensions' % n, good, 'is %s' % show(x)[:120], (tm, loc(P, tm)))
            if fr:
                a3, o3 = m.run(fr, [r], 'transform of a rotation of %d dimensions' % n, st=s)
                ap = next(f for im in P.impls if im.get('trait', '').endswith('transform::TransformTrait') and 'NdAffine' in str(im.get('self_ty'))
                          for f, t in im['items'] if f.endswith('::apply'))
                want = tuple(sum((at(R.a[i].a[j]) * at(p.a[j]) for j in range(n)), lift(0)) for i in range(n))
                for s3, x in o3:
                    s3 = s3.copy()
                    a4, o4 = m.run(ap, [ref_arg(s3, 'tr', x), p], 'rotated point', st=s3)
                    for s4, y in o4:
                        got = vecval(m, a4, s4, y)
                        good = mathx.agree(got, want) if got is not None and und_val(got, known) else None
                        rep.ob('rotation', 'points are rotated in %d dimensions' % n, good, 'maps to %s' % repr(got)[:120], (fr, loc(P, fr)))
    # arcs: the rotation between two vectors, in that order
    arc = P.inherent('NdRotate', 'from_rotation_arc')
    ang = P.inherent('NdRotate', 'from_angle')
    for n in (2, 3):
        m = math(P, rep, 'rotation', n)
        a, b = mk('array', *atoms('a', n, 1)), mk('array', *atoms('b', n, 11))
        for fid, args, want in ((arc, [a, b], linmodel.arc(n, a, b)), (ang if n == 2 else None, [mk('p', 1, 'angle')], linmodel.rot2(mk('p', 1, 'angle')))):
            if not fid:
                continue
            ai, outs = m.run(fid, args, 'rotation arc', keep_panics=fid == arc)
            for s, why, site, stack in (ai.panics if fid == arc else ()):
                rep.ob('rotation', 'arc between any two vectors in %d dimensions' % n, False if flipped(s, a, b) else None, 'panics %s(%s)' % (
                    'for opposite vectors ' if flipped(s, a, b) else '', str(why)[:60]), (fid, loc(P, fid)))
            for s, r in outs:
                if fid == arc and flipped(s, a, b):
                    s = s.copy()
                    a2, o2 = m.run(tm, [ref_arg(s, 'rot', r)], 'matrix of an arc', st=s)
                    for s2, x in o2:
                        good, msg = half_turn(m, a2, s2, x, a)
                        rep.ob('rotation', 'arc between opposite vectors', good, msg, (fid, loc(P, fid)))
                    continue
                s = s.copy()
                a2, o2 = m.run(tm, [ref_arg(s, 'rot', r)], 'matrix of an arc', st=s)
                for s2, x in o2:
                    rep.ob('rotation', '%s in %d dimensions' % (fid.split('::')[-1], n), same_mat(m, a2, s2, x, want), 'is %s' % show(x)[:120], (fid, loc(P, fid)))
    # the trait's constructors pass the arc and the angle on
    for im in P.impls:
        if not im.get('trait', '').endswith('transform::TransformTrait'):
            continue
        ty = str(im.get('self_ty'))
        fns = {f.split('::')[-1]: f for f, t in im['items'] if f in P.fns}
        n = 2 if 'Affine2' in ty else 3
        if 'Mat5' in ty or 'from_rotation_arc' not in fns:
            continue
        m = math(P, rep, 'rotation', n)
        a, b, p = mk('array', *atoms('a', n, 1)), mk('array', *atoms('b', n, 11)), mk('array', *atoms('p', n, 21))
        cases = [('from_rotation_arc', [a, b], linmodel.rot2(linmodel.angle_to(a, b)) if 'Affine2' in ty else linmodel.arc(n, a, b))]
        if 'Affine2' in ty:
            cases.append(('from_rotation', [mk('p', 1, 'angle')], linmodel.rot2(mk('p', 1, 'angle'))))
        elif 'NdAffine' not in ty:
            cases.append(('from_rotation', [mat('r', 3, 100)], mat('r', 3, 100)))
        for nm, args, R in cases:
            ai, outs = m.run(fns[nm], args, nm)
            want = tuple(sum((m.alg.norm(R.a[i].a[j]) * at(p.a[j]) for j in range(n)), lift(0)) for i in range(n))
            for s, r in outs:
                if nm == 'from_rotation_arc' and flipped(s, a, b):
                    continue
                s = s.copy()
                a2, o2 = m.run(fns['apply'], [ref_arg(s, 'tr', r), p], 'rotated point', st=s)
                for s2, y in o2:
                    got = vecval(m, a2, s2, y)
                    rep.ob('rotation', '%s of %s' % (nm, ty.split('::')[-1].split('<')[0]), None if got is None else True if got == want else (False if rotund(got) else None),
                           'maps to %s' % repr(got)[:160], (fns[nm], loc(P, fns[nm])))


def flipped(s, a, b):
    return any(c == linmodel.opposite(*x) and v == 1 for c, v in s.conds.items() for x in ((a, b), (b, a)))


def half_turn(m, ai, st, x, a):
    """opposite vectors are turned into each other by half a turn about an axis perpendicular to them"""
    k = 0
    while x.op in ('ref', 'refto') and k < 4:
        x = ai.deref(st, x) if x.op == 'ref' else x.a[0]
        k += 1
    x = ai.snap(st, x)
    e = x.a[0].a[0] if linmodel.is_mat(x) and len(x.a) == 3 else None
    if e is None or e.op != 'app' or e.a[0] != 'turn' or x != linmodel.turn(*e.a[3:]):
        if linmodel.is_mat(x) and all(c.op in ('c', 'const') for r in x.a for c in r.a):
            return False, 'is the same rotation for all opposite vectors'
        return None, 'is %s' % show(x)[:120]
    axis, angle = e.a[3:]
    v = [m.alg.norm(c) for c in axis.a]
    w = [m.alg.norm(c) for c in a.a]
    known = all(rotund(c) for c in v)
    d = sum((p * q for p, q in zip(v, w)), lift(0))
    if d != lift(0):
        return (False if known else None), 'turns about an axis that is not perpendicular to the vectors: %s' % repr(v)[:100]
    # an axis that is linear in the vector and depends on nothing else vanishes for some vector
    if len([c for c in st.conds if c != linmodel.opposite(a, a)]) <= 1 and 'pick' not in repr(v):
        return (False if known else None), 'the axis %s vanishes for some vectors' % repr(v)[:80]
    t = repr(m.alg.norm(angle))
    pi = re.search(r'(?<![A-Za-z_])(pi|PI)(?![A-Za-z_0-9])', t)
    if not pi:
        return (False if re.search(r'frac_pi|FRAC_PI|two_pi|TAU|tau', t) else None), 'turns by %s' % t[:60]
    if re.match(r'-?\d', t) and not re.match(r'-1 ', t):
        return False, 'turns by %s' % t[:60]
    return True, ''


def rotund(v):
    """only atoms of the rotation vocabulary"""
    return 'opq' not in repr(v)


def same_mat(m, ai, st, x, R):
    k = 0
    while x.op in ('ref', 'refto') and k < 4:
        x = ai.deref(st, x) if x.op == 'ref' else x.a[0]
        k += 1
    x = ai.snap(st, x)
    if not linmodel.is_mat(x) or len(x.a) != len(R.a):
        return None
    g = [[m.alg.norm(c) for c in r.a] for r in x.a]
    w = [[m.alg.norm(c) for c in r.a] for r in R.a]
    if g == w:
        return True
    return False if all(rotund(c) for r in g for c in r) else None


# ---------------------------------------------------------------- vertex payloads
def payloads(P, rep):
    """position, normal and texture coordinates of the vertex payloads under each operation"""
    for im in P.impls:
        if not im.get('trait', '').endswith('transformable::Transformable'):
            continue
        ty = str(im.get('self_ty'))
        if 'VertexPayload' not in ty:
            continue
        fns = {f.split('::')[-1]: f for f, t in im['items'] if f in P.fns}
        adt = im.get('self_adt')
        acc = {}
        for im2 in P.impls:
            if im2.get('self_adt') == adt and im2.get('trait', '').split('::')[-1] in ('HasPosition', 'HasNormal', 'HasUV'):
                for f, t in im2['items']:
                    acc[f.split('::')[-1]] = f
        for n in ((2, 3) if 'nalgebra' in ty or '<' in ty else (int(ty[-2]),) if ty[-2:-1].isdigit() else (3,)):
            payload(P, rep, adt, ty.split('::')[-1].split('<')[0], n, fns, acc)


def payload(P, rep, adt, name, n, fns, acc):
    m = math(P, rep, 'payload', n)
    a = P.adts.get(adt)
    if not a:
        rep.ob('payload', name, None, 'type not found')
        return
    flds = [f[0] for f in a['variants'][0]['fields']]
    if not set(flds) <= {'position', 'normal', 'uv'}:
        rep.ob('payload', name, None, 'fields %s' % flds)
        return
    dim = lambda f: 2 if f == 'uv' else n

    def sym(k):
        vals = {f: mk('array', *atoms('%s%d_' % (f, k), dim(f), 100 * k + 20 * i)) for i, f in enumerate(flds)}
        return vals, mk('adt', adt, a['variants'][0]['name'], tuple(flds), *[vals[f] for f in flds])
    A, VA = sym(1)
    B, VB = sym(2)
    v = mk('array', *atoms('v', n, 11))
    t = mk('p', 40, 't')
    T_ = None
    for K in kinds(P, rep, 'quick'):
        if K.n == n and (K.label.startswith('NdAffine') == ('PNU' in name)):
            T_ = K
            break
    if T_ is None:
        return
    g = T_.general(5)
    known = known_of(VA, VB, v, t, g)

    def image(x, vector=False):
        fid = T_.fns['apply_vec' if vector else 'apply']
        st = St()
        ai, outs = m.run(fid, [ref_arg(st, 'tr', g), x], 'image', st=st)
        return vecval(m, ai, outs[0][0], outs[0][1]) if outs else None
    addp = lambda p, q: tuple(x + y for x, y in zip(p, q))
    op = {
        'translate': ([v], {'position': addp(polys(A['position']), polys(v)), 'normal': polys(A['normal']) if 'normal' in A else None}),
        'scale': ([v], {'position': tuple(x * y for x, y in zip(polys(A['position']), polys(v)))}),
        'transform': ([g], {'position': image(A['position']), 'normal': image(A['normal'], True) if 'normal' in A else None}),
        'lerp': ([VB, t], {f: tuple(x + (y - x) * at(t) for x, y in zip(polys(A[f]), polys(B[f]))) for f in flds}),
    }
    for nm, (args, want) in op.items():
        fid = fns.get(nm)
        if not fid:
            continue
        st = St()
        aa = [ref_arg(st, 'self', VA)]
        for i, x in enumerate(args):
            aa.append(ref_arg(st, i, x) if P.fns[fid]['inputs'][i + 1].startswith('&') else x)
        ai, outs = m.run(fid, aa, '%s %s' % (name, nm), st=st)
        for s, r in outs:
            if m.facts([(c, x) for c, x in s.conds.items() if not nan(c)]) is None:
                continue
            fin = ai.snap(s, ai.deref(s, aa[0]))
            for f in flds:
                lab = '%s of %s in %d dimensions: %s' % (nm, name, n, f)
                w = want.get(f) or (polys(A[f]) if f == 'uv' else None)
                if w is None:
                    continue
                got = fin.a[3 + flds.index(f)] if fin.op == 'adt' else None
                got = vecval(m, ai, s, got) if got is not None else None
                rep.ob('payload', lab, None if got is None else True if got == w else (False if und_val(got, known) else None),
                       'becomes %s instead of %s' % (repr(got)[:120], repr(w)[:120]), (fid, loc(P, fid)))
            if r.op == 'ref' and r is not aa[0] and ai.deref_place(r) is not ai.deref_place(aa[0]):
                rep.ob('payload', '%s of %s returns the payload' % (nm, name), None, show(r)[:80])
    # accessors
    for f, get, set_ in (('position', 'pos', 'set_pos'), ('normal', 'normal', 'set_normal'), ('uv', 'uv', 'set_uv')):
        if f not in flds:
            continue
        x = mk('array', *atoms('x', dim(f), 60))
        if get in acc:
            st = St()
            ai, outs = m.run(acc[get], [ref_arg(st, 'self', VA)], get, st=st)
            for s, r in outs:
                got = vecval(m, ai, s, r)
                rep.ob('payload', '%s of %s in %d dimensions' % (get, name, n), None if got is None else got == polys(A[f]), 'is %s' % repr(got)[:100], (acc[get], loc(P, acc[get])))
        if set_ in acc:
            st = St()
            sr = ref_arg(st, 'self', VA)
            ai, outs = m.run(acc[set_], [sr, x], set_, st=st)
            for s, r in outs:
                fin = ai.snap(s, ai.deref(s, sr))
                for f2 in flds:
                    got = vecval(m, ai, s, fin.a[3 + flds.index(f2)]) if fin.op == 'adt' else None
                    want = polys(x) if f2 == f else polys(A[f2])
                    rep.ob('payload', '%s of %s in %d dimensions: %s' % (set_, name, n, f2), None if got is None else got == want, 'is %s' % repr(got)[:100], (acc[set_], loc(P, acc[set_])))
    if 'from_pos' in acc:
        x = mk('array', *atoms('x', n, 60))
        ai, outs = m.run(acc['from_pos'], [x], 'from_pos')
        for s, r in outs:
            got = vecval(m, ai, s, r.a[3 + flds.index('position')]) if r.op == 'adt' else None
            rep.ob('payload', 'from_pos of %s in %d dimensions' % (name, n), None if got is None else got == polys(x), 'is %s' % repr(got)[:100], (acc['from_pos'], loc(P, acc['from_pos'])))


# ---------------------------------------------------------------- derived operations
PAIR = {'transformed': 'transform', 'translated': 'translate', 'scaled': 'scale', 'rotated': 'rotate', 'lerped': 'lerp'}
FROM = {'translate': 'from_translation', 'scale': 'from_scale', 'rotate': 'from_rotation'}


def defaults(P, rep):
    """copies are transformed like the original in place; translate, scale and rotate are transforms"""
    for nm, base in list(PAIR.items()) + list(FROM.items()):
        for fid, ty in defs(P, 'transformable::Transformable', nm):
            if ty is not None:
                continue
            m = Math(P, rep, 'derived', skip=[('transformable::Transformable', nm)])
            args, at_, st = sym_args(P, fid)
            ai, outs = m.run(fid, args, nm, st=st)
            for s, r in outs:
                slf = ai.snap(s, ai.deref(s, args[0]))
                res = slf if nm in FROM else r
                if nm in FROM:
                    want = mk('app', 'Transformable::transform', at_[0], mk('app', 'TransformTrait::' + base, at_[1]))
                else:
                    want = mk('app', 'Transformable::' + base, *at_)
                    if slf is not at_[0]:
                        rep.ob('derived', nm + ' keeps the original', False, 'the original becomes %s' % show(slf)[:80], (fid, loc(P, fid)))
                res = m.alg.strip(res)
                good = same_term(m, res, want)
                if not good and res.op == 'app' and leaf(res.a[0]) in PAIR.values():
                    good = False
                elif not good:
                    good = False if res in at_ else None
                rep.ob('derived', nm, good, 'is %s' % show(res)[:120], (fid, loc(P, fid)))


def same_term(m, a, b):
    a, b = m.alg.strip(a), m.alg.strip(b)
    if a is b:
        return True
    if a.op == b.op and len(a.a) == len(b.a):
        return all((same_term(m, x, y) if type(x) is T and type(y) is T else x == y) for x, y in zip(a.a, b.a))
    return False




# ---------------------------------------------------------------- whole meshes
MESHOPS = ('transform', 'translate', 'rotate', 'scale')


def m02(P, rep, tier, cfg, rel):
    from queries import Run, dv_hooks, SELF, untag
    R = Run(P, rep, 'mesh')
    x = mk('p', 3, 'x')
    H = dict(dv_hooks(P))

    def rec(ai, st, c, args, site):
        st = st.copy()
        nm = models.short(c['name']).split('::')[-1]
        if args[0].op == 'ref':
            a = ai.snap(st, args[1]) if len(args) > 1 else None
            st.event('tf', nm, args[0].a[0], a, site)
            ai.write(st, args[0].a[0], mk('app', 'tf', nm, ai.read(st, args[0].a[0]), a), site)
        else:
            st.event('tf', nm, args[0], ai.snap(st, args[1]), site)
        return [(st, args[0])]
    for t in P.traits.values():
        if t['id'].endswith('transformable::Transformable'):
            for m in t['methods']:
                if m['name'] in MESHOPS:
                    H[m['id']] = rec
    STORES = ('.vertices', '.halfedges', '.faces')
    for nm in MESHOPS:
        for copy in (False, True):
            name = nm if not copy else {'transform': 'transformed', 'translate': 'translated', 'rotate': 'rotated', 'scale': 'scaled'}[nm]
            q = R.q('TransformableMesh', name, [SELF, x], extra_hooks=H, loop=1)
            for st, r, k in R.feasible(q) if q else ():
                tf = [ev for ev in st.events() if ev[0] == 'tf']
                where = [show(ev[2]) for ev in tf]
                for ev in tf:
                    val = q.val(st, ev[3]) if ev[3].op in ('ref', 'refto') else ev[3]
                    val = val.a[0] if val.op == 'refto' else val
                    good = ev[1] == nm and val is x
                    clean = ev[1] in MESHOPS and (val.op in ('p', 'c') or val.op == 'app' and leaf(val.a[0]) in ('identity', 'default'))
                    R.ob(q, '%s applies to each payload what it was given' % name, good or (False if clean and not good and ev[1] == nm else None),
                         'applies %s with %s' % (ev[1], show(val)[:60]))
                R.ob(q, '%s treats no payload twice' % name, len(where) == len(set(where)), 'treats %s' % where[:4])
                root = {str(show(ev[2])).split('.')[0] for ev in tf}
                R.ob(q, '%s includes the payload of the mesh' % name, any(w.endswith(r_ + '.payload') and '[' not in w for w in where for r_ in root) or (None if not tf else False),
                     'treats only %s' % where[:4])
                for s in STORES:
                    ex, chains = {}, set()
                    for c, v in st.conds.items():
                        if c.op == 'exhausted':
                            b, d = c.a[0], 0
                            while b.op == 'adv' or b.op == 'it' and b.a[0] == 'adv':
                                b, d = b.a[-1] if b.op == 'it' else b.a[0], d + 1
                            ch = chain(b, s)
                            if ch is not None:
                                ex[d] = v
                                chains |= ch
                    drop = [c for c in st.conds if c.op == 'exhausted' and drops(c.a[0], s)]
                    done = [w for w in where if ('%s[' % s) in w and w.endswith('].payload')]
                    star = any('*' in w.split('[', 1)[1] for w in done)
                    if drop:
                        R.ob(q, '%s covers all %s' % (name, s[1:]), False, 'leaves out some: %s' % show(drop[0])[:120])
                        continue
                    if not ex or star:
                        R.ob(q, '%s covers all %s' % (name, s[1:]), True if star else (None if done or weird(st) else False), 'no element of this kind is treated')
                        continue
                    full = any(v == 1 for v in ex.values())
                    if chains & {'filter', 'filter_map', 'take_while', 'skip_while', 'map_while'}:
                        full = full and not st.conds.keys() - {c for c in st.conds if c.op == 'exhausted'}
                        if not full:
                            R.ob(q, '%s covers all %s' % (name, s[1:]), None if weird(st) else False, 'covers only those selected by %s' %
                                 [show(c)[:80] for c in st.conds if c.op != 'exhausted'])
                            continue
                    R.ob(q, '%s covers all %s' % (name, s[1:]), True if full and len(done) == max(ex) else (None if weird(st) else False),
                         '%d of the %d elements met are treated' % (len(done), max(ex)))
                if copy:
                    res = q.ai.snap(st, r) if r.op == 'ref' else r
                    R.ob(q, '%s returns the changed copy' % name, has_tf(res) or (None if res.op not in ('p', 'deref', 'ini') and not plainself(res) else False), 'returns %s' % show(res)[:80])
                    R.ob(q, '%s keeps the original' % name, not any(contains(ev[2], lambda y: y is SELF) and not w.startswith('local') for ev, w in zip(tf, where)) or None, 'changes %s' % where[:2])
    m02_curves(P, rep)
    rep.floor('mesh', 40)


def plainself(t):
    return show(t) in ('*self', 'self')


def has_tf(t):
    return contains(t, lambda y: y.op == 'app' and y.a[0] == 'tf')


def chain(b, store):
    """the adaptors between an iterator and the element store it draws from, or None"""
    ch = set()
    while type(b) is T:
        if b.op == 'it' and b.a[0] == 'ref':
            return ch if show(b).endswith(store + ')') else None
        if b.op == 'it':
            ch.add(b.a[0])
        nxt = [x for x in b.a if type(x) is T and x.op in ('it', 'adv', 'coll')]
        if not nxt:
            return None
        b = nxt[0]
    return None


def drops(b, store):
    """the iterator leaves out elements of the store whatever they contain"""
    lost = False
    while type(b) is T and (b.op == 'it' or b.op == 'adv'):
        if b.op == 'it' and b.a[0] in ('step_by', 'skip', 'take') and not (isconst(b.a[-1]) and b.a[-1].a[0] == (1 if b.a[0] == 'step_by' else 0)):
            lost = True
        if b.op == 'it' and b.a[0] == 'ref':
            return lost and show(b).endswith(store + ')')
        nxt = [x for x in b.a if type(x) is T and x.op in ('it', 'adv')]
        if not nxt:
            return False
        b = nxt[0]
    return False


def weird(st):
    """the path depends on iterators or values outside the vocabulary"""
    from queries import PLAIN
    for c in st.conds:
        if c.op != 'exhausted' and contains(c, lambda y: y.op not in PLAIN and y.op not in ('star', 'tag', 'adv', 'coll', 'closure', 'MAX', 'L') and not (y.op == 'app' and len(y.a) == 1)):
            return True
    return any(ev[0] not in ('assume', 'tf', 'w') for ev in st.events())


def m02_curves(P, rep):
    """control points of a curved edge are transformed like points"""
    from queries import SELF
    enum = next((a for i, a in P.adts.items() if i.endswith('::CurvedEdgeType')), None)
    pay = next((a for i, a in P.adts.items() if i.endswith('::CurvedEdgePayload')), None)
    fid = next((f for f, ty in defs(P, 'transformable::Transformable', 'transform') if ty and 'CurvedEdgePayload' in ty), None)
    if not (enum and pay and fid):
        rep.ob('curve', 'control points', None, 'curved edge payload not recognised')
        return
    x = mk('p', 3, 'x')
    fl = [f[0] for f in pay['variants'][0]['fields']]
    for v in enum['variants']:
        pts = [mk('p', 10 + i, 'c%d' % i) for i in range(len(v['fields']))]
        names = tuple(f[0] for f in v['fields'])
        cv = mk('adt', enum['id'], v['name'], names, *pts)
        val = mk('adt', pay['id'], pay['variants'][0]['name'], tuple(fl), *[cv if f == 'curve' else mk('p', 30, f) for f in fl])
        st = St()
        slf = ref_arg(st, 'self', val)
        m = Math(P, rep, 'curve', skip=[])
        ai, outs = m.run(fid, [slf, ref_arg(st, 'x', x)], 'curve ' + v['name'], st=st)
        for s, r in outs:
            if m.facts(list(s.conds.items())) is None:
                continue
            got = ai.snap(s, ai.deref(s, slf))
            lab = 'control points of a %s edge' % v['name']
            if 'curve' not in fl or got.op != 'adt':
                rep.ob('curve', lab, None, show(got)[:100])
                continue
            c = got.a[3 + fl.index('curve')]
            if c.op != 'adt' or c.a[1] != v['name']:
                rep.ob('curve', lab, False if c.op == 'adt' else None, 'becomes %s' % show(c)[:100], (fid, loc(P, fid)))
                continue
            for i, q in enumerate(c.a[3:]):
                q = m.alg.strip(q)
                good = q.op == 'app' and leaf(q.a[0]) in ('transform', 'apply') and [m.alg.strip(y) for y in q.a[1:]] in ([pts[i], x], [x, pts[i]])
                rep.ob('curve', lab, good or (False if q in pts or q.op == 'app' and leaf(q.a[0]) in ('transform', 'apply', 'apply_vec') else None),
                       'point %d becomes %s' % (i, show(q)[:100]), (fid, loc(P, fid)))

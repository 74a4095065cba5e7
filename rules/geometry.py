"""B01: vector, segment and polygon formulas."""
from mathx import *
from mathx import loc
import linmodel

at = Poly.atom


def X(v): return at(('x', v))
def Y(v): return at(('y', v))
def Z(v): return at(('z', v))
def fn(nm, *ps): return at(('app', nm) + tuple(lift(p).key() for p in ps))
def sub(p, q): return lambda ax: ax(p) - ax(q)


def cross2(a, b):
    """perpendicular dot product of two functions axis -> Poly"""
    return a(X) * b(Y) - a(Y) * b(X)


def b01(P, rep, tier, cfg, rel):
    vecs = set()
    m = Math(P, rep, 'formula', vec=lambda a: a in vecs, concrete=True)

    def each(trait, name, nvec, fn_, **kw):
        """check every body of a trait method: fn_(atoms) -> (kind, expectation)"""
        for fid, ty in defs(P, trait, name):
            args, atoms, st = sym_args(P, fid)
            vecs.update(atoms[:nvec])
            fn_(fid, args, atoms, st, '%s %s' % (name, 'default' if ty is None else short_ty(ty)))

    def poly(trait, name, nvec, want):
        each(trait, name, nvec, lambda fid, args, at_, st, lab: formula(m, fid, args, want(*at_), lab, known=set(at_), st=st))

    def boolean(trait, name, nvec, want, pre=None):
        each(trait, name, nvec, lambda fid, args, at_, st, lab: bool_fn(m, fid, args, want(*at_), lab, known=set(at_), st=st, pre=pre))
    V2 = 'vector2d::Vector2D'
    V3 = 'vector3d::Vector3D'
    poly(V2, 'perp_dot', 2, lambda a, b: X(a) * Y(b) - Y(a) * X(b))
    poly(V2, 'barycentric_sign', 3, lambda a, b, c: cross2(sub(a, c), sub(b, c)))
    boolean(V2, 'convex', 3, lambda c, p, n: lambda s: s(cross2(sub(c, p), sub(n, c))) > 0)
    boolean(V2, 'collinear', 3, lambda c, a, b, eps: lambda s: s(at(eps) - absv(cross2(sub(b, a), sub(c, a)))) >= 0)
    poly(V2, 'angle_tri', 3, lambda c, a, b: fn('angle_between', at(a) - at(c), at(b) - at(c)))

    def inside(p, a, b, c):
        def f(s):
            d = [s(cross2(sub(u, w), sub(p, w))) for u, w in ((b, a), (c, b), (a, c))]
            return all(x > 0 for x in d) or all(x < 0 for x in d)
        return f
    boolean(V2, 'is_inside_triangle', 4, inside)
    new2 = lambda p, q: fn('new', p, q)
    new3 = lambda p, q, r: fn('new', p, q, r)
    poly(V2, 'xy', 1, lambda a: new2(X(a), Y(a)))
    poly(V2, 'yx', 1, lambda a: new2(Y(a), X(a)))
    AX = {'x': X, 'y': Y, 'z': Z}
    for sw in ('xyz', 'xzy', 'yxz', 'yzx', 'zxy', 'zyx'):
        poly(V3, sw, 1, lambda a, sw=sw: new3(*[AX[c](a) for c in sw]))
    poly('vector4d::Vector4D', 'xyzw', 1, lambda a: fn('new', X(a), Y(a), Z(a), at(('w', a))))
    poly(V3, 'normal', 3, lambda c, p, n: m.alg.cross(at(c) - at(p), at(n) - at(p)))
    S = 'scalar::Scalar'
    poly(S, 'lerp', 0, lambda a, b, t: at(a) + (at(b) - at(a)) * at(t))
    poly(S, 'det3', 0, lambda a, b, c, d, e, f, g, h, i: at(a) * (at(e) * at(i) - at(f) * at(h)) - at(b) * (at(d) * at(i) - at(f) * at(g))
         + at(c) * (at(d) * at(h) - at(e) * at(g)))
    poly(S, 'clamp', 0, lambda x, lo, hi: lambda s: None if s(at(hi) - at(lo)) < 0 else at(lo) if s(at(x) - at(lo)) < 0 else at(hi) if s(at(x) - at(hi)) > 0 else at(x))
    boolean(S, 'is_about', 0, lambda a, b, eps: lambda s: s(at(eps) - absv(at(a) - at(b))) > 0)
    segments(P, rep, m, vecs)
    polygons(P, rep, tier)
    vectors3(P, rep, m, vecs, each)
    nd_vectors(P, rep, tier)
    scalars(P, rep)
    summation(P, rep, tier)
    delegates(P, rep, tier)


def ref_arg(st, i, v):
    root = mk('H', 'arg', i)
    st.store[root] = {(): v}
    return mk('ref', place(root))


# ---------------------------------------------------------------- segments
def segments(P, rep, m, vecs):
    new = P.inherent('LineSegment2D', 'new')
    if not new:
        rep.ob('formula', 'segment', None, 'constructor not found')
        return

    def seg(n, a, b):
        vecs.update((a, b))
        ai, outs = m.run(new, [a, b], 'segment new')
        return outs[0][1] if len(outs) == 1 else None

    def run(name, want, extra=(), result=None, known=()):
        fid = P.inherent('LineSegment2D', name)
        if not fid:
            return
        a, b, c, d = [mk('p', k, nm) for k, nm in enumerate(('start', 'end', 'start2', 'end2'))]
        st = St()
        s1, s2 = seg(0, a, b), seg(1, c, d)
        if s1 is None or s2 is None:
            rep.ob('formula', 'segment ' + name, None, 'constructor forks')
            return
        args = [ref_arg(st, 0, s1)]
        if extra:
            args += [ref_arg(st, 1, s2)] + list(extra)
        formula(m, fid, args, want(a, b, c, d), 'segment ' + name, known={a, b, c, d} | set(extra), st=st, result=result)
    run('start', lambda a, b, c, d: at(a))
    run('end', lambda a, b, c, d: at(b))
    run('length', lambda a, b, c, d: fn('sqrt', m.alg.dot(at(a) - at(b), at(a) - at(b))))
    run('length_squared', lambda a, b, c, d: m.alg.dot(at(a) - at(b), at(a) - at(b)))
    run('midpoint', lambda a, b, c, d: (at(a) + at(b)) * Poly.const(Fraction(1, 2)))
    run('direction', lambda a, b, c, d: fn('normalize', at(b) - at(a)))
    e1, e2 = mk('p', 8, 'eps'), mk('p', 9, 'eps2')

    def inter(a, b, c, d):
        r, s_, q = sub(b, a), sub(d, c), sub(c, a)
        rxs = cross2(r, s_)
        t = cross2(q, s_) / rxs
        u = cross2(q, r) / rxs

        def f(s):
            if s(at(e1) - absv(rxs)) >= 0:
                return 'none'
            for x in (t, u):
                if s(x + at(e2)) < 0 or s(x - at(e2) - 1) > 0:
                    return 'none'
            return ('some', at(a) + (at(b) - at(a)) * t)
        return f
    run('intersect_line', inter, (e1, e2), result=opt_result(m))


def opt_result(m):
    def f(ai, st, r):
        if r is NONE:
            return 'none'
        if r.op == 'adt' and r.a[1] == 'Some':
            return ('some', m.val(ai, st, r.a[3]))
        return None
    return f


# ---------------------------------------------------------------- polygons
def polygons(P, rep, tier):
    for n in (3, 4) if tier == 'quick' else (3, 4, 5):
        pts = [mk('p', 100 + k, 'p%d' % k) for k in range(n)]
        q = mk('p', 99, 'point')
        vecs = set(pts) | {q}
        arr = mk('array', *pts)

        def hook(ai, st, c, rid, a, site):
            l = c['name'].split('::')[-1]
            if 'Polygon' in c['name'] and l == 'points':
                return [(st, a[0])]
            if 'Polygon' in c['name'] and l == 'num_points':
                return [(st, num(n))]

        def math(*skip):
            return Math(P, rep, 'polygon', vec=lambda a: a in vecs, concrete=True, loop=n + 1, skip=[('polygon::Polygon', s) for s in skip],
                        hooks={'*': hook})

        def each(name, skip, go):
            m = math(*skip)
            for fid, ty in defs(P, 'polygon::Polygon', name):
                args, atoms, st = sym_args(P, fid)
                args[0] = ref_arg(st, 0, arr)
                go(m, fid, args, st, '%s of %d points %s' % (name, n, '' if ty is None else short_ty(ty)))
        A2 = lift(0)
        for i in range(n):
            A2 = A2 + cross2(lambda ax, i=i: ax(pts[i]), lambda ax, i=i: ax(pts[(i + 1) % n]))
        half = Poly.const(Fraction(1, 2))
        allk = ('signed_area', 'area', 'contains', 'centroid')
        each('signed_area', allk, lambda m, f, a, st, lab: formula(m, f, a, A2 * half, lab, known=vecs, st=st))
        each('area', allk, lambda m, f, a, st, lab: formula(m, f, a, absv(A2 * half), lab, known=vecs, st=st))
        each('is_ccw', allk, lambda m, f, a, st, lab: bool_fn(m, f, a, lambda s: s(A2 * half) >= 0, lab, known=vecs, st=st))
        each('is_cw', allk, lambda m, f, a, st, lab: bool_fn(m, f, a, lambda s: s(A2 * half) <= 0, lab, known=vecs, st=st))
        mean = lift(0)
        for p in pts:
            mean = mean + at(p)
        each('centroid', allk, lambda m, f, a, st, lab: formula(m, f, a, mean * Poly.const(Fraction(1, n)), lab, known=vecs, st=st))

        def winding(s):
            w = 0
            for i in range(n):
                a, b = pts[i], pts[(i + 1) % n]
                if s(Y(q) - Y(a)) >= 0:
                    if s(Y(b) - Y(q)) > 0 and s(cross2(sub(b, a), sub(q, a))) > 0:
                        w += 1
                elif s(Y(b) - Y(q)) <= 0 and s(cross2(sub(b, a), sub(q, a))) < 0:
                    w -= 1
            return w != 0

        if n <= 4:
            each('contains', allk, lambda m, f, a, st, lab: contains_ob(m, f, [a[0], ref_arg(st, 7, q)], st, lab, winding, pts, q, vecs))
        for i, j in [(i, j) for i in range(n) for j in range(n)]:
            if j == i:
                want = lambda s: False
            elif (i - j) % n in (1, n - 1):
                want = lambda s: True
            else:
                continue
            each('valid_diagonal', ('num_points', 'points'), lambda m, f, a, st, lab: bool_fn(m, f, [a[0], num(i), num(j)], want, '%s %d-%d' % (lab, i, j), known=vecs, st=st))


def contains_ob(m, fid, args, st, lab, winding, pts, q, vecs):
    bool_fn(m, fid, args, winding, lab, known=vecs, st=st)


# ---------------------------------------------------------------- 3d vectors
def vectors3(P, rep, m, vecs, each):
    S3 = 'vector3d::Spherical3d'
    R, PH, TH = [lambda v, nm=nm: fn(nm, at(v)) for nm in ('r', 'phi', 'theta')]
    f1 = lambda nm, p: fn(nm, p)

    def cart(fid, args, A, st, lab):
        v = A[0]
        r, ph, th = R(v), PH(v), TH(v)
        formula(m, fid, args, fn('new', r * f1('sin', th) * f1('cos', ph), r * f1('sin', th) * f1('sin', ph), r * f1('cos', th)), lab,
                known=set(A), st=st)
    each(S3, 'cartesian', 1, cart)

    def sph(fid, args, A, st, lab):
        v = A[0]
        r = fn('sqrt', m.alg.dot(at(v), at(v)))
        formula(m, fid, args, lambda s: fn('new', r, fn('atan2', Y(v), X(v)), lift(0) if s(r) == 0 else fn('acos', Z(v) / r)), lab,
                known=set(A) | {('app', 'sqrt')}, st=st)
    each('vector3d::Vector3D', 'spherical', 1, sph)
    EPS = at(('const', 'EPS'))

    def slerp(fid, args, A, st, lab):
        a, b, t = A

        def want(s):
            d = m.alg.dot(at(a), at(b))
            d = lift(-1) if s(d + 1) < 0 else lift(1) if s(d - 1) > 0 else d
            th = fn('acos', d)
            if s(fn('sqrt', EPS) - absv(th)) > 0:
                return at(a)
            return (at(a) * fn('sin', (1 - at(t)) * th) + at(b) * fn('sin', at(t) * th)) / fn('sin', th)
        formula(m, fid, args, want, lab, known=set(A), st=st)
    each('vector3d::Vector3D', 'slerp', 2, slerp)
    for n in (2, 3):
        mm = Math(P, rep, 'formula', vec=lambda a: a in vecs, concrete=True, consts={'D': n},
                  hooks={'*': lambda ai, st, c, rid, a, site: [(st, FALSE)] if c['local'] and c['name'].endswith('::is_about') else None},
                  skip=[('vector::Vector', 'angle_between')])
        for fid, ty in defs(P, 'vector::Vector', 'angle_between'):
            args, A, st = sym_args(P, fid)
            a, b = A
            vecs.update((a, b))

            def want(s):
                d = m.alg.dot(at(a), at(b))
                if n == 2:
                    return fn('atan2', X(a) * Y(b) - Y(a) * X(b), d)
                q = d / (fn('sqrt', m.alg.dot(at(a), at(a))) * fn('sqrt', m.alg.dot(at(b), at(b))))
                return fn('acos', lift(-1) if s(q + 1) < 0 else lift(1) if s(q - 1) > 0 else q)
            formula(mm, fid, args, want, 'angle_between in %d dimensions %s' % (n, '' if ty is None else short_ty(ty)), known={a, b}, st=st)
    # Newell's method: the area vector of a closed polygon of n points
    for fid, ty in defs(P, 'vector3d::Vector3DIteratorExt', 'normal'):
        for n in (3, 4):
            pts = [mk('p', 100 + k, 'p%d' % k) for k in range(n)]
            vs = set(pts)
            mm = Math(P, rep, 'formula', vec=lambda a: a in vs, concrete=True, loop=n + 1)
            half = Poly.const(Fraction(1, 2))
            want = [lift(0)] * 3
            for i in range(n):
                a, b = pts[i], pts[(i + 1) % n]
                for k, (p, q) in enumerate(((Y, Z), (Z, X), (X, Y))):
                    want[k] = want[k] + half * (p(a) * q(b) - q(a) * p(b))

            def comps(ai, st, r):
                p = mm.val(ai, st, r)
                return tuple(mm.alg.compp(p, ax) for ax in 'xyz')
            formula(mm, fid, [mk('it', 'val', mk('array', *pts))], tuple(want), 'normal of %d points' % n, known=vs, result=comps)


# ---------------------------------------------------------------- component-wise vectors
DIMS = {'Vector2D': (2,), 'Vector3D': (3,), 'Vector4D': (4,)}


def nd_vectors(P, rep, tier, only=None):
    """implementations for the vectors of linear algebra libraries, in every dimension they cover"""
    for i in P.impls:
        tr = i.get('trait', '').split('::')[-1]
        ty = str(i.get('self_ty'))
        if tr not in (only or ('Vector', 'Vector2D', 'Vector3D', 'Vector4D', 'HasZero', 'Transformable')):
            continue
        fns = {f.split('::')[-1]: f for f, t in i['items'] if f in P.fns}
        if 'nalgebra::Matrix' in ty:
            dims = DIMS.get(tr, (1, 2, 3, 4))
        elif ty.startswith('bevy') and ty[-5:-1] in ('::Ve', ':Vec') and ty[-1].isdigit() or ty[-4:-1] == 'Vec' and ty[-1].isdigit():
            dims = (int(ty[-1]),)
        else:
            continue
        for n in dims:
            nd_vector(P, rep, fns, n, 'nalgebra' if 'nalgebra' in ty else 'bevy')


def nd_vector(P, rep, fns, n, lib):
    u = [mk('p', 10 + k, 'a%d' % k) for k in range(n)]
    v = [mk('p', 20 + k, 'b%d' % k) for k in range(n)]
    s, t, e, h = mk('p', 30, 's'), mk('p', 31, 't'), mk('p', 32, 'u'), mk('p', 33, 'h')
    known = set(u) | set(v) | {s, t, e, h}
    # the vector operations of the implementation itself are analysed in place, those of its scalars stay symbolic
    m = Math(P, rep, 'components', concrete=True, consts={'D': n}, loop=n + 1, skip=[(k, x) for k in CONTRACT for x in CONTRACT[k]
             if k.split('::')[-1] in ('Vector', 'Vector2D', 'Vector3D', 'Vector4D', 'HasZero')] + [('transformable::Transformable', x)
             for x in CONTRACT['transformable::Transformable']], hooks={'*': linmodel.hook(n)})
    m.cval = linmodel.cval(None, n)
    A = [at(x) for x in u]
    B = [at(x) for x in v]
    dot = lambda p, q: sum((x * y for x, y in zip(p, q)), lift(0))
    D_ = [x - y for x, y in zip(A, B)]
    sq = lambda p: fn('sqrt', p)
    SP = [at(x) for x in (s, t, e, h)]
    pad = lambda xs: tuple((list(xs) + [lift(0)] * 4)[:n])
    U, V = mk('array', *u), mk('array', *v)

    def vecres(ai, st, r):
        k = 0
        while r.op in ('ref', 'refto') and k < 4:
            r = ai.deref(st, r) if r.op == 'ref' else r.a[0]
            k += 1
        if r.op == 'array':
            return tuple(m.alg.norm(ai.snap(st, x)) for x in r.a)
        if r.op == 'repeat':
            return (m.alg.norm(r.a[0]),) * n
        if n == 1 and r.op != 'app':
            return (m.alg.norm(r),)
        return None
    SPEC = {
        'distance_squared': ('uv', dot(D_, D_)), 'distance': ('uv', sq(dot(D_, D_))),
        'length_squared': ('u', dot(A, A)), 'length': ('u', sq(dot(A, A))), 'dot': ('uv', dot(A, B)),
        'x': ('u', A[0]), 'y': ('u', pad(A)[1] if n > 1 else lift(0)), 'z': ('u', A[2] if n > 2 else lift(0)), 'w': ('u', A[3] if n > 3 else lift(0)),
        'splat': ('s', (SP[0],) * n), 'from_x': ('s', pad(SP[:1])), 'from_xy': ('st', pad(SP[:2])), 'from_xyz': ('ste', pad(SP[:3])),
        'translate': ('uv', tuple(x + y for x, y in zip(A, B))), 'scale': ('uv', tuple(x * y for x, y in zip(A, B))),
        'lerp': ('uvt', tuple(x + (y - x) * SP[1] for x, y in zip(A, B))),
        'zero': ('', (lift(0),) * n),
        'normalize': ('u', lambda g: None if g(sq(dot(A, A))) == 0 else tuple(x / sq(dot(A, A)) for x in A)),
    }
    if n == 2:
        SPEC['perp_dot'] = ('uv', A[0] * B[1] - A[1] * B[0])
        SPEC['new'] = ('st', tuple(SP[:2]))
    if n == 3:
        SPEC['cross'] = ('uv', tuple(A[p] * B[q] - A[q] * B[p] for p, q in ((1, 2), (2, 0), (0, 1))))
        SPEC['new'] = ('ste', tuple(SP[:3]))
    if n == 4:
        SPEC['new'] = ('steh', tuple(SP))
    BOOL = {
        'is_zero': ('u', lambda g: all(g(x) == 0 for x in A)),
        'is_about': ('uvs', lambda g: all(g(SP[0] - absv(x - y)) > 0 for x, y in zip(A, B))),
    }
    for name, fid in sorted(fns.items()):
        sp = SPEC.get(name) or BOOL.get(name)
        if not sp or P.fns[fid]['body']['argc'] != len(sp[0]):
            continue
        st = St()
        args = []
        for i, ch in enumerate(sp[0]):
            x = {'u': U, 'v': V, 's': s, 't': t, 'e': e, 'h': h}[ch]
            args.append(ref_arg(st, i, x) if P.fns[fid]['inputs'][i].startswith('&') else x)
        lab = '%s of %d components (%s)' % (name, n, lib)
        if name in BOOL:
            bool_fn(m, fid, args, sp[1], lab, known=known, st=st)
        else:
            tup = name in ('splat', 'from_x', 'from_xy', 'from_xyz', 'translate', 'scale', 'lerp', 'zero', 'normalize', 'new', 'cross')
            formula(m, fid, args, sp[1], lab, known=known, st=st, result=vecres if tup else None)


# ---------------------------------------------------------------- scalars
SCALAR_FN = {'acos': 'acos', 'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'sqrt': 'sqrt', 'atan2': 'atan2', 'max': 'max', 'min': 'min',
             'is_finite': 'is_finite', 'is_nan': 'is_nan', 'abs': 'abs'}


def scalars(P, rep):
    """the primitive implementations call the primitive of the same meaning"""
    for im in P.impls:
        if not im.get('trait', '').endswith('scalar::Scalar') or im.get('self_ty') not in ('f32', 'f64'):
            continue
        for fid, tid in im['items']:
            name = fid.split('::')[-1]
            if fid not in P.fns:
                continue
            rep.analysed(fid)
            args, atoms, st = sym_args(P, fid)
            m = Math(P, rep, 'scalar', skip=[('scalar::Scalar', x) for x in CONTRACT['scalar::Scalar']])
            ai, outs = m.run(fid, args, '%s %s' % (name, im['self_ty']), st=st)
            lab = '%s %s' % (name, im['self_ty'])
            for s2, r in outs:
                n_, neg = r, False
                while n_.op in ('ref', 'refto', 'cast'):
                    n_ = n_.a[-1] if n_.op != 'ref' else ai.deref(s2, n_)
                if name in SCALAR_FN and n_.op == 'app':
                    got = leaf(n_.a[0])
                    A = [m.alg.strip(x) for x in n_.a[1:]]
                    good = got == SCALAR_FN[name] and A == atoms or got in ('max', 'min') and got == name and set(A) == set(atoms)
                    rep.ob('scalar', lab, good or (None if got not in SCALAR_FN.values() else False), 'computes %s' % show(n_)[:80], (fid, loc(P, fid)))
                elif name in ('to_f64', 'from_usize'):
                    rep.ob('scalar', lab, True if n_ is atoms[0] else None, show(r)[:80], (fid, loc(P, fid)))
                elif name in ('is_positive', 'is_negative'):
                    up = name == 'is_positive'
                    good = None
                    c = m.sign_cond(n_)
                    if n_.op == 'app' and leaf(n_.a[0]) in ('is_sign_positive', 'is_sign_negative'):
                        good = False
                        if leaf(n_.a[0]) == ('is_sign_positive' if up else 'is_sign_negative') and m.alg.strip(n_.a[1]) is atoms[0]:
                            lab += ' counts zero'
                    elif c:
                        k, sg = m.signed(at(atoms[0]), {1 if up else -1})
                        good = (c[0], c[1]) == (k, sg)
                    rep.ob('scalar', lab, good, 'decides on %s, which is not strict' % show(n_)[:80], (fid, loc(P, fid)))


def delegates(P, rep, tier):
    """the trait-level sums and means"""
    for tr in ('vector::Vector', 'scalar::Scalar', 'vector::VectorIteratorExt', 'scalar::ScalarIteratorExt'):
        for name in ('stable_sum', 'stable_mean'):
            for fid, ty in defs(P, tr, name):
                for n in (1, 3):
                    xs = [mk('p', 10 + k, 'x%d' % k) for k in range(n)]
                    m = Math(P, rep, 'sum', concrete=True, loop=n + 1, skip=[('zero::HasZero', 'zero')] + [(t, x) for t in ('vector::Vector', 'scalar::Scalar')
                                                                            if not tr.endswith('Ext') for x in ('stable_sum', 'stable_mean')])
                    want = lift(0)
                    for x in xs:
                        want = want + at(x)
                    if name == 'stable_mean':
                        want = want * Poly.const(Fraction(1, n))
                    formula(m, fid, [mk('it', 'val', mk('array', *xs))], want, '%s::%s of %d' % (tr.split('::')[-1], name, n), known=set(xs),
                            noise=lambda c: True)


def summation(P, rep, tier):
    """compensated sums: without rounding, exactly the sum and the number of elements"""
    for f in P.fns.values():
        if not f['id'].split('::')[-1].endswith('_summation') or '{' in f['id'].split('::')[-1]:
            continue
        for n in (0, 1, 2, 3):
            xs = [mk('p', 10 + k, 'x%d' % k) for k in range(n)]
            m = Math(P, rep, 'sum', concrete=True, loop=n + 1, skip=[('zero::HasZero', 'zero')])
            want = lift(0)
            for x in xs:
                want = want + at(x)

            def res(ai, st, r):
                return (m.val(ai, st, r.a[0]), m.val(ai, st, r.a[1])) if r.op == 'tuple' else None
            formula(m, f['id'], [mk('it', 'val', mk('array', *xs))], (want, lift(n)), '%s of %d' % (f['id'].split('::')[-1], n),
                    known=set(xs), result=res, noise=lambda c: True)


def cross3(p, q):
    """cross product of two vector polynomials as an antisymmetric bilinear form"""
    return fn('cross', p, q)


def absv(p):
    p = lift(p)
    return fn('abs', min(p, -p, key=lambda q: repr(q.key())))


def short_ty(t):
    return t.split('::')[-1][:40] if '<' not in t else t.split('<')[0].split('::')[-1] + '<' + t.split('<', 1)[1][:30]

"""Exact models of the linear algebra the crate calls (nalgebra, glam, bevy): vectors are literal arrays of components,
matrices literal arrays of rows, affine maps and transforms records of those."""
from ai import *
import models
from mathx import CONTRACT

AFF = 'lin::Affine'
TRS = 'lin::Transform'


def vec(*xs):
    return mk('array', *xs)


def is_vec(v):
    return v.op == 'array' and all(type(x) is T and x.op != 'array' for x in v.a)


def is_mat(v):
    return v.op == 'array' and len(v.a) > 0 and all(type(x) is T and x.op == 'array' for x in v.a)


def ident(n):
    return mk('array', *[mk('array', *[num(1 if i == j else 0) for j in range(n)]) for i in range(n)])


def add(ai, xs):
    r = None
    for x in xs:
        if isconst(x) and x.a[0] == 0:
            continue
        r = x if r is None else ai.binop('Add', r, x)
    return num(0) if r is None else r


def smul(ai, x, y):
    for p, q in ((x, y), (y, x)):
        if isconst(p) and p.a[0] == 0:
            return num(0)
        if isconst(p) and p.a[0] == 1:
            return q
    return ai.binop('Mul', x, y)


def dot(ai, u, v):
    return add(ai, [smul(ai, x, y) for x, y in zip(u.a, v.a)])


def matvec(ai, m, v):
    return mk('array', *[dot(ai, r, v) for r in m.a])


def col(m, j):
    return mk('array', *[r.a[j] for r in m.a])


def matmul(ai, a, b):
    return mk('array', *[mk('array', *[dot(ai, r, col(b, j)) for j in range(len(b.a[0].a))]) for r in a.a])


def vadd(ai, u, v):
    return mk('array', *[add(ai, [x, y]) for x, y in zip(u.a, v.a)])


def cmul(ai, u, v):
    return mk('array', *[smul(ai, x, y) for x, y in zip(u.a, v.a)])


def aff(m, t):
    return mk('adt', AFF, 'Affine', ('matrix', 'translation'), m, t)


def trs(t, r, s):
    return mk('adt', TRS, 'Transform', ('translation', 'rotation', 'scale'), t, r, s)


def is_aff(v):
    return v.op == 'adt' and v.a[0] == AFF


def is_trs(v):
    return v.op == 'adt' and v.a[0] == TRS


def parts(v):
    return v.a[3:]


def mul(ai, a, b):
    if is_aff(a) and is_aff(b):
        (m1, t1), (m2, t2) = parts(a), parts(b)
        return aff(matmul(ai, m1, m2), vadd(ai, matvec(ai, m1, t2), t1))
    if is_trs(a) and is_trs(b):
        (t1, r1, s1), (t2, r2, s2) = parts(a), parts(b)
        return trs(vadd(ai, matvec(ai, r1, cmul(ai, s1, t2)), t1), matmul(ai, r1, r2), cmul(ai, s1, s2))
    if is_mat(a) and is_mat(b):
        return matmul(ai, a, b)
    if is_mat(a) and is_vec(b):
        return matvec(ai, a, b)
    if is_mat(a) and b.op != 'array':
        return mk('array', *[mk('array', *[smul(ai, x, b) for x in r.a]) for r in a.a])
    if is_vec(a) and is_vec(b):
        return cmul(ai, a, b)
    if is_vec(a) and b.op not in ('array', 'adt'):
        return mk('array', *[smul(ai, x, b) for x in a.a])
    if is_vec(b) and a.op not in ('array', 'adt'):
        return mk('array', *[smul(ai, a, x) for x in b.a])
    return None


def rot2(a):
    c, s = mk('app', 'Scalar::cos', a), mk('app', 'Scalar::sin', a)
    return mk('array', mk('array', c, mk('neg', s)), mk('array', s, c))


def arc(n, a, b):
    return mk('array', *[mk('array', *[mk('app', 'arc', num(i), num(j), a, b) for j in range(n)]) for i in range(n)])


def opposite(a, b):
    return mk('app', 'opposite', a, b)


def turn(axis, angle):
    return mk('array', *[mk('array', *[mk('app', 'turn', num(i), num(j), axis, angle) for j in range(3)]) for i in range(3)])


def angle_to(a, b):
    return mk('app', 'angle_to', a, b)


def dims2(ai, c):
    k = [int(ai.consts.get(x, x)) for x in c.get('cargs', [])]
    if len(k) < 2:
        raise ValueError
    return k[-2:]


LIBS = ('nalgebra', 'glam', 'bevy_math', 'bevy_transform', 'bevy::math', 'bevy::transform')


def hook(n, kind=None):
    """n: dimension of constructors without vector arguments"""
    def h(ai, st, c, rid, a, site):
        if rid and rid in ai.P.fns or c['local'] and rid:
            return None
        name = models.short(c['name'])
        nm = name.split('::')[-1]

        def val(x):
            k = 0
            while x.op in ('ref', 'refto') and k < 3:
                x = ai.deref(st, x) if x.op == 'ref' else x.a[0]
                k += 1
            return x
        if not rid and '::Vector' in name and len(a) == 1 and nm in ('x', 'y', 'z', 'w') and is_vec(val(a[0])):
            u = val(a[0])
            return [(st, u.a['xyzw'.index(nm)] if 'xyzw'.index(nm) < len(u.a) else num(0))]
        if not rid and '::Vector' in name and nm == 'new' and len(a) == n and n > 1:
            return [(st, mk('array', *a))]
        if name.startswith('std::ops::') or name.startswith('core::ops::'):
            if nm == 'mul' and len(a) == 2:
                r = mul(ai, val(a[0]), val(a[1]))
                return None if r is None else [(st, r)]
            if nm in ('index', 'index_mut') and len(a) == 2:
                i = val(a[1])
                v = val(a[0])
                if i.op == 'tuple' and is_mat(v):
                    return [(st, mk('ref', pl_ext(ai.deref_place(a[0]), mk('ix', i.a[0]), mk('ix', i.a[1]))))]
                if is_vec(v):
                    return [(st, mk('ref', pl_ext(ai.deref_place(a[0]), mk('ix', i))))]
            return None
        if name in ('std::cmp::PartialEq::eq', 'std::cmp::PartialEq::ne') and len(a) == 2:
            u, v = val(a[0]), val(a[1])
            if is_vec(u) and is_vec(v) and len(u.a) == len(v.a):
                out, work = [], [(st, 0)]
                while work:
                    s, i = work.pop()
                    if i == len(u.a):
                        out.append((s, TRUE if nm == 'eq' else FALSE))
                        continue
                    for s2, b in ai.fork(s, ai.binop('Eq', u.a[i], v.a[i])):
                        if b:
                            work.append((s2, i + 1))
                        else:
                            out.append((s2, FALSE if nm == 'eq' else TRUE))
                return out
        full = ' '.join([c['name'], c.get('resolved') or '', c.get('self_ty') or '', c.get('self_adt') or ''])
        if not any(l in full for l in LIBS):
            return None
        V = [val(x) for x in a]
        if ('Rotation' in full or 'Rot2' in full) and V:
            if nm == 'new' and len(V) == 1 and V[0].op != 'array':
                return [(st, rot2(V[0]))]
            if nm in ('from_matrix_unchecked', 'into_inner', 'from_matrix') and len(V) == 1:
                return [(st, V[0])]
            if nm == 'rotation_between' and len(V) == 2 and is_vec(V[0]):
                r = arc(len(V[0].a), V[0], V[1])
                if len(V[0].a) != 3:
                    return [(st, r)]
                # nalgebra knows no rotation between opposite vectors
                return [(s, mk('adt', 'core::option::Option', 'None', ()) if b else mk('adt', 'core::option::Option', 'Some', ('0',), r))
                        for s, b in ai.fork(st, opposite(V[0], V[1]))]
            if nm in ('from_axis_angle', 'new') and V[0].op == 'app' and V[0].a[0] in ('unit', 'scaled'):
                return [(st, turn(V[0].a[1], V[1] if nm == 'from_axis_angle' else V[0].a[2]))]
        if nm in ('new_normalize', 'new_unchecked') and len(V) == 1 and is_vec(V[0]):
            return [(st, mk('app', 'unit', V[0]))]
        if nm == 'cross' and len(V) == 2 and is_vec(V[0]) and is_vec(V[1]) and len(V[0].a) == len(V[1].a) == 3:
            x, y = V[0].a, V[1].a
            return [(st, mk('array', *[ai.binop('Sub', smul(ai, x[(i + 1) % 3], y[(i + 2) % 3]), smul(ai, x[(i + 2) % 3], y[(i + 1) % 3])) for i in range(3)]))]
        if nm in ('iamin', 'iamax', 'imin', 'imax') and len(V) == 1 and is_vec(V[0]):
            return [(st, mk('app', 'which', nm, V[0]))]
        if nm == 'ith' and len(V) == 2:
            if isconst(V[0]):
                return [(st, mk('array', *[V[1] if i == V[0].a[0] else num(0) for i in range(n)]))]
            return [(st, mk('array', *[smul(ai, mk('app', 'pick', num(i), V[0]), V[1]) for i in range(n)]))]
        if nm == 'from_rotation_arc' and len(V) == 2 and is_vec(V[0]):
            return [(st, arc(len(V[0].a), V[0], V[1]))]
        if nm == 'angle_to' and len(V) == 2 and is_vec(V[0]):
            return [(st, angle_to(V[0], V[1]))]
        if nm == 'mul_vec3' and len(V) == 2 and is_mat(V[0]):
            return [(st, matvec(ai, V[0], V[1]))]
        if nm == 'fixed_resize' and V and is_mat(V[0]):
            try:
                hh, w = dims2(ai, c)
            except (ValueError, KeyError):
                return None
            M = V[0]
            return [(st, mk('array', *[mk('array', *[M.a[i].a[j] if i < len(M.a) and j < len(M.a[0].a) else V[1] for j in range(w)]) for i in range(hh)]))]
        if nm in ('fixed_rows', 'fixed_columns') and len(V) == 2 and is_vec(V[0]) and isconst(V[1]):
            try:
                k = int(ai.consts.get(c['cargs'][-1], c['cargs'][-1]))
            except (ValueError, KeyError):
                return None
            if V[1].a[0] + k > len(V[0].a):
                return None
            return [(st, mk('array', *V[0].a[V[1].a[0]:V[1].a[0] + k]))]
        if 'Affine2' in full or 'Affine3' in full:
            if nm == 'from_angle':
                return [(st, aff(rot2(V[0]), mk('array', num(0), num(0))))]
            if nm == 'from_scale':
                return [(st, aff(mk('array', *[mk('array', *[V[0].a[i] if i == j else num(0) for j in range(len(V[0].a))])
                                               for i in range(len(V[0].a))]), mk('array', *[num(0)] * len(V[0].a))))]
            if nm == 'from_translation':
                return [(st, aff(ident(len(V[0].a)), V[0]))]
            if nm in ('transform_point2', 'transform_point3', 'transform_point'):
                m, t = parts(V[0])
                return [(st, vadd(ai, matvec(ai, m, V[1]), t))]
            if nm in ('transform_vector2', 'transform_vector3', 'transform_vector'):
                return [(st, matvec(ai, parts(V[0])[0], V[1]))]
            if nm == 'default':
                return [(st, aff(ident(n), mk('array', *[num(0)] * n)))]
        if 'Transform' in full and not is_vec(V[0] if V else mk('opq', 0)) or 'components::Transform' in full or 'Transform::from_' in full:
            z, o = mk('array', *[num(0)] * 3), mk('array', *[num(1)] * 3)
            if nm in ('default', 'identity') and not a:
                return [(st, trs(z, ident(3), o))]
            if nm == 'from_translation':
                return [(st, trs(V[0], ident(3), o))]
            if nm == 'from_scale':
                return [(st, trs(z, ident(3), V[0]))]
            if nm == 'from_rotation':
                return [(st, trs(z, V[0], o))]
            if V and is_trs(V[0]):
                t, r, s = parts(V[0])
                if nm == 'with_scale':
                    return [(st, trs(t, r, V[1]))]
                if nm == 'with_translation':
                    return [(st, trs(V[1], r, s))]
                if nm == 'with_rotation':
                    return [(st, trs(t, V[1], s))]
                if nm == 'transform_point':
                    return [(st, vadd(ai, matvec(ai, r, cmul(ai, s, V[1])), t))]
                if nm == 'mul_transform':
                    return [(st, mul(ai, V[0], V[1]))]
        if nm in ('iter', 'iter_mut') and len(a) == 1 and V[0].op == 'array':
            return [(st, mk('it', 'ref', a[0] if a[0].op == 'ref' else models.tmpref(ai, st, V[0])[0]))] if a[0].op == 'ref' else None
        if nm in ('as_slice', 'as_mut_slice', 'as_ref', 'deref', 'deref_mut', 'matrix') and a:
            return [(st, a[0])]
        if nm in ('into_owned', 'clone_owned', 'to_owned', 'clone') and len(a) == 1:
            return [(st, V[0])] if V[0].op == 'array' or V[0].op == 'adt' else None
        if nm == 'identity':
            k = V[0].a[0] if V and isconst(V[0]) else n
            return [(st, ident(k))]
        if nm in ('zeros', 'zero') and not a:
            return [(st, mk('array', *[num(0)] * n))]
        if nm == 'from_diagonal' and V[0].op == 'array':
            k = len(V[0].a)
            return [(st, mk('array', *[mk('array', *[V[0].a[i] if i == j else num(0) for j in range(k)]) for i in range(k)]))]
        if nm == 'component_mul' and len(V) == 2 and is_vec(V[0]):
            return [(st, cmul(ai, V[0], V[1]))]
        if nm == 'transpose' and is_mat(V[0]):
            return [(st, mk('array', *[col(V[0], j) for j in range(len(V[0].a[0].a))]))]
        if nm in ('view_mut', 'view') and len(a) == 3 and all(x.op == 'tuple' for x in V[1:]):
            return [(st, mk('mview', ai.deref_place(a[0]), V[1], V[2]))]
        if nm == 'copy_from' and V and V[0].op == 'mview':
            p, off, sh = V[0].a
            (r0, c0), (hh, w) = [x.a[0] for x in off.a], [x.a[0] for x in sh.a]
            st = st.copy()
            for i in range(hh):
                for j in range(w):
                    x = V[1].a[i].a[j] if is_mat(V[1]) else V[1].a[i]
                    ai.write(st, pl_ext(p, mk('ix', num(r0 + i)), mk('ix', num(c0 + j))), x, site)
            return [(st, UNIT)]
        if nm == 'fixed_view' and len(V) == 3 and is_mat(V[0]):
            try:
                hh, w = dims2(ai, c)
            except (ValueError, KeyError):
                return None
            if not (isconst(V[1]) and isconst(V[2])):
                return None
            r0, c0 = V[1].a[0], V[2].a[0]
            rows = [mk('array', *V[0].a[r0 + i].a[c0:c0 + w]) for i in range(hh)]
            r, st = models.tmpref(ai, st, mk('array', *[x.a[0] for x in rows]) if w == 1 else rows[0] if hh == 1 else mk('array', *rows))
            return [(st, ai.deref(st, r))] if w == 1 or hh > 1 else [(st, r)]
        if nm in ('nrows', 'ncols') and is_mat(V[0]):
            return [(st, num(len(V[0].a) if nm == 'nrows' else len(V[0].a[0].a)))]
        if nm in ('from', 'into', 'from_row_slice', 'from_column_slice', 'from_slice', 'from_array', 'new') and len(a) == 1 and V[0].op == 'array':
            return [(st, V[0])]
        if nm == 'new' and len(a) == n and n > 1 and all(x.op != 'array' for x in V):
            return [(st, mk('array', *V))]
        if nm in ('repeat', 'from_element', 'splat') and len(a) == 1:
            return [(st, mk('array', *[V[0]] * n))]
        if V and is_vec(V[0]):
            u = V[0]
            if len(V) == 2 and is_vec(V[1]):
                v = V[1]
                d = mk('array', *[ai.binop('Sub', x, y) for x, y in zip(u.a, v.a)])
                if nm == 'dot':
                    return [(st, dot(ai, u, v))]
                if nm == 'distance_squared':
                    return [(st, dot(ai, d, d))]
                if nm == 'distance':
                    return [(st, mk('app', 'Scalar::sqrt', dot(ai, d, d)))]
                if nm == 'cross' and len(u.a) == 3:
                    return [(st, mk('array', *[ai.binop('Sub', ai.binop('Mul', u.a[p], v.a[q]), ai.binop('Mul', u.a[q], v.a[p]))
                                               for p, q in ((1, 2), (2, 0), (0, 1))]))]
                if nm in ('perp', 'perp_dot') and len(u.a) == 2:
                    return [(st, ai.binop('Sub', ai.binop('Mul', u.a[0], v.a[1]), ai.binop('Mul', u.a[1], v.a[0])))]
            if nm == 'lerp' and len(V) == 3 and is_vec(V[1]):
                return [(st, mk('array', *[ai.binop('Add', x, ai.binop('Mul', ai.binop('Sub', y, x), V[2])) for x, y in zip(u.a, V[1].a)]))]
            if nm in ('norm', 'magnitude', 'length', 'norm_squared', 'magnitude_squared', 'length_squared'):
                r = dot(ai, u, u)
                return [(st, r if nm.endswith('squared') else mk('app', 'Scalar::sqrt', r))]
            if nm in ('normalize', 'normalized'):
                l = mk('app', 'Scalar::sqrt', dot(ai, u, u))
                return [(st, mk('array', *[ai.binop('Div', x, l) for x in u.a]))]
            if nm == 'extend' and len(V) == 2:
                return [(st, mk('array', *(u.a + (V[1],))))]
            if nm == 'truncate':
                return [(st, mk('array', *u.a[:-1]))]
            if nm in ('to_array', 'to_vec'):
                return [(st, u)]
            if set(nm) <= set('xyzw') and len(nm) > 1:
                return [(st, mk('array', *[u.a['xyzw'.index(ch)] for ch in nm]))]
        return None
    return h


def cval(ai, n):
    """library constants"""
    def f(o):
        nm = o.get('def', '').split('::')[-1]
        ty = o.get('ty', '')
        if not any(l in ty for l in LIBS):
            return None
        if 'Vec' in ty or 'Matrix' in ty:
            k = int(ty[-1]) if ty[-1].isdigit() else n
            if nm == 'ZERO':
                return mk('array', *[num(0)] * k)
            if nm == 'ONE':
                return mk('array', *[num(1)] * k)
            if nm in 'XYZW' and len(nm) == 1:
                return mk('array', *[num(1 if i == 'XYZW'.index(nm) else 0) for i in range(k)])
        if nm == 'IDENTITY':
            if 'Affine2' in ty:
                return aff(ident(2), mk('array', num(0), num(0)))
            if 'Transform' in ty:
                return trs(mk('array', *[num(0)] * 3), ident(3), mk('array', *[num(1)] * 3))
            if 'Quat' in ty:
                return ident(3)
        return None
    return f

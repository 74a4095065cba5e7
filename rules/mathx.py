"""Shared machinery for algebraic obligations: function bodies against formulas."""
import itertools
from ai import *
from alg import *
import models
import report
import spec

# trait methods with a fixed meaning: calls stay symbolic and are interpreted by engine/alg.py,
# their implementations are checked against the same meaning
CONTRACT = {
    'vector::Vector': ('distance', 'distance_squared', 'length', 'length_squared', 'dot', 'x', 'y', 'z', 'w', 'from_x', 'from_xy',
                       'from_xyz', 'normalize', 'splat', 'angle_between', 'is_about', 'zero', 'stable_sum', 'stable_mean'),
    'vector2d::Vector2D': ('new', 'perp_dot'),
    'vector3d::Vector3D': ('new', 'cross'),
    'vector4d::Vector4D': ('new',),
    'vector3d::Spherical3d': ('r', 'phi', 'theta'),
    'scalar::Scalar': ('is_positive', 'is_negative', 'abs', 'acos', 'sin', 'cos', 'tan', 'cot', 'atan2', 'max', 'min', 'sqrt', 'from_usize',
                       'stable_sum', 'stable_mean', 'lerp', 'is_finite', 'is_nan', 'to_f64'),
    'transformable::Transformable': ('lerp', 'lerped', 'transform', 'translate', 'rotate', 'scale'),
    'transform::TransformTrait': ('identity', 'from_rotation', 'from_rotation_arc', 'from_translation', 'from_scale', 'with_scale',
                                  'with_translation', 'apply', 'apply_vec', 'chain'),
    'zero::HasZero': ('zero', 'is_zero'),
    'position::HasPosition': ('pos', 'from_pos', 'set_pos'),
    'position::HasNormal': ('normal', 'set_normal'),
    'position::HasUV': ('uv', 'set_uv'),
    'polygon::Polygon': ('points', 'num_points', 'from_points', 'signed_area', 'area', 'contains', 'centroid'),
    'vector::VectorIteratorExt': ('stable_sum', 'stable_mean'),
    'scalar::ScalarIteratorExt': ('stable_sum', 'stable_mean'),
}
EXACT = {'sqrt', 'acos', 'sin', 'cos', 'tan', 'cot', 'atan2', 'abs', 'normalize', 'new', 'cross', 'angle_between', 'max', 'min',
         'is_about', 'clamp', 'dot', 'splat', 'from_x', 'from_xy', 'from_xyz'}


def contract_ids(P):
    ids = {}
    for t in P.traits.values():
        for suf, names in CONTRACT.items():
            if t['id'].endswith('::' + suf):
                for m in t['methods']:
                    if m['name'] in names:
                        ids[m['id']] = (suf, m['name'])
    return ids


def math_hooks(P, skip=()):
    ids = contract_ids(P)

    def star(ai, st, c, rid, args, site):
        k = ids.get(c['id'])
        if k is None or k[1] in skip or k in skip:
            return None
        nm = k[1]
        if nm in ('lerp', 'transform', 'translate', 'rotate', 'scale') and k[0].startswith('transformable'):
            # in place: *self = op(*self, args)
            p = ai.deref_place(args[0])
            st = st.copy()
            sa = [ai.snap(st, a) for a in args[1:]]
            v = mk('app', 'Transformable::' + nm, ai.read(st, p), *sa)
            ai.write(st, p, v, site)
            return [(st, args[0])]
        if nm in ('set_pos', 'set_normal', 'set_uv'):
            p = ai.deref_place(args[0])
            st = st.copy()
            ai.write(st, p, mk('app', nm, ai.read(st, p), ai.snap(st, args[1])), site)
            return [(st, UNIT)]
        if nm in ('stable_sum', 'stable_mean'):
            return sum_over(ai, st, args[0], nm.replace('stable_', ''), site)
        if nm in ('points',):
            return [(st, mk('ref', pl_ext(place(mk('M', args[0])), '.points')))] if args[0].op != 'ref' else \
                [(st, mk('ref', pl_ext(args[0].a[0], '.points')))]
        return [(st, mk('app', k[0].split('::')[-1] + '::' + nm, *[ai.snap(st, a) for a in args]))]
    return {'*': star}


def sum_over(ai, st, it, kind, site):
    """sum or mean of an iterator as a term over its generic element"""
    if ai.concrete:
        outs = models.concrete_drain(ai, st, it, site)
        if outs is not None:
            res = []
            for s, xs in outs:
                xs = [ai.deref(s, x) if x.op == 'ref' else x for x in xs]
                if not xs:
                    res.append((s, num(0)))
                    continue
                r = xs[0]
                for x in xs[1:]:
                    r = ai.binop('Add', r, x)
                res.append((s, ai.binop('Div', r, num(len(xs))) if kind == 'mean' else r))
            return res
    if it.op == 'ref':
        it = ai.deref(st, it)
    base = it
    while base.op == 'it' and base.a[0] in ('map', 'copied', 'cloned', 'inspect', 'enumerate'):
        base = base.a[1]
    outs = []
    for s2, x, _ in models.gen_item(ai, st, it, '*', site):
        outs.append((s2, mk('app', kind + '_over', models.star(ai.snap(s2, x)), ai.snap(s2, base) if base.op == 'ref' else base)))
    return outs or None


def defs(P, trait, name):
    """[(fn id, self type or None for the default body)] of all bodies of a trait method"""
    out = []
    for t in P.traits.values():
        if t['id'].endswith('::' + trait):
            for m in t['methods']:
                if m['name'] == name:
                    if m['id'] in P.fns:
                        out.append((m['id'], None))
                    for im, fid in P.impl_of.get(m['id'], []):
                        if fid in P.fns:
                            out.append((fid, im.get('self_ty') or im.get('self_adt')))
    return out


def impl_for(P, trait, tyfrag):
    """{method name: fn id} of the implementation of a trait for a type"""
    for im in P.impls:
        if im.get('trait', '').endswith('::' + trait) and tyfrag(im):
            return {fid.split('::')[-1]: fid for fid, tid in im['items'] if fid in P.fns}
    return None


def first_of(*hooks):
    def star(ai, st, c, rid, a, site):
        for h in hooks:
            r = h(ai, st, c, rid, a, site)
            if r is not None:
                return r
        return None
    return star


class Math:
    def __init__(self, P, rep, rule, skip=(), loop=2, vec=None, extra=None, mats=None, hooks=None, maxpaths=3000, concrete=False, consts=None):
        self.concrete, self.consts, self.cval = concrete, consts or {}, None
        self.P, self.rep, self.rule = P, rep, rule
        self.skip, self.loop = skip, loop
        self.alg = Alg(vec=vec, extra=extra, mats=mats)
        self.hooks = hooks or {}
        self.maxpaths = maxpaths
        self.joins = False
        self.maxrec = 1
        self.stepwise = False
        self.steplimit = None

    def run(self, fid, args, label=None, hooks=None, keep_panics=False, st=None):
        H = dict(math_hooks(self.P, self.skip))
        more = dict(self.hooks)
        more.update(hooks or {})
        star2 = more.pop('*', None)
        if star2:
            star1 = H['*']
            H['*'] = first_of(star2, star1)
        H.update(more)
        try:
            ai = AI(self.P, hooks=H, loop=self.loop, maxpaths=self.maxpaths, keep_panics=keep_panics)
            ai.joins, ai.maxrec, ai.stepwise, ai.steplimit = self.joins, self.maxrec, self.stepwise, self.steplimit
            ai.concrete, ai.consts, ai.cval = self.concrete, self.consts, self.cval
            outs = ai.run(fid, args, st)
        except Exception as ex:
            self.rep.ob(self.rule, label or fid, None, '%s: %s' % (type(ex).__name__, ex))
            return None, []
        self.rep.paths += len(outs)
        self.rep.analysed(*ai.visited)
        return ai, outs

    def val(self, ai, st, v):
        """Poly of a value, reading through references"""
        n = 0
        while v.op in ('ref', 'refto') and n < 4:
            v = ai.deref(st, v) if v.op == 'ref' else v.a[0]
            n += 1
        return self.alg.norm(ai.snap(st, v) if v.op == 'ref' else v)

    # -------------------------------------------------------------- conditions as signs of polynomials
    def sign_cond(self, c):
        """condition term -> (canonical poly key, set of signs in which it is true) or None"""
        c = self.alg.strip(c)
        neg = False
        while c.op == 'not':
            neg = not neg
            c = c.a[0]
        al = self.alg
        if c.op == 'bin' and c.a[0] in ('Lt', 'Eq'):
            p = al.norm(c.a[2]) - al.norm(c.a[1])
            s = {1} if c.a[0] == 'Lt' else {0}
        elif c.op == 'app' and leaf(c.a[0]) in ('is_positive', 'is_negative', 'is_zero') and len(c.a) == 2:
            p = al.norm(c.a[1])
            s = {'is_positive': {1}, 'is_negative': {-1}, 'is_zero': {0}}[leaf(c.a[0])]
        else:
            return None
        if neg:
            s = {-1, 0, 1} - s
        return self.signed(p, s)

    def signed(self, p, s):
        if not p.d:
            return (None, 0 in s)
        if len(p.d) == 1 and ONE_M in p.d:
            return (None, (1 if p.d[ONE_M] > 0 else -1) in s)
        k0 = min(p.d, key=repr)
        c = p.d[k0]
        q = Poly({m: v / abs(c) for m, v in p.d.items()})
        if c < 0:
            q, s = -q, {-x for x in s}
        return (q.key(), frozenset(s))

    def facts(self, conds):
        """conditions of a path -> ({poly key: allowed signs}, {other condition: value}) or None if contradictory"""
        signs, other = {}, {}
        for c, v in conds:
            if v not in (0, 1):
                other[c] = v
                continue
            r = self.sign_cond(c)
            if r is None:
                other[c] = v
                continue
            k, s = r
            if k is None:
                if bool(s) != bool(v):
                    return None
                continue
            if not v:
                s = frozenset({-1, 0, 1}) - s
            signs[k] = signs.get(k, frozenset({-1, 0, 1})) & s
            if not signs[k]:
                return None
        return signs, other

    def result_bool(self, t, v):
        """result term as an additional condition"""
        return (t, v)


class Need(Exception):
    pass


class Signs:
    """oracle handed to an expectation: sign(p) in a complete assignment"""
    def __init__(self, m, asg, allowed):
        self.m, self.asg, self.allowed = m, asg, allowed

    def __call__(self, p):
        k, s = self.m.signed(lift(p), {1})
        if k is None:
            return 1 if s else (0 if not lift(p).d else -1)
        if k not in self.asg:
            raise Need(k)
        v = self.asg[k]
        return v if s == frozenset({1}) else -v


def pairwise(a):
    """are the signs given to polynomials compatible with the linear relations between two or three of them"""
    ks = [(Poly(dict(k)), v) for k, v in a.items()]
    if len(ks) > 40:
        return True

    def const(p):
        d = {k: c for k, c in p.d.items() if c}
        if not d:
            return 0
        return list(d.values())[0] if len(d) == 1 and list(d)[0] == ((), ()) else None
    for i, (p, x) in enumerate(ks):
        for j in range(i):
            q, y = ks[j]
            for f in (1, -1):                   # p + f q = c
                c = const(p + q * lift(f))
                if c is None:
                    continue
                lo, hi = signs_of_sum([x, f * y])
                if not (lo <= (c > 0) - (c < 0) <= hi):
                    return False
            for k in range(j):
                r, z = ks[k]
                for f in (1, -1):
                    for g in (1, -1):
                        c = const(p + q * lift(f) + r * lift(g))
                        if c is None:
                            continue
                        lo, hi = signs_of_sum([x, f * y, g * z])
                        if not (lo <= (c > 0) - (c < 0) <= hi):
                            return False
    return True


def signs_of_sum(xs):
    if all(x == 0 for x in xs):
        return 0, 0
    if all(x >= 0 for x in xs):
        return 1, 1
    if all(x <= 0 for x in xs):
        return -1, -1
    return -1, 1


def assignments(m, signs, want):
    """all complete sign assignments under which `want(sign)` can be evaluated: [(assignment, value)]"""
    fixed = {k: next(iter(s)) for k, s in signs.items() if len(s) == 1}
    return [(a, w) for a, w in assignments_(m, signs, want) if pairwise({**fixed, **a})]


def assignments_(m, signs, want):
    """all complete sign assignments under which `want(sign)` can be evaluated: [(assignment, value)]"""
    out = []
    todo = [{}]
    while todo:
        a = todo.pop()
        try:
            out.append((a, want(Signs(m, a, signs))))
        except Need as ex:
            k = ex.args[0]
            for s in sorted(signs.get(k, (-1, 0, 1))):
                b = dict(a)
                b[k] = s
                todo.append(b)
        if len(todo) > 20000:
            raise Budget('too many sign assignments')
    return out


def bool_fn(m, fid, args, want, label, known=(), noise=lambda c: False, pre=None, st=None):
    """a boolean function against a boolean expectation over signs of polynomials"""
    ai, outs = m.run(fid, args, label, st=st)
    if not ai:
        return
    if not outs:
        m.rep.ob(m.rule, label, None, 'no path')
    for st, r in outs:
        for v in (0, 1):
            if isconst(r) and r.a[0] != v:
                continue
            conds = [(c, x) for c, x in st.conds.items() if not noise(c)]
            if not isconst(r):
                conds.append((r, v))
            f = m.facts(conds)
            if f is None:
                continue
            signs, other = f
            fuzzy = bool(other) or not all(understood(k, known) for k in signs)
            bad = None
            try:
                for a, w in assignments(m, signs, want):
                    if pre and not pre(Signs(m, a, signs)):
                        continue
                    if bool(w) != bool(v):
                        bad = a
            except Need:
                continue
            except Budget as ex:
                m.rep.ob(m.rule, label, None, str(ex))
                continue
            ok_ = True if bad is None else (None if fuzzy else False)
            m.rep.ob(m.rule, label, ok_, 'returns %s although %s' % (bool(v), {repr(Poly(dict(k)))[:80]: s for k, s in (bad or {}).items()}),
                     (fid, loc(m.P, fid)))


def understood(key, known):
    """all atoms of a polynomial key belong to the vocabulary"""
    if isinstance(key, Poly):
        key = key.key()
    return all(und_atom(a, known) for m, c in key for a in [x for x, k in m[0]] + list(m[1]))


def und_val(v, known):
    if isinstance(v, Poly):
        return understood(v, known)
    if isinstance(v, tuple):
        return all(und_val(x, known) for x in v)
    return True


def und_atom(a, known):
    if a in known:
        return True
    if isinstance(a, tuple) and a:
        if a[0] == 'app':
            return a[1] in EXACT and all(understood(x, known) if isinstance(x, tuple) and x and isinstance(x[0], tuple) else True for x in a[2:])
        if a[0] in ('x', 'y', 'z', 'w', 'dot', 'cross'):
            return all(und_atom(b, known) for b in a[1:])
        if a[0] == 'const':
            return True
        if a[0] == 'inv':
            return isinstance(a[1], tuple) and understood(a[1], known)
    return False


def loc(P, fid):
    f = P.fns.get(fid)
    sp = f.get('span') if f else None
    return sp


def agree(a, b):
    """equal as rational functions, component by component"""
    if isinstance(a, Poly) and isinstance(b, Poly):
        return a.same(b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(agree(x, y) for x, y in zip(a, b))
    return a == b


def formula(m, fid, args, want, label, known=(), noise=lambda c: False, result=None, where=None, st=None):
    """every path's result equals a polynomial. want: Poly, or function(sign oracle) -> Poly for case distinctions"""
    ai, outs = m.run(fid, args, label, st=st)
    if not ai:
        return []
    if not outs:
        m.rep.ob(m.rule, label, None, 'no path')
    for st, r in outs:
        f = m.facts([(c, x) for c, x in st.conds.items() if not noise(c)])
        if f is None:
            continue
        got = result(ai, st, r) if result else m.val(ai, st, r)
        if got is None:
            m.rep.ob(m.rule, label, None, 'result not understood: %s' % show(r)[:120])
            continue
        if callable(want):
            cases = assignments(m, f[0], want)
        else:
            cases = [({}, want)]
        fuzzy = bool(f[1])
        for a, w in cases:
            if w is None:
                continue
            good = agree(got, w)
            if not good and (fuzzy or not und_val(got, known)):
                good = None
            m.rep.ob(m.rule, label, good, 'computes %s instead of %s' % (repr(got)[:200], repr(w)[:200]), (fid, loc(m.P, fid)))
    return outs


def sym_args(P, fid, n=None):
    """(args, atoms, state): one atom per parameter; references point to cells holding the atom"""
    args, atoms, st = [], [], St()
    for i, ty in enumerate(P.fns[fid]['inputs']):
        x = mk('p', i, 'a%d' % i)
        atoms.append(x)
        if ty.startswith('&'):
            root = mk('H', 'arg', i)
            st.store[root] = {(): x}
            args.append(mk('ref', place(root)))
        else:
            args.append(x)
    return args, atoms, st

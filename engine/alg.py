"""Polynomial normal forms of arithmetic terms (exact algebra; rounding is not modelled).

A polynomial maps monomials to rationals; a monomial is (commuting atoms with exponents, ordered non-commuting atoms).
Vectors are commuting atoms that occur linearly; matrices are non-commuting atoms."""
from fractions import Fraction
from ai import *

CONSTS = {'ZERO': 0, 'ONE': 1, 'TWO': 2, 'THREE': 3, 'FOUR': 4, 'FIVE': 5, 'TEN': 10, 'HALF': Fraction(1, 2)}
ONE_M = ((), ())


class Poly:
    __slots__ = ('d',)

    def __init__(self, d=None):
        self.d = {m: c for m, c in (d or {}).items() if c != 0}

    @staticmethod
    def const(c):
        return Poly({ONE_M: Fraction(c)})

    @staticmethod
    def atom(a, e=1):
        return Poly({(((a, e),), ()): Fraction(1)})

    @staticmethod
    def nc(a):
        return Poly({((), (a,)): Fraction(1)})

    def __add__(self, o):
        o = lift(o)
        d = dict(self.d)
        for m, c in o.d.items():
            d[m] = d.get(m, 0) + c
        return Poly(d)
    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        return self + (-lift(o))

    def __rsub__(self, o):
        return lift(o) - self

    def __mul__(self, o):
        o = lift(o)
        d = {}
        for (s1, n1), c1 in self.d.items():
            for (s2, n2), c2 in o.d.items():
                e = {}
                for a, k in s1 + s2:
                    e[a] = e.get(a, 0) + k
                m = (tuple(sorted(((a, k) for a, k in e.items() if k), key=repr)), n1 + n2)
                d[m] = d.get(m, 0) + c1 * c2
        return Poly(d)

    def __rmul__(self, o):
        return lift(o) * self

    def inv(self):
        if len(self.d) == 1:
            (s, n), c = next(iter(self.d.items()))
            if not n:
                return Poly({(tuple(sorted(((a, -k) for a, k in s), key=repr)), ()): 1 / c})
        # normalise the sign/scale so that 1/(a-b) and -1/(b-a) agree
        k0 = min(self.d, key=repr) if self.d else None
        if k0 is None:
            return Poly.atom(('inv', 0))
        c0 = self.d[k0]
        q = Poly({m: c / c0 for m, c in self.d.items()})
        return Poly.atom(('inv', q.key())) * Poly.const(1 / c0)

    def __truediv__(self, o):
        return self * lift(o).inv()

    def key(self):
        return tuple(sorted(((m, c) for m, c in self.d.items()), key=repr))

    def __eq__(self, o):
        return isinstance(o, Poly) and self.d == o.d

    def __hash__(self):
        return hash(self.key())

    def is_zero(self):
        return not self.d

    def cleared(self):
        """a multiple of this (by denominators) without denominators"""
        r = self
        for _ in range(20):
            inv = {}
            for (s, n), c in r.d.items():
                for a, k in s:
                    if type(a) is tuple and len(a) == 2 and a[0] == 'inv' and type(a[1]) is tuple:
                        inv[a] = max(inv.get(a, 0), k)
            if not inv:
                return r
            a, top = max(inv.items(), key=repr)
            base, out = Poly(dict(a[1])), Poly()
            for (s, n), c in r.d.items():
                e = dict(s).get(a, 0)
                q = Poly({(tuple((b, k) for b, k in s if b != a), n): c})
                for _ in range(top - e):
                    q = q * base
                out = out + q
            r = out
        return r

    def same(self, o):
        """equal as rational functions"""
        return self == o or (self - o).cleared().is_zero()

    def atoms(self):
        for (s, n), c in self.d.items():
            for a, k in s:
                yield a
            for a in n:
                yield a

    def __repr__(self):
        def at(a):
            if type(a) is T:
                return show(a)
            if a == ():
                return '0'
            if isinstance(a, tuple) and isinstance(a[0], tuple):
                return '[%s]' % Poly(dict(a))
            if isinstance(a, tuple):
                return '%s(%s)' % (a[0], ', '.join(at(x) for x in a[1:]))
            return str(a)
        out = []
        for (s, n), c in sorted(self.d.items(), key=repr):
            f = [at(a) + ('^%d' % k if k != 1 else '') for a, k in s] + [at(a) for a in n]
            out.append(('%s ' % c if c != 1 or not f else '') + '*'.join(f))
        return ' + '.join(out) or '0'


def lift(x):
    return x if isinstance(x, Poly) else Poly.const(x)


def leaf(name):
    return name.split('::')[-1]


class Alg:
    """term -> Poly. `vec(atom)` says whether an atom is a vector; `extra(alg, term)` interprets further terms."""

    def __init__(self, vec=None, extra=None, mats=None):
        self.memo = {}
        self.vec = vec or (lambda a: False)
        self.extra = extra
        self.mats = mats or (lambda t: False)

    def strip(self, t):
        while t.op == 'refto':
            t = t.a[0]
        return t

    def norm(self, t):
        if isinstance(t, Poly):
            return t
        t = self.strip(t)
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._norm(t)
        return r

    def canon(self, x):
        """hashable canonical form of an argument of an uninterpreted function"""
        if type(x) is not T:
            return x
        return self.norm(x).key()

    def _norm(self, t):
        if self.extra:
            r = self.extra(self, t)
            if r is not None:
                return lift(r)
        o, a = t.op, t.a
        if o == 'c':
            try:
                return Poly.const(Fraction(str(a[0])))
            except (ValueError, ZeroDivisionError):
                return Poly.atom(('const', str(a[0])))
        if o == 'cdef':
            nm = leaf(a[0])
            if 'Scalar' in a[0] and nm in CONSTS:
                return Poly.const(CONSTS[nm])
            return Poly.atom(('const', nm))
        if o == 'bin' and a[0] in ('Add', 'Sub', 'Mul', 'Div'):
            x, y = self.norm(a[1]), self.norm(a[2])
            return x + y if a[0] == 'Add' else x - y if a[0] == 'Sub' else x * y if a[0] == 'Mul' else x / y
        if o == 'nc':
            return self.norm(a[0]) * self.norm(a[1])
        if o == 'neg':
            return -self.norm(a[0])
        if o == 'post' and type(a[1]) is T and a[1].op == 'app' and a[0] == 0:
            nm = leaf(a[1].a[0])
            if nm == 'lerp' and len(a[1].a) == 4:
                x, y, s = [self.norm(z) for z in a[1].a[1:]]
                return x + (y - x) * s
        if o == 'app':
            r = self.app(leaf(a[0]), a[0], a[1:])
            if r is not None:
                return r
            return Poly.atom(('app', leaf(a[0])) + tuple(self.canon(x) for x in a[1:]))
        if self.mats(t):
            return Poly.nc(t)
        return Poly.atom(t)

    def app(self, nm, full, args):
        A = [x for x in args if type(x) is T]
        if nm in ('from_usize', 'from', 'into', 'from_f64', 'from_f32') and len(A) == 1:
            return self.norm(A[0])
        if nm in ('lerp', 'lerped') and len(A) == 3:
            x, y, s = [self.norm(z) for z in A]
            return x + (y - x) * s
        if nm in ('zero', 'zeros') and not A:
            return Poly()
        if nm == 'one' and not A:
            return Poly.const(1)
        if nm == 'identity' and not A:
            return Poly.const(1)
        if nm in 'xyzw' and len(A) == 1 and ('Vector' in full or 'matrix' in full.lower()):
            return self.comp(A[0], nm)
        if nm == 'perp_dot' and len(A) == 2:
            return self.comp(A[0], 'x') * self.comp(A[1], 'y') - self.comp(A[0], 'y') * self.comp(A[1], 'x')
        if nm == 'from_xyz' and len(A) == 3 or nm == 'from_xy' and len(A) == 2:
            return self.fn('new', *[self.norm(x) for x in A])
        if nm == 'dot' and len(A) == 2:
            return self.dot(self.norm(A[0]), self.norm(A[1]))
        if nm == 'cross' and len(A) == 2:
            return self.cross(self.norm(A[0]), self.norm(A[1]))
        if nm in ('sum_over', 'mean_over') and len(A) == 2:
            return self.fn(nm, self.norm(A[0]), Poly.atom(A[1]))
        if nm == 'distance_squared' and len(A) == 2:
            d = self.norm(A[0]) - self.norm(A[1])
            return self.dot(d, d)
        if nm == 'distance' and len(A) == 2:
            d = self.norm(A[0]) - self.norm(A[1])
            return self.fn('sqrt', self.dot(d, d))
        if nm in ('length_squared', 'norm_squared') and len(A) == 1:
            d = self.norm(A[0])
            return self.dot(d, d)
        if nm in ('length', 'norm') and len(A) == 1:
            d = self.norm(A[0])
            return self.fn('sqrt', self.dot(d, d))
        if nm == 'abs' and len(A) == 1:
            x = self.norm(A[0])
            return self.fn('abs', min(x, -x, key=lambda p: repr(p.key())))
        return None

    def fn(self, nm, *ps):
        return Poly.atom(('app', nm) + tuple(p.key() for p in ps))

    def split(self, p):
        """[(coefficient, vector atom)] of a linear polynomial in vector atoms, else None"""
        out = []
        for (s, n), c in p.d.items():
            vs = [a for a, k in s if self.isvec(a)]
            if len(vs) != 1 or dict(s)[vs[0]] != 1 or n:
                return None
            out.append((Poly({(tuple(x for x in s if x[0] != vs[0]), ()): c}), vs[0]))
        return out

    def isvec(self, a):
        if isinstance(a, tuple) and a and a[0] == 'app' and a[1] in ('new', 'normalize', 'normalized', 'cross', 'pos'):
            return True
        if isinstance(a, tuple) and a and a[0] == 'cross':
            return True
        return self.vec(a)

    def comp(self, t, axis):
        return self.compp(self.norm(t), axis)

    def compp(self, p, axis):
        sp = self.split(p)
        if sp is None:
            return Poly.atom(('app', axis, p.key()))
        r = Poly()
        for c, v in sp:
            if isinstance(v, tuple) and v[0] == 'app' and v[1] == 'new' and len(v) == 2 + 3 and axis in 'xyz':
                r = r + c * Poly(dict(v[2 + 'xyz'.index(axis)]))
            elif isinstance(v, tuple) and v[0] == 'app' and v[1] == 'new' and len(v) == 2 + 2 and axis in 'xy':
                r = r + c * Poly(dict(v[2 + 'xy'.index(axis)]))
            else:
                r = r + c * Poly.atom((axis, v))
        return r

    def dot(self, p, q):
        a, b = self.split(p), self.split(q)
        if a is None or b is None:
            return Poly.atom(('app', 'dot') + tuple(sorted((p.key(), q.key()), key=repr)))
        r = Poly()
        for c1, v1 in a:
            for c2, v2 in b:
                r = r + c1 * c2 * Poly.atom(('dot',) + tuple(sorted((v1, v2), key=repr)))
        return r

    def cross(self, p, q):
        a, b = self.split(p), self.split(q)
        if a is None or b is None:
            return Poly.atom(('app', 'cross', p.key(), q.key()))
        r = Poly()
        for c1, v1 in a:
            for c2, v2 in b:
                if v1 == v2:
                    continue
                if repr(v1) <= repr(v2):
                    r = r + c1 * c2 * Poly.atom(('cross', v1, v2))
                else:
                    r = r - c1 * c2 * Poly.atom(('cross', v2, v1))
        return r

    def V(self, v, axis):
        return Poly.atom((axis, v))

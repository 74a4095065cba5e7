"""Exact real constants inside polynomials: square roots of rationals, the golden ratio, sines and cosines of rational
multiples of pi. Everything is reduced to a canonical form, so equality is decided by comparison."""
from fractions import Fraction
from alg import Poly, Alg

F = Fraction
PI = ('const', 'PI')


def rt(x):
    return ('rt', x)


def primes(n):
    out, p = [], 2
    while p * p <= n:
        while n % p == 0:
            out.append(p)
            n //= p
        p += 1
    if n > 1:
        out.append(n)
    return out


def sqrt_q(c):
    """square root of a positive rational"""
    n = c.numerator * c.denominator
    r = Poly.const(F(1, c.denominator))
    cnt = {}
    for p in primes(n):
        cnt[p] = cnt.get(p, 0) + 1
    for p, k in cnt.items():
        r = r * Poly.const(p ** (k // 2))
        if k % 2:
            r = r * Poly.atom(rt(p))
    return r


def sqrt(p):
    p = reduce(p)
    if not p.d:
        return p
    if any(n for s, n in p.d):
        return Poly.atom(rt(p.key()))
    # common even powers come out of the root (sizes are taken to be positive)
    out = Poly.const(1)
    for a in set(p.atoms()):
        k = min(dict(s).get(a, 0) for s, n in p.d)
        k -= k % 2
        if k:
            out = out * Poly.atom(a, k // 2)
            p = p * Poly.atom(a, -k)
    if len(p.d) == 1:
        (s, n), c = next(iter(p.d.items()))
        if not s and c > 0:
            return out * sqrt_q(c)
    # pull a rational content out of the root
    c0 = abs(p.d[min(p.d, key=repr)])
    q = Poly({m: c / c0 for m, c in p.d.items()})
    return out * sqrt_q(F(c0)) * Poly.atom(rt(q.key()))


def power(p, k):
    if k < 0:
        return power(invert(p), -k)
    r = Poly.const(1)
    for _ in range(k):
        r = r * p
    return r


def invert(p):
    p = reduce(p)
    if len(p.d) <= 1:
        return reduce(p.inv())
    if all(isinstance(a, tuple) and a[0] == 'rt' and isinstance(a[1], int) for a in p.atoms()):
        num = Poly.const(1)
        for _ in range(8):
            ats = sorted(set(p.atoms()))
            if not ats:
                return num * Poly.const(1 / p.d[((), ())]) if p.d else Poly.atom(('inv', 0))
            a = ats[0]
            conj = Poly({m: (-c if dict(m[0]).get(a, 0) % 2 else c) for m, c in p.d.items()})
            num, p = reduce(num * conj), reduce(p * conj)
    return p.inv()


def base_of(a):
    return Poly.const(a[1]) if isinstance(a[1], int) else Poly(dict(a[1]))


def is_key(x):
    return isinstance(x, tuple) and all(isinstance(m, tuple) and len(m) == 2 and isinstance(m[1], Fraction) and isinstance(m[0], tuple)
                                        and len(m[0]) == 2 and isinstance(m[0][0], tuple) for m in x)


def atom(a):
    if a == ('const', 'PHI'):
        return Poly.const(F(1, 2)) + Poly.const(F(1, 2)) * Poly.atom(rt(5))
    if isinstance(a, tuple) and len(a) >= 3 and a[0] == 'app':
        if a[1] == 'sqrt' and is_key(a[2]):
            return sqrt(Poly(dict(a[2])))
        if a[1] in ('sin', 'cos') and is_key(a[2]):
            return trig(a[1], Poly(dict(a[2])))
        if a[1] in ('from', 'into') and is_key(a[2]):
            return reduce(Poly(dict(a[2])))
        return Poly.atom(a[:2] + tuple(reduce(Poly(dict(x))).key() if is_key(x) else x for x in a[2:]))
    if isinstance(a, tuple) and len(a) == 2 and a[0] == 'inv' and is_key(a[1]):
        return invert(Poly(dict(a[1])))
    return Poly.atom(a)


def settle(p):
    """exponents of square roots back to 0 or 1"""
    for _ in range(12):
        out, again = Poly(), False
        for (s, n), c in p.d.items():
            t = Poly.const(c)
            for a, k in s:
                if isinstance(a, tuple) and a[0] == 'rt' and k not in (0, 1):
                    again = True
                    q, r = divmod(k, 2)
                    t = t * power(base_of(a), q)
                    if r:
                        t = t * Poly.atom(a)
                else:
                    t = t * Poly.atom(a, k)
            if n:
                t = t * Poly({((), n): F(1)})
            out = out + t
        p = out
        if not again:
            return p
    return p


def reduce(p):
    out = Poly()
    for (s, n), c in p.d.items():
        t = Poly.const(c)
        for a, k in s:
            x = atom(a)
            if len(x.d) == 1 and next(iter(x.d)) == (((a, 1),), ()):
                t = t * Poly.atom(a, k)
            else:
                t = t * power(x, k)
        if n:
            t = t * Poly({((), n): F(1)})
        out = out + t
    return settle(out)


def trig(nm, p):
    p = reduce(p)
    q = None
    if not p.d:
        q = F(0)
    elif len(p.d) == 1:
        (s, n), c = next(iter(p.d.items()))
        if s == ((PI, 1),) and not n:
            q = c
    if q is None:
        # odd and even functions
        k0 = min(p.d, key=repr)
        if p.d[k0] < 0:
            p = -p
            return (-1 if nm == 'sin' else 1) * Poly.atom(('app', nm, p.key()))
        return Poly.atom(('app', nm, p.key()))
    q = q % 2
    if nm == 'sin':
        q = (q - F(1, 2)) % 2      # sin x = cos(x - pi/2)
    if q > 1:
        q = 2 - q
    sg = 1
    if q > F(1, 2):
        q, sg = 1 - q, -1
    R = lambda n: Poly.atom(rt(n))
    C = Poly.const
    tab = {F(0): C(1), F(1, 6): C(F(1, 2)) * R(3), F(1, 4): C(F(1, 2)) * R(2), F(1, 3): C(F(1, 2)), F(1, 2): Poly(),
           F(1, 12): C(F(1, 4)) * R(2) * (R(3) + 1), F(5, 12): C(F(1, 4)) * R(2) * (R(3) - 1),
           F(1, 8): C(F(1, 2)) * sqrt(C(2) + R(2)), F(3, 8): C(F(1, 2)) * sqrt(C(2) - R(2)),
           F(1, 10): C(F(1, 4)) * sqrt(C(10) + 2 * R(5)), F(3, 10): C(F(1, 4)) * sqrt(C(10) - 2 * R(5)),
           F(1, 5): C(F(1, 4)) * (R(5) + 1), F(2, 5): C(F(1, 4)) * (R(5) - 1)}
    if q in tab:
        return sg * tab[q]
    return sg * Poly.atom(('app', 'cos', (C(q) * Poly.atom(PI)).key()))


class Exact(Alg):
    def isvec(self, a):
        if isinstance(a, tuple) and a and a[0] == 'app' and a[1] == 'splat':
            return True
        return Alg.isvec(self, a)

    def _norm(self, t):
        if t.op == 'c' and len(t.a) > 1 and t.a[1] in ('f32', 'f64'):
            try:
                x = float(t.a[0])
                if abs(x - 3.14159265358979) < (2e-7 if t.a[1] == 'f32' else 1e-14):
                    return Poly.atom(PI)
            except ValueError:
                pass
        if t.op == 'cdef' and t.a[0].endswith('consts::PI'):
            return Poly.atom(PI)
        if t.op == 'cast' and t.a[1] in ('f32', 'f64'):
            return self.norm(t.a[-1])
        return Alg._norm(self, t)

    def compp(self, p, axis):
        sp = self.split(p)
        if sp is not None:
            r = Poly()
            for c, v in sp:
                if isinstance(v, tuple) and v[0] == 'app' and v[1] == 'splat' and len(v) == 3:
                    r = r + c * Poly(dict(v[2]))
                else:
                    r = r + c * Alg.compp(self, Poly.atom(v), axis)
            return r
        return Alg.compp(self, p, axis)

    def real(self, t):
        return reduce(self.norm(t))

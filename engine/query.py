"""Comparing read-only queries with case specifications over link terms."""
from ai import *
from mesh import *
from cc import CC, Contradiction
import models

FUZZY = ('app', 'opq', 'post', 'f', 'discr', 'at', 'item', 'count', 'fold', 'acc', 'coll')


def L(op, x):
    return mk(op, MESH, x)


def n(x): return L('N', x)
def p(x): return L('P', x)
def t(x): return L('T', x)
def o(x): return L('O', x)
def f(x): return L('F', x)


HALF, VERT, FACE = '.halfedges', '.vertices', '.faces'
ROOT = place(mk('M', SELF))


def elem(store, x):
    """reference to a stored element"""
    return mk('ref', pl_ext(ROOT, store, mk('ix', x)))


def edge(x): return elem(HALF, x)
def vertex(x): return elem(VERT, x)
def face(x): return elem(FACE, x)


def fuzzy(*ts):
    return any(contains(x, lambda y: y.op in FUZZY) for x in ts)


class Q:
    """one analysed query"""

    def __init__(self, P, fid, args, hyps=(), summarise=True, loop=3, st=None, noinline=(), extra_hooks=None, keep_panics=False, plain=False, stepwise=False):
        self.plain = plain
        self.P, self.fid = P, fid
        self.r = MeshRun(P, fid, args, hyps, loop=loop, summarise=summarise, extra_hooks=extra_hooks, plain=plain)
        self.ai, self.dom = self.r.ai, self.r.dom
        self.ai.keep_panics = keep_panics
        self.ai.noinline = set(noinline)
        self.ai.joins = False
        self.ai.stepwise = stepwise
        self.hyps = hyps
        self.where = (fid, P.fns[fid]['span'])
        self.outs = self.r.run(st)

    def cc(self, st, extra=()):
        """congruence closure of the path; None if contradictory"""
        k = CC(MESH, plain=self.plain)
        try:
            for a, b in tuple(self.dom.hyps_src) + tuple(st.eqs) + tuple(extra):
                k.equate(a, b)
            for x, v in st.conds.items():
                if x.op == 'bin' and x.a[0] == 'Eq' and v == 1:
                    k.equate(x.a[1], x.a[2])
            for x, v in st.conds.items():
                if x.op == 'bin' and x.a[0] == 'Eq' and v == 0:
                    k.differ(x.a[1], x.a[2])
        except Contradiction:
            return None
        return k

    def val(self, st, v):
        """value behind references"""
        for _ in range(4):
            if v.op == 'ref':
                v = self.ai.deref(st, v)
        return v

    def ident(self, st, v):
        """id of a returned element, handle or id"""
        v = self.val(st, v)
        if v.op in ('ini', 'adt', 'upd'):
            return self.ai.proj1(v, '.id')
        return v


def lits(k, ls):
    """k extended by literals (a, b, equal?) or None"""
    k = k.copy()
    try:
        for a, b, tr in ls:
            (k.equate if tr else k.differ)(a, b)
    except Contradiction:
        return None
    return k


def eq(k, a, b):
    return k.add(a) == k.add(b)


def opt(q, st, v):
    """[(state, payload | None)] of an option value"""
    return [(s, x) for s, x, _ in models.opt_cases(q.ai, st, v)]


# ---------------------------------------------------------------- three-valued tests under a path's closure
def is_eq(k, a, b):
    """True / False / None: a == b on this path"""
    x, y = k.add(a), k.add(b)
    if x == y:
        return True
    for u, v in k.diseqs:
        if {k.add(u), k.add(v)} == {x, y}:
            return False
    return False if k.impossible(a, b) else None


def any3(xs):
    xs = list(xs)
    if any(x is True for x in xs):
        return True
    return None if any(x is None for x in xs) else False


def all3(xs):
    xs = list(xs)
    if any(x is False for x in xs):
        return False
    return None if any(x is None for x in xs) else True


def not3(x):
    return None if x is None else not x


def cycle(k, first, step, limit=5):
    """(elements first, step(first), ... , closed): closed when the traversal provably returned to first"""
    xs = [first]
    x = step(first)
    while len(xs) < limit:
        if is_eq(k, x, first) is True:
            return xs, True
        xs.append(x)
        x = step(x)
    return xs, is_eq(k, x, first) is True


def cw(x): return n(t(x))


def exists(k, first, step, pred):
    """three-valued: some element of the cycle satisfies pred"""
    xs, closed = cycle(k, first, step)
    r = any3(pred(x) for x in xs)
    if r is True:
        return True
    if closed:
        return r
    back = BACK.get(step)
    x = first
    for _ in range(4 if back else 0):
        x = back(x)
        if pred(x) is True:
            return True
    return None


BACK = {n: p, p: n, cw: lambda x: t(p(x))}


def exists_around(k, v, pred):
    """... of the edges leaving v"""
    e = is_eq(k, L('V', v), MAX)
    if e is None:
        return None
    return False if e else exists(k, L('V', v), cw, pred)

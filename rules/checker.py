"""K01: the validity check accepts exactly the consistent meshes."""
from ai import *
from mesh import *
from query import *
from queries import Run, dv_hooks, n, p, t, o, f
import models

NAMES = {HALF: 'edge', VERT: 'vertex', FACE: 'face'}


def over_store(it):
    """the element store an iterator visits completely, else None"""
    b = it
    while b.op == 'adv' or b.op == 'it' and b.a[0] in ('map', 'cloned', 'copied', 'inspect', 'enumerate', 'peekable', 'fuse'):
        b = b.a[0] if b.op == 'adv' else b.a[1]
    if b.op == 'it' and b.a[0] == 'ref' and b.a[1].op == 'ref':
        pl = b.a[1].a[0]
        for s in (HALF, VERT, FACE):
            if pl is pl_ext(ROOT, s):
                return s
    return None


def replay(q, states, ev):
    """states in which the recorded search does not match its generic element"""
    it, kind, cl = ev[1], ev[2], ev[4]
    out = []
    for st0 in states:
        for s, y, _ in models.gen_item(q.ai, st0, it, 'r', None):
            arg = y
            if kind == 'find':
                arg, s = models.tmpref(q.ai, s, y)
            for s2, v in q.ai.call_value(s, cl, [arg], None):
                if kind == 'find_map':
                    out += [s3 for s3, x3, _ in models.opt_cases(q.ai, s2, v) if x3 is None]
                else:
                    want = kind == 'all'
                    out += [s3 for s3, b3 in q.ai.fork(s2, v) if b3 is want]
    return out


def accepted(q, st):
    """{store: (generic element, [states in which it passed every test])} on an accepting path"""
    res = {}
    gens = {}
    for s in (HALF, VERT, FACE):
        gens[s] = mk('item', mk('it', 'idx', mk('ref', pl_ext(ROOT, s))), 'r')
    evs = [ev for ev in st.events() if ev[0] == 'nomatch' and over_store(ev[1])]
    for s in (HALF, VERT, FACE):
        mine = [ev for ev in evs if over_store(ev[1]) == s]
        cur = [st]
        for ev in mine:
            cur = replay(q, cur, ev)
        # loops: the generic element of a completed loop
        loop = {}
        done = {over_store(c_.a[0]) for c_, v_ in st.conds.items() if c_.op == 'exhausted' and v_ == 1}
        # a loop over the whole store that ended at once: there is no such element
        empty = {over_store(c_.a[0]) for c_, v_ in st.conds.items() if c_.op == 'exhausted' and v_ == 1 and c_.a[0].op != 'adv'}
        items = {y for c_ in st.conds for y in walk(c_) if y.op == 'item' and y.a[0] == gens[s].a[0] and y is not gens[s]}
        if s in done:
            sub = {y: gens[s] for y in items}
            s2 = [c.copy() for c in cur]
            for c in s2:
                for c_, v_ in list(st.conds.items()):
                    if any(contains(c_, lambda z: z is y) for y in items):
                        c.conds[subst(c_, sub)] = v_
            cur = s2
        res[s] = (gens[s], cur, bool(mine) or (s in done and bool(items)), s in done, s in empty)
    return res


def numval(x, n, of=None):
    """value of a term over the number n of edges around the face; None: not such a term"""
    if isconst(x):
        return x.a[0] if isinstance(x.a[0], int) else None
    if x.op in ('count', 'len'):
        if of is not None and not contains(x, lambda z: z is of):
            return None
        it, cap = x.a[0], None
        while it.op == 'it' and it.a[0] in ('take', 'map', 'cloned', 'copied', 'inspect'):
            if it.a[0] == 'take':
                k = numval(it.a[2], n)
                if k is None:
                    return None
                cap = k if cap is None else min(k, cap)
            it = it.a[1]
        if it.op == 'it' and it.a[0] not in ('val', 'ref'):
            return None
        return n if cap is None else min(n, cap)
    if x.op == 'bin' and len(x.a) == 3:
        l, r = numval(x.a[1], n, of), numval(x.a[2], n, of)
        if l is None or r is None:
            return None
        return {'Lt': int(l < r), 'Eq': int(l == r), 'Add': l + r, 'Sub': l - r, 'Mul': l * r}.get(x.a[0])
    return None


def admits(s, n, of=None):
    """do the conditions of the path on the number of edges around the face admit n of them (None: unclear)"""
    res, some_ = True, False
    for c_, v_ in s.conds.items():
        if not contains(c_, lambda z: z.op in ('count', 'len')):
            continue
        if of is not None and not contains(c_, lambda z: z is of):
            continue
        x = numval(c_, n, of)
        if x is None or v_ not in (0, 1):
            if res:
                res = None
        else:
            some_ = True
            if x != v_:
                return False
    return res


def atleast3(q, s, y):
    """the path requires the face to have at least three edges"""
    r = [admits(s, k, y) for k in (1, 2)]
    if all(x is False for x in r):
        return True
    return False if any(x is True for x in r) else None


def toosmall(s):
    """the path requires some face to have less than three edges"""
    return any(contains(c_, lambda z: z.op in ('count', 'len')) for c_ in s.conds) and all(admits(s, k) is False for k in range(3, 12))


def k01(P, rep, tier, cfg, rel):
    R = Run(P, rep, 'accept')
    H = dv_hooks(P)
    q = R.q('MeshChecker', 'check', [SELF], extra_hooks=H, plain=True)
    if not q:
        return
    n_ok = 0
    seen_ = {}
    for st, r in q.outs:
        if q.cc(st) is None or not is_ok(q, st, r):
            continue
        n_ok += 1
        acc = accepted(q, st)

        def inv(store, label, holds):
            y, states, looked, loop, empty = acc[store]
            if empty:
                return
            seen_[store] = seen_.get(store, 0) + 1
            if not looked:
                if loop:
                    return
                rep.ob('accept', label, None if any(ev[0] == 'nomatch' and not over_store(ev[1]) for ev in st.events()) else False,
                       'accepts a mesh without looking at every %s' % NAMES[store], q.where)
                return
            for s in states:
                k = q.cc(s)
                if k is None:
                    continue
                ok_ = holds(k, s, y)
                if not ok_ and any(c_.op != 'exhausted' and contains(c_, lambda z: z.op in ('app', 'opq', 'f')) for c_ in s.conds):
                    ok_ = None
                rep.ob('accept', label, ok_, 'accepts a mesh in which this fails', q.where)
        inv(HALF, 'the twin of the twin is the edge', lambda k, s, y: eq(k, t(t(y)), y))
        inv(HALF, 'the predecessor of the successor is the edge', lambda k, s, y: eq(k, p(n(y)), y))
        inv(HALF, 'the successor of the predecessor is the edge', lambda k, s, y: eq(k, n(p(y)), y))
        inv(HALF, 'the successor has the same face', lambda k, s, y: eq(k, f(n(y)), f(y)))
        inv(HALF, 'the successor starts where the twin starts', lambda k, s, y: eq(k, o(n(y)), o(t(y))))
        inv(HALF, 'there is a face on one side', lambda k, s, y: lits(k, [(f(y), MAX, True), (f(t(y)), MAX, True)]) is None)
        inv(VERT, 'the remembered edge leaves the vertex', lambda k, s, y: lits(k, [(L('V', y), MAX, False), (o(L('V', y)), y, False)]) is None)
        inv(FACE, 'the remembered edge carries the face', lambda k, s, y: eq(k, f(L('FE', y)), y))
        inv(FACE, 'there are at least three edges around the face', lambda k, s, y: atleast3(q, s, y))
    for store in (HALF, VERT, FACE):
        rep.ob('reachable', 'accepting path with at least one %s' % NAMES[store], bool(seen_.get(store)) or None, 'every accepting path has none', q.where)
    rep.ob('reachable', 'accepting path', n_ok >= 1 or None, 'no accepting path', q.where)
    # ---- nothing else is rejected
    R2 = Run(P, rep, 'reject')
    q = R2.q('MeshChecker', 'check', [SELF], extra_hooks=H)
    n_err = 0
    for st, r in q.outs:
        if q.cc(st) is None or is_ok(q, st, r):
            continue
        if refuted(q, st):
            continue
        n_err += 1
        k = q.cc(st)
        ys = {y for c_ in st.conds for y in walk(c_) if y.op == 'item'}
        bare = any(is_eq(k, f(y), MAX) is True and is_eq(k, f(t(y)), MAX) is True for y in ys)
        small = toosmall(st)
        good = bare or small
        if not good and any(contains(c_, lambda z: z.op in ('app', 'opq', 'f', 'count')) for c_ in st.conds):
            good = None
        rep.ob('reject', 'only inconsistent meshes are rejected', good, 'rejects a consistent mesh under %s' % [(show(c_), v_) for c_, v_ in st.conds.items()], q.where)
    rep.ob('reachable', 'rejecting path', n_err >= 2 or None, 'less than two ways to reject', q.where)
    rep.floor('accept', 9)


def is_ok(q, st, r):
    return r.op == 'adt' and r.a[1] == 'Ok'


def refuted(q, st):
    """the path claims that a search along a closed cycle finds nothing, but it does"""
    for ev in st.events():
        if ev[0] != 'nomatch' or not q.dom.is_summarised(ev[1]):
            continue
        kind, first, mesh, nm = q.dom.iter_parts(ev[1])
        step, back = (n, p) if kind == 'loop' else (lambda x: n(t(x)), lambda x: t(p(x)))
        for x in (first, step(first), back(first), step(step(first)), back(back(first))):
            bad = False
            el = q.ai.deref(st, elem(HALF, x))
            arg, s = (el, st)
            if ev[2] == 'find':
                arg, s = models.tmpref(q.ai, st, el)
            rest = []
            for s2, v in q.ai.call_value(s, ev[4], [arg], None):
                if ev[2] == 'find_map':
                    rest += [s3 for s3, x3, _ in models.opt_cases(q.ai, s2, v) if x3 is None]
                else:
                    rest += [s3 for s3, b3 in q.ai.fork(s2, v) if b3 is (ev[2] == 'all')]
            if all(q.cc(s3) is None for s3 in rest):
                return True
    return False

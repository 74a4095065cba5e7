"""S01: element storage. Ids are slots; deleted elements are invisible; only deleted slots are reused."""
from ai import *
from spec import *
from mesh import *
import report

SELF_ = mk('p', 0, 'self')
I = mk('p', 1, 'i')
VAL = mk('p', 2, 'v')
DV = 'procedural_modelling::util::deletable::DeletableVector'


def fields(P):
    a = P.adts.get(DV)
    if not a:
        raise report.Fatal('the soft-delete container is gone')
    fs = a['variants'][0]['fields']
    data = [f[0] for f in fs if 'Vec<T>' in f[1]]
    free = [f[0] for f in fs if 'Vec<I>' in f[1]]
    if len(data) != 1 or len(free) != 1:
        return None, None
    return pl_ext(place(mk('M', SELF_)), '.' + data[0]), pl_ext(place(mk('M', SELF_)), '.' + free[0])


def idx_of(t):
    """the index value behind index(&x), or None"""
    if t.op == 'app' and last(t.a[0]) == 'index' and len(t.a) == 2:
        return strip(t.a[1])
    return None


def slot(D, t):
    """x if t is the place/reference of slot index(x)"""
    if t.op == 'ref':
        t = t.a[0]
    if t.op == 'ini':
        t = t.a[0]
    if t.op == 'pl' and t.a[:-1] == D.a and type(t.a[-1]) is T and t.a[-1].op == 'ix':
        return idx_of(t.a[-1].a[0])
    return None


def alive(st, D, x):
    """truth of is_deleted on slot x in this path: 1/0/None"""
    for t, v in st.conds.items():
        if app(t, 'is_deleted') and isinstance(v, int) and slot(D, t.a[1]) is x:
            return v
    return None


def val_deleted(st, v):
    for t, b in st.conds.items():
        if app(t, 'is_deleted') and isinstance(b, int) and strip(t.a[1]) is v:
            return b
    return None


def with_id(t, v, i):
    """t is v with its id set to i"""
    if t.op == 'post' and type(t.a[1]) is T and app(t.a[1], 'set_id'):
        return strip(t.a[1].a[1]) is v and t.a[1].a[2] is i
    return False


def newlen(t, D):
    return app(t, 'new') and len(t.a) == 2 and is_len(t.a[1], D)


def is_len(t, D):
    return t is mk('len', mk('ini', D)) or t.op == 'len' and t.a[0] is mk('ini', D)


def writes(st, D):
    """[(slot index, value)] for writes to elements of D, and whole-vector writes"""
    el, whole = [], []
    for e in st.events():
        if e[0] == 'w':
            if slot(D, e[1]) is not None or (e[1].a[:len(D.a)] == D.a and len(e[1].a) > len(D.a)):
                el.append((slot(D, e[1]), e[2], e[1]))
            elif e[1] is D:
                whole.append(e[2])
    return el, whole


def container(P, rep):
    D, X = fields(P)
    if D is None:
        rep.ob('container', 'fields', None, 'element store and free list not recognised')
        return

    def run(name):
        ids = P.inherent_all('DeletableVector', name)
        if len(ids) != 1:
            raise report.Fatal('DeletableVector::%s' % name)
        fid = ids[0]
        a = [SELF_, VAL] if name == 'push' else [SELF_, I, VAL]
        a = a[:P.fns[fid]['body']['argc']]
        try:
            ai, outs = runfn(P, fid, a, keep_panics=True)
        except Exception as ex:
            rep.ob('container', name, None, 'analysis: %s' % ex)
            return None, [], (fid, None)
        rep.analysed(*ai.visited)
        rep.paths += len(outs)
        return ai, outs, (fid, P.fns[fid]['span'])

    ob = lambda key, good, msg, w: rep.ob('container', key, good, msg, w)
    for n in ('get', 'get_mut'):
        ai, outs, w = run(n)
        for st, r in outs:
            x = slot(D, r)
            ob(n + ' returns the slot of the id', (x is I) if x is not None or r.op == 'ref' else None, 'returns %s' % show(r), w)
            ob(n + ' refuses deleted elements', alive(st, D, I) == 0, 'returns an element without checking that it is not deleted', w)
    ai, outs, w = run('has')
    if ai:
        for st, b in bools(ai, outs):
            lt = None
            for t, v in st.conds.items():
                if t.op == 'bin' and t.a[0] == 'Lt' and idx_of(t.a[1]) is I and is_len(t.a[2], D):
                    lt = v
            al = alive(st, D, I)
            good = (lt == 1 and al == 0) if b else (lt == 0 or al == 1)
            known = all(t.op == 'bin' or app(t, 'is_deleted') for t in st.conds)
            ob('has is true exactly for existing, undeleted slots', good or (False if known else None), 'result %s with bound check %s, deleted %s' % (b, lt, al), w)
    ai, outs, w = run('len')
    for st, r in outs:
        good = r.op == 'bin' and r.a[0] == 'Sub' and is_len(r.a[1], D) and is_len(r.a[2], X)
        ob('len excludes deleted slots', good or (None if r.op == 'count' else False), 'returns %s' % show(r), w)
    ai, outs, w = run('capacity')
    for st, r in outs:
        ob('capacity counts all slots', is_len(r, D), 'returns %s' % show(r), w)
    for n in ('push', 'allocate'):
        ai, outs, w = run(n)
        kinds = set()
        for st, r in outs:
            el, whole = writes(st, D)
            pops = [e for e in st.events() if e[0] == 'pop' and e[1] is X]
            free_w = [e for e in st.events() if e[0] == 'w' and e[1] is X]
            if pops:
                kinds.add('reuse')
                pi = pops[0][2]
                ok_ = len(pops) == 1 and r is pi and len(free_w) == 1 and not whole
                if n == 'push':
                    ok_ = ok_ and len(el) == 1 and el[0][0] is pi and with_id(el[0][1], VAL, pi)
                else:
                    ok_ = ok_ and not el
                ob(n + ' reuses exactly the freed slot', ok_, 'freed slot %s, result %s, writes %s' % (show(pi), show(r), [show(e[2]) for e in el]), w)
            else:
                kinds.add('grow')
                ap = pushes(st, D)
                base = mk('ini', D)
                good_id = newlen(r, D) or (app(r, 'new') and r.a[1].op == 'bin' and r.a[1].a[0] == 'Sub'
                                           and r.a[1].a[1].op == 'len' and r.a[1].a[1].a[0].op == 'push' and r.a[1].a[1].a[0].a[0] is base
                                           and r.a[1].a[2] is num(1)) or \
                    (app(r, 'new') and r.a[1].op == 'len' and False)
                if not good_id and app(r, 'new'):
                    good_id = same_len(r.a[1], base, D)
                okv = len(ap) == 1 and (with_id(ap[0], VAL, r) if n == 'push' else app(ap[0], 'allocate'))
                if n == 'push' and len(ap) == 1 and app(ap[0], 'allocate') and len(el) == 1 and el[0][0] is r and with_id(el[0][1], VAL, r):
                    okv, el = True, []      # an empty slot first, the value into that slot afterwards
                ob(n + ' appends a slot whose id is its position', bool(good_id) and okv and not el and not free_w,
                   'id %s, appended %s' % (show(r), [show(x) for x in ap]), w)
            if n == 'push':
                ob('push refuses elements that already have an id', val_deleted(st, VAL) == 1, 'the pushed element may already have an id', w)
        if ai:
            ob(n + ' prefers freed slots', kinds == {'reuse', 'grow'}, 'cases found: %s' % sorted(kinds), w)
    ai, outs, w = run('set')
    for st, r in outs:
        el, whole = writes(st, D)
        ob('set writes the value with that id into that slot', len(el) == 1 and el[0][0] is I and with_id(el[0][1], VAL, I) and not whole,
           'writes %s' % [(show(a), show(b)) for a, b, c in [(x[2], x[1], 0) for x in el]], w)
        ob('set refuses to overwrite a live element', alive(st, D, I) == 1, 'no check that the slot is free', w)
        ob('set refuses a value that already has an id', val_deleted(st, VAL) == 1, 'no check', w)
    ai, outs, w = run('delete_internal')
    for st, r in outs:
        el, whole = writes(st, D)
        dels = [x for x in el if x[1].op == 'post' and type(x[1].a[1]) is T and app(x[1].a[1], 'delete')]
        ob('deletion marks the element', len(el) == 1 and len(dels) == 1 and el[0][0] is I, 'element writes %s' % [show(x[1]) for x in el], w)
        ob('deletion frees the slot', pushes(st, X) == [I], 'freed %s' % [show(x) for x in pushes(st, X)], w)
    ai, outs, w = run('clear')
    for st, r in outs:
        d = {e[1]: e[2] for e in st.events() if e[0] == 'w'}
        ob('clear empties the store', d.get(D) is mk('array'), 'store becomes %s' % (show(d[D]) if D in d else 'unchanged'), w)
        ob('clear empties the free list', d.get(X) is mk('array'), 'free list becomes %s' % (show(d[X]) if X in d else 'unchanged'), w)
    for n in ('iter', 'iter_mut'):
        ai, outs, w = run(n)
        for st, r in outs:
            items = models.gen_item(ai, st, r, '*', None)
            for s, x, _ in items:
                ok_ = x.op == 'ref' and x.a[0].a[:len(D.a)] == D.a
                dele = [v for t, v in s.conds.items() if app(t, 'is_deleted') and strip(t.a[1]) is x]
                ob(n + ' yields only live elements of the store', (ok_ and dele == [0]) if r.op == 'it' else None, 'element %s, deleted: %s' % (show(x), dele), w)
            # nothing is skipped or stopped early: only element-wise filtering
            y = r
            while y.op == 'it' and y.a[0] in ('filter', 'map', 'filter_map', 'rev', 'inspect'):
                y = y.a[1]
            ob(n + ' visits every slot', (y.op == 'it' and y.a[0] in ('ref', 'iter', 'iter_mut', 'val')) if r.op == 'it' else None, 'iterates %s' % show(r), w)


def same_len(t, base, D):
    return False


def elements(P, rep):
    impls = [i for i in P.impls if i.get('trait', '').endswith('util::deletable::Deletable')]
    rep.floor('element', 12)
    for im in impls:
        nm = last(im['self_adt'])
        for fid, tid in im['items']:
            m = last(tid)
            if fid not in P.fns:
                continue
            a = [SELF_, I][:P.fns[fid]['body']['argc']]
            dom = MeshDomain(P)
            ai, outs = runfn(P, fid, a, keep_panics=True, hooks={'*': star_hook(P, dom)}, dom=dom)
            rep.analysed(*ai.visited)
            w = (fid, P.fns[fid]['span'])
            idp = pl_ext(place(mk('M', SELF_)), '.id')
            ini = mk('ini', idp)
            for st, r in outs:
                wr = [(e[1], e[2]) for e in effects(st) if e[0] == 'w']
                k = '%s.%s' % (nm, m)
                if m == 'is_deleted':
                    t = ai.binop('Eq', ini, MAX)
                    rep.ob('element', k + ' tests the id', r is t or ai.decide(st, r) is not None and ai.decide(st, t) == ai.decide(st, r), 'returns %s' % show(r), w)
                elif m == 'delete':
                    rep.ob('element', k + ' clears the id', (idp, MAX) in wr, 'writes %s' % [(show(x), show(y)) for x, y in wr], w)
                elif m == 'set_id':
                    rep.ob('element', k + ' stores the id', (idp, I) in wr and len(wr) == 1, 'writes %s' % [(show(x), show(y)) for x, y in wr], w)
                    rep.ob('element', k + ' only names unnamed elements', ai.decide(st, ai.binop('Eq', ini, MAX)) == 1, 'no check', w)
                elif m == 'allocate':
                    rep.ob('element', k + ' has no id', ai.proj1(r, '.id') is MAX, 'id %s' % show(ai.proj1(r, '.id')), w)


def lifecycle(P, rep, tier):
    """every slot taken with allocate() is filled on every path, for all mesh operations"""
    import topology
    loop = 3 if tier == 'thorough' else 2
    seen = set()
    for label, tr, name, args, hyps, kw in topology.entries(tier):
        fid = P.method(tr, name)
        if fid is None:
            raise report.Fatal('%s::%s' % (tr, name))
        try:
            r = MeshRun(P, fid, args, hyps, loop=loop, **kw.get('dk', {}))
            outs = r.run()
        except Exception as ex:
            rep.ob('lifecycle', '%s [%s]' % (name, label), None, str(ex))
            continue
        rep.paths += len(outs)
        rep.analysed(*r.ai.visited)
        for st, ret in outs:
            al = [e for e in st.events() if e[0] == 'alloc']
            sets = [e for e in st.events() if e[0] == 'set']
            for e in al:
                p = pl_ext(e[1], mk('ix', e[2]))
                n = sum(1 for s in sets if s[1] is p)
                rep.ob('lifecycle', '%s [%s]: new %s slot is filled exactly once' % (name, label, str(e[1].a[-1])[1:]), n == 1,
                       'filled %d times' % n, e[3])
            known = {pl_ext(e[1], mk('ix', e[2])) for e in al}
            for s in sets:
                rep.ob('lifecycle', '%s [%s]: only fresh slots are filled' % (name, label), s[1] in known, 'fills %s' % show(s[1]), s[3])


def s01(P, rep, tier, cfg, rel):
    container(P, rep)
    elements(P, rep)
    lifecycle(P, rep, tier)
    rep.floor('container', 20)
    rep.floor('lifecycle', 60)

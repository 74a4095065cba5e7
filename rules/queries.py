"""Q01: local queries answer what the link structure says. Q02: whole-mesh views and flipping."""
from ai import *
from mesh import *
from query import *
import models
import report

e, v, w, F0 = E('e'), V('v'), V('w'), F('f')


def target(x): return o(t(x))


def dv_hooks(P):
    """element-store operations kept symbolic"""
    H = {}

    def h(name, fn):
        ids = P.inherent_all('DeletableVector', name)
        if len(ids) == 1:
            H[ids[0]] = fn

    def it(ai, st, c, args, site):
        return [(st, mk('it', 'ref', args[0]))]

    def fn(name):
        def g(ai, st, c, args, site):
            return [(st, mk('dv', name, args[0].a[0] if args[0].op == 'ref' else args[0], *args[1:]))]
        return g

    def clear(ai, st, c, args, site):
        st = st.copy()
        st.event('clear', args[0].a[0] if args[0].op == 'ref' else args[0], None, site)
        return [(st, UNIT)]
    h('iter', it)
    h('iter_mut', it)
    h('clear', clear)
    for nm in ('len', 'capacity', 'has'):
        h(nm, fn(nm))
    return H


class Run:
    def __init__(self, P, rep, group):
        self.P, self.rep, self.group = P, rep, group

    def q(self, tr, name, args, **kw):
        fid = self.P.method(tr, name) if tr else name
        if fid is None:
            raise report.Fatal('%s::%s' % (tr, name))
        try:
            q = Q(self.P, fid, args, **kw)
        except report.Fatal:
            raise
        except Exception as ex:
            self.rep.ob('analysis', '%s::%s' % (tr, name), None, '%s: %s' % (type(ex).__name__, ex))
            return None
        self.rep.paths += len(q.outs)
        self.rep.analysed(*q.ai.visited)
        return q

    def ob(self, q, key, good, msg):
        self.rep.ob(self.group, key, good, msg, q.where)

    def feasible(self, q):
        for st, r in q.outs:
            k = q.cc(st)
            if k is not None:
                yield st, r, k

    # ---- result kinds
    def ident(self, key, tr, name, args, want, **kw):
        """the result identifies the element `want`"""
        q = self.q(tr, name, args, **kw)
        if not q:
            return
        for st, r, k in self.feasible(q):
            x = q.ident(st, r)
            good = eq(k, x, want)
            self.ob(q, key, good or (None if fuzzy(x) else False), 'returns %s instead of %s' % (show(x), show(want)))

    def optional(self, key, tr, name, args, spec, **kw):
        """spec(k, None) -> three-valued 'nothing may be returned'; spec(k, x) -> 'x is a right answer'"""
        q = self.q(tr, name, args, **kw)
        if not q:
            return
        seen = set()
        for st, r, k in self.feasible(q):
            for s, x in opt(q, st, r):
                kk = q.cc(s)
                if kk is None:
                    continue
                if x is None:
                    good = spec(kk, None)
                    msg = 'answers "none" although a result may exist'
                else:
                    y = q.ident(s, x)
                    good = spec(kk, y)
                    msg = 'answers %s, which is not right on this path' % show(y)
                    if good is not True and fuzzy(y):
                        good = None
                        self.ob(q, key, None, msg)
                        continue
                seen.add(x is None)
                self.ob(q, key, good is True, msg)
        self.rep.ob('reachable', key, len(seen) == 2 or None, 'only one kind of answer seen', q.where)

    def boolean(self, key, tr, name, args, spec, **kw):
        q = self.q(tr, name, args, **kw)
        if not q:
            return
        seen = set()
        for st, r, k in self.feasible(q):
            for s, b in q.ai.fork(st, r):
                kk = q.cc(s)
                if kk is None:
                    continue
                want = spec(kk)
                fz = contains(r, lambda y: y.op in FUZZY)
                seen.add(b)
                self.ob(q, key, True if want is b else (None if fz else False), 'answers %s where the mesh says %s' % (b, want))
        self.rep.ob('reachable', key, len(seen) == 2 or None, 'only one answer seen', q.where)


def q01(P, rep, tier, cfg, rel):
    R = Run(P, rep, 'query')
    H, B, VB, FB, MB, HV = 'HalfEdge', 'EdgeBasics', 'VertexBasics', 'FaceBasics', 'MeshBasics', 'HalfEdgeVertex'
    U = dict(summarise=False, loop=3 if tier == 'thorough' else 2)
    # ---- links
    for nm, want in (('next', n(e)), ('twin', t(e)), ('prev', p(e))):
        R.ident('edge: ' + nm, H, nm, [edge(e), SELF], want)
        R.ident('edge: %s id' % nm, H, nm + '_id', [edge(e)], want)
    R.ident('edge: id', B, 'id', [edge(e)], e)
    R.ident('vertex: id', VB, 'id', [vertex(v)], v)
    R.ident('face: id', FB, 'id', [face(F0)], F0)
    R.ident('edge: origin', B, 'origin', [edge(e), SELF], o(e))
    R.ident('edge: origin id', H, 'origin_id', [edge(e)], o(e))
    R.ident('edge: target', B, 'target', [edge(e), SELF], target(e))
    R.ident('edge: target id', H, 'target_id', [edge(e), SELF], target(e))
    R.ident('edge: face id', H, 'face_id', [edge(e)], f(e))
    R.ident('face: edge', FB, 'edge', [face(F0), SELF], L('FE', F0))
    R.ident('face: edge id', FB, 'edge_id', [face(F0)], L('FE', F0))
    R.ident('vertex: edge id', VB, 'edge_id', [vertex(v), SELF], L('V', v))
    no = lambda k, x: is_eq(k, x, MAX)

    def optf(link):
        return lambda k, y: no(k, link) if y is None else all3([is_eq(k, y, link), not3(no(k, link))])
    R.optional('edge: face', H, 'face', [edge(e), SELF], optf(f(e)))
    R.optional('edge: face on the other side', H, 'other_face', [edge(e), SELF], optf(f(t(e))))
    R.optional('vertex: edge', VB, 'edge', [vertex(v), SELF], optf(L('V', v)))
    R.boolean('edge: borders a hole on its own side', H, 'is_boundary_self', [edge(e)], lambda k: no(k, f(e)))
    bd = lambda k, x: any3([no(k, f(x)), no(k, f(t(x)))])
    R.boolean('edge: borders a hole', B, 'is_boundary', [edge(e), SELF], lambda k: bd(k, e))
    R.boolean('vertex: lies on the boundary', VB, 'is_boundary', [vertex(v), SELF], lambda k: exists_around(k, v, lambda x: bd(k, x)), **U)
    R.boolean('vertex: has a single edge', VB, 'has_only_one_edge', [vertex(v), SELF],
              lambda k: False if no(k, L('V', v)) else is_eq(k, cw(L('V', v)), L('V', v)) if no(k, L('V', v)) is False else None)
    same = lambda k: exists(k, e, n, lambda x: is_eq(k, o(x), v))
    R.boolean('edge: vertex on the same cycle', H, 'same_face', [edge(e), SELF, v], same, **U)
    R.boolean('edge: vertex on the same cycle, backwards', H, 'same_face_back', [edge(e), SELF, v], same, **U)

    # ---- neighbourhoods
    def shared_edge(k, y):
        if y is None:
            return not3(exists_around(k, v, lambda x: is_eq(k, target(x), w)))
        return all3([is_eq(k, o(y), v), is_eq(k, target(y), w)])
    R.optional('mesh: edge from one vertex to another', MB, 'shared_edge', [SELF, v, w], shared_edge, **U)
    R.optional('mesh: edge id from one vertex to another', MB, 'shared_edge_id', [SELF, v, w], shared_edge, **U)

    def bedge(out):
        def spec(k, y):
            side = (lambda x: x) if out else t
            if y is None:
                return not3(exists_around(k, v, lambda x: no(k, f(side(x)))))
            return all3([no(k, f(y)), is_eq(k, o(y) if out else target(y), v)])
        return spec
    R.optional('vertex: boundary edge leaving it', HV, 'outgoing_boundary_edge', [vertex(v), SELF], bedge(True), **U)
    R.optional('vertex: boundary edge arriving at it', HV, 'ingoing_boundary_edge', [vertex(v), SELF], bedge(False), **U)

    def sface(k, y):
        def pair(x):
            return exists_around(k, w, lambda z: all3([is_eq(k, f(x), f(z)), not3(no(k, f(x)))]))
        if y is None:
            return not3(exists_around(k, v, pair))
        return all3([not3(no(k, y)), exists_around(k, v, lambda x: is_eq(k, f(x), y)), exists_around(k, w, lambda x: is_eq(k, f(x), y))])
    rv, rw = L('V', v), L('V', w)
    one = lambda r: [(n(t(r)), r)]
    two = lambda r: [(n(t(n(t(r)))), r)]
    for la, ha in (('1', one(rv)), ('2', two(rv))):
        for lb, hb in (('1', one(rw)), ('2', two(rw))):
            R.optional('mesh: face shared by two vertices (%s/%s edges)' % (la, lb), MB, 'shared_face', [SELF, v, w], sface, hyps=ha + hb, **U)
    q = R.q(B, 'face_ids', [edge(e), SELF], **U)
    if q:
        for st, r, k in R.feasible(q):
            y = r
            while y.op == 'it' and y.a[0] in ('val', 'ref'):
                y = q.val(st, y.a[1])
            if y.op != 'array':
                R.ob(q, 'edge: adjacent faces', None, 'result %s' % show(r))
                continue
            want = [x for x in (f(e), f(t(e))) if not no(k, x)]
            got = list(y.a)
            good = all(any(eq(k, a, b) for b in got) for a in want) and all(any(eq(k, a, b) for b in want) for a in got)
            R.ob(q, 'edge: adjacent faces', good, 'lists %s instead of %s' % ([show(x) for x in got], [show(x) for x in want]))
    rep.floor('query', 60)


# ------------------------------------------------------------------------------------------------ I01
def seqcheck(R, key, tr, name, args, starts, step, item, accept=True, depth=3, hint=False, empty=None):
    """the iterator yields item(x) for x = s, step(s), step(step(s)), ... and stops exactly when it is back at s.
    starts: acceptable first elements (one of them must fit the whole path); accept: filter on x (three-valued)"""
    q = R.q(tr, name, args, summarise=False, loop=depth)
    if not q:
        return
    work = [(st, r, ()) for st, r in q.outs]
    n_end = 0
    while work:
        st, it, got = work.pop()
        if q.cc(st) is None:
            continue
        try:
            it = q.val(st, it) if it.op == 'ref' else it
            ds = models.draw(q.ai, st, it, None) if models.unrollable(q.ai, it) else None
        except Exception as ex:
            R.ob(q, key, None, 'iterator not analysed: %s' % ex)
            return
        if ds is None:
            if it.op == 'it' and it.a[0] == 'val' and it.a[1].op == 'array':
                ds = [(st, it.a[1].a[0] if it.a[1].a else None, mk('it', 'val', mk('array', *it.a[1].a[1:])))]
            else:
                R.ob(q, key, None, 'iterator %s not analysed' % show(it))
                return
        for s, x, i2 in ds:
            k = q.cc(s)
            if k is None:
                continue
            items = got if x is None else got + (q.ident(s, x),)
            if empty is not None and is_eq(k, empty, MAX) is True:
                R.ob(q, key + ': nothing to visit', not items, 'yields %s although there is nothing to visit' % [show(y) for y in items])
                if x is None:
                    n_end += 1
                continue
            good, why = fits(k, items, x is None, starts, step, item, accept)
            if good is not True and fuzzy(*items):
                good = None
            if x is None:
                n_end += 1
                R.ob(q, key, good, why)
            elif len(items) > depth:
                R.ob(q, key, good, why)
            else:
                if good is not True:
                    R.ob(q, key, good, why)
                else:
                    work.append((s, i2, items))
        if hint and len(got) <= 2:
            hints(R, q, key, st, it, got, starts, step)
    R.rep.ob('reachable', key, n_end > 0 or None, 'the iterator never ends within the bound', q.where)


def fits(k, items, ended, starts, step, item, accept):
    why = ''
    for s0 in starts:
        xs, closed = cycle(k, s0, step, limit=(len(items) + 1) * (4 if accept is True else 6))
        if ended and not closed:
            why = 'stops after %d elements without being back at the start' % len(items)
            continue
        want = []
        ok_ = True
        for j, x in enumerate(xs):
            a = accept(k, x) if accept is not True else True
            if a is None:
                ok_ = len(want) >= len(items) and not ended
                why = 'skips or yields an element without looking at it'
                break
            if a:
                want.append(item(x))
        if not ok_:
            continue
        m = min(len(items), len(want))
        bad = [j for j in range(m) if not eq(k, items[j], want[j])]
        if bad:
            why = 'element %d is %s, expected %s' % (bad[0], show(items[bad[0]]), show(want[bad[0]]))
            continue
        if ended and len(items) != len(want):
            why = 'yields %d elements of %d' % (len(items), len(want))
            continue
        if not ended:
            if len(items) > len(want):
                why = 'goes on past the start'
                continue
            if accept is True:
                # every earlier step is known not to be back at the start
                y = s0
                past = None
                for j in range(1, len(items)):
                    y = step(y)
                    if is_eq(k, y, s0) is not False:
                        past = j
                if past is not None:
                    why = 'may go on past the start after %d elements' % past
                    continue
        return True, ''
    return False, why


def hints(R, q, key, st, it, got, starts, step):
    if it.op != 'adt':
        return
    fid = None
    for im in q.P.impls:
        if im.get('self_adt') == it.a[0] and im.get('trait', '').endswith('::Iterator'):
            for a, b in im['items']:
                if b and b.endswith('::size_hint') and a in q.P.fns:
                    fid = a
    if not fid:
        return
    r, s0 = models.tmpref(q.ai, st, it)
    for s, v in q.ai.exec_fn(fid, [r], s0):
        k = q.cc(s)
        if k is None:
            continue
        lo = q.ai.proj1(v, '.0')
        hi = q.ai.proj1(v, '.1')
        for s2, h in opt(q, s, hi):
            k = q.cc(s2)
            if k is None:
                continue
            xs, closed = cycle(k, starts[0], step, limit=8)
            if not isconst(lo) or (h is not None and not isconst(h)):
                R.ob(q, key + ': announced length', None, 'length %s' % show(v))
                continue
            left = len(xs) - len(got)
            good = closed and lo.a[0] == left and h is not None and h.a[0] == left
            R.ob(q, key + ': announced length', good, 'announces %s, %s remain of a %s cycle' % (show(v), left, 'closed' if closed else 'open'))


def i01(P, rep, tier, cfg, rel):
    R = Run(P, rep, 'traversal')
    D = 4 if tier == 'thorough' else 3
    H, B, VB, FB, MB = 'HalfEdge', 'EdgeBasics', 'VertexBasics', 'FaceBasics', 'MeshBasics'
    ident = lambda x: x
    fe, rv = L('FE', F0), L('V', v)
    sc = lambda *a, **kw: seqcheck(R, *a, depth=D, **kw)
    sc('edge: forwards around its cycle', B, 'edges_face', [edge(e), SELF], [e], n, ident, hint=True)
    sc('edge: backwards around its cycle', B, 'edges_face_back', [edge(e), SELF], [e], p, ident, hint=True)
    for fid in P.inherent_all('HalfEdgeImpl', 'edges_face_mut'):
        sc('edge: around its cycle, mutably', None, fid, [edge(e), SELF], [e], n, ident)
    sc('mesh: forwards from an edge', 'HalfEdgeMesh', 'edges_from', [SELF, e], [e], n, ident, hint=True)
    sc('mesh: backwards from an edge', 'HalfEdgeMesh', 'edges_back_from', [SELF, e], [e], p, ident, hint=True)
    sc('face: edges', FB, 'edges', [face(F0), SELF], [fe], n, ident, hint=True)
    sc('face: edge ids', FB, 'edge_ids', [face(F0), SELF], [fe], n, ident)
    sc('face: corners', FB, 'vertices', [face(F0), SELF], [fe, n(fe)], n, o)
    sc('face: corner ids', FB, 'vertex_ids', [face(F0), SELF], [fe, n(fe)], n, o)
    W = dict(empty=rv)
    sc('vertex: leaving edges', VB, 'edges_out', [vertex(v), SELF], [rv], cw, ident, **W)
    sc('vertex: arriving edges', VB, 'edges_in', [vertex(v), SELF], [rv], cw, t, **W)
    sc('vertex: neighbours', VB, 'vertices', [vertex(v), SELF], [rv], cw, target, **W)
    sc('vertex: neighbour ids', VB, 'neighbor_ids', [vertex(v), SELF], [rv], cw, target, **W)
    seqcheck(R, 'vertex: faces', VB, 'faces', [vertex(v), SELF], [rv], cw, f, accept=lambda k, x: not3(is_eq(k, f(x), MAX)), depth=D - 1, **W)
    for key, tr, nm, args, first, step in (('face: number of edges', FB, 'num_edges', [face(F0), SELF], fe, n),
                                           ('face: number of corners', FB, 'num_vertices', [face(F0), SELF], fe, n),
                                           ('face: number of triangle indices', FB, 'num_triangles', [face(F0), SELF], fe, n),
                                           ('vertex: degree', VB, 'degree', [vertex(v), SELF], rv, cw)):
        q = R.q(tr, nm, args, summarise=False, loop=D)
        for st, r, k in (R.feasible(q) if q else ()):
            if is_eq(k, first, MAX) is True:
                R.ob(q, key, r is num(0), 'counts %s for an isolated vertex' % show(r))
                continue
            xs, closed = cycle(k, first, step, limit=8)
            if not isconst(r):
                R.ob(q, key, None, 'result %s' % show(r))
            else:
                R.ob(q, key, closed and r.a[0] == ((len(xs) - 2) * 3 if nm == 'num_triangles' else len(xs)), 'counts %s of %s' % (show(r), len(xs) if closed else 'an open cycle'))
    rep.floor('traversal', 40)


# ------------------------------------------------------------------------------------------------ Q02
def q02(P, rep, tier, cfg, rel):
    R = Run(P, rep, 'listing')
    MB = 'MeshBasics'
    H = dv_hooks(P)
    x = mk('p', 3, 'x')
    for nm, store in (('vertex', VERT), ('edge', HALF), ('face', FACE)):
        for mut in ('', '_mut'):
            q = R.q(MB, nm + mut, [SELF, x], extra_hooks=H)
            for st, r, k in R.feasible(q) if q else ():
                want = pl_ext(ROOT, store, mk('ix', x))
                R.ob(q, '%s%s by id' % (nm, mut), r.op == 'ref' and r.a[0] is want or (None if r.op != 'ref' else False), 'returns %s' % show(r))
        pl = {'vertex': 'vertices', 'edge': 'edges', 'face': 'faces'}[nm]
        for mut in ('', '_mut'):
            q = R.q(MB, pl + mut, [SELF], extra_hooks=H)
            for st, r, k in R.feasible(q) if q else ():
                b = r
                while b.op == 'it' and b.a[0] in ('inspect', 'rev', 'fuse'):
                    b = b.a[1]
                good = b.op == 'it' and b.a[0] == 'ref' and b.a[1].op == 'ref' and b.a[1].a[0] is pl_ext(ROOT, store)
                R.ob(q, 'all %s%s' % (pl, mut), good or (False if b.op == 'it' and b.a[0] in ('ref', 'skip', 'take', 'step_by', 'filter', 'take_while', 'skip_while', 'filter_map') else None),
                     'iterates %s' % show(r))
        ids = {'vertex': 'vertex_ids', 'edge': 'edge_ids', 'face': 'face_ids'}[nm]
        q = R.q(MB, ids, [SELF], extra_hooks=H)
        for st, r, k in R.feasible(q) if q else ():
            ok_ = None
            b = r
            while b.op == 'it' and b.a[0] in ('map', 'inspect'):
                b = b.a[1]
            if b.op == 'it' and b.a[0] == 'ref':
                ok_ = b.a[1].op == 'ref' and b.a[1].a[0] is pl_ext(ROOT, store)
                for s, y, _ in models.gen_item(q.ai, st, r, '*', None):
                    ok_ = ok_ and y.op == 'item'
            elif b.op == 'it':
                ok_ = False
            R.ob(q, 'ids of all ' + pl, ok_, 'iterates %s' % show(r))
        q = R.q(MB, 'num_' + pl, [SELF], extra_hooks=H)
        for st, r, k in R.feasible(q) if q else ():
            R.ob(q, 'number of ' + pl, r is mk('dv', 'len', pl_ext(ROOT, store)) or (False if r.op in ('dv', 'c', 'bin') else None), 'returns %s' % show(r))
    q = R.q(MB, 'has_vertex', [SELF, x], extra_hooks=H)
    for st, r, k in R.feasible(q) if q else ():
        R.ob(q, 'vertex exists', r is mk('dv', 'has', pl_ext(ROOT, VERT), x) or (False if r.op in ('dv', 'c', 'bin', 'not') else None), 'returns %s' % show(r))
    q = R.q(MB, 'max_vertex_index', [SELF], extra_hooks=H)
    for st, r, k in R.feasible(q) if q else ():
        R.ob(q, 'largest vertex index', r is mk('dv', 'capacity', pl_ext(ROOT, VERT)) or (False if r.op in ('dv', 'c', 'bin') else None), 'returns %s' % show(r))
    q = R.q(MB, 'clear', [SELF], extra_hooks=H)
    for st, r, k in R.feasible(q) if q else ():
        cl = {ev[1] for ev in st.events() if ev[0] == 'clear'}
        R.ob(q, 'clearing empties all three stores', cl >= {pl_ext(ROOT, s_) for s_ in (VERT, HALF, FACE)}, 'cleared %s' % sorted(map(show, cl)))
    # open meshes
    q = R.q(MB, 'is_open', [SELF], extra_hooks=H)
    if q:
        for st, r, k in R.feasible(q):
            for s, b in q.ai.fork(st, r):
                kk = q.cc(s)
                if kk is None:
                    continue
                if b:
                    xs = {y for c_ in s.conds for y in walk(c_) if y.op == 'item'}
                    R.ob(q, 'the mesh is open', any(is_eq(kk, f(y), MAX) is True for y in xs) or (None if not xs else False), 'reports an open mesh without a boundary edge')
                else:
                    R.ob(q, 'the mesh is closed', none_matches(q, s, lambda k2, y: is_eq(k2, f(y), MAX), HALF), 'reports a closed mesh although an edge may have no face')
    # twins
    q = R.q('HalfEdgeMesh', 'twin_edges', [SELF], extra_hooks=H)
    for st, r, k in R.feasible(q) if q else ():
        for s, y, _ in models.gen_item(q.ai, st, r, '*', None):
            kk = q.cc(s)
            if kk is None:
                continue
            a, b = q.ident(s, q.ai.proj1(y, '.0')), q.ident(s, q.ai.proj1(y, '.1'))
            fz = any(z.op in ('app', 'opq', 'f') for c_ in (a, b) for z in walk(c_))
            R.ob(q, 'each pair consists of twins', eq(kk, b, t(a)) or (None if fz else False), 'pairs %s with %s' % (show(a), show(b)))
            one = [(c_, v_) for c_, v_ in s.conds.items() if c_.op == 'bin' and c_.a[0] == 'Lt' and {kk.add(c_.a[1]), kk.add(c_.a[2])} == {kk.add(a), kk.add(b)}]
            R.ob(q, 'each pair is listed once', len(one) >= 1 or (None if s.conds and not all(c_.op == 'bin' for c_ in s.conds) else False),
                 'both orders of a pair are listed')
    # the other order is listed when this one is not: dropping requires the twin to be smaller
    if q:
        for st, r, k in R.feasible(q):
            base = r
            cl = None
            while base.op == 'it' and base.a[0] in ('filter_map', 'filter', 'map'):
                cl, base = base, base.a[1]
            if cl is None or cl.a[0] == 'map':
                continue
            for s, y, _ in models.gen_item(q.ai, st, base, '*', None):
                yid = q.ident(s, y)
                arg = y
                if cl.a[0] == 'filter':
                    arg, s = models.tmpref(q.ai, s, y)
                for s2, v2 in q.ai.call_value(s, cl.a[2], [arg], None):
                    drop = [s3 for s3, x3, _ in models.opt_cases(q.ai, s2, v2) if x3 is None] if cl.a[0] == 'filter_map' else \
                        [s3 for s3, b in q.ai.fork(s2, v2) if not b]
                    for s3 in drop:
                        kk = q.cc(s3)
                        if kk is None:
                            continue
                        lt = [(c_.a[1], c_.a[2], v_) for c_, v_ in s3.conds.items() if c_.op == 'bin' and c_.a[0] == 'Lt']
                        keep = [(c_.a[1], c_.a[2], v_) for st4, y4, _ in models.gen_item(q.ai, st, r, '*', None)
                                for c_, v_ in st4.conds.items() if c_.op == 'bin' and c_.a[0] == 'Lt']
                        # the dropping test on y must be the keeping test on twin(y)
                        tr = lambda z: kk.add(t(yid)) if kk.add(z) == kk.add(yid) else kk.add(yid) if kk.add(z) == kk.add(t(yid)) else None
                        good = any((kk.add(a), kk.add(b), v_) == (tr(c), tr(d), w_) or (kk.add(a), kk.add(b), v_) == (tr(d), tr(c), 1 - w_)
                                   for a, b, v_ in lt for c, d, w_ in keep)
                        R.ob(q, 'no pair is lost', good or (None if not lt or not keep else False), 'a pair may be dropped in both orders')
    rep.floor('listing', 25)


def none_matches(q, st, pred, store):
    """the path looked at every element of the store and none satisfies pred"""
    root = pl_ext(ROOT, store)
    seen = False
    for ev in st.events():
        if ev[0] == 'nomatch':
            it, kind, cl = ev[1], ev[2], ev[4]
            b = it
            while b.op == 'it' and b.a[0] in ('map', 'cloned', 'copied', 'inspect', 'enumerate'):
                b = b.a[1]
            if not (b.op == 'it' and b.a[0] == 'ref' and b.a[1].op == 'ref' and b.a[1].a[0] is root):
                continue
            seen = True
            for s, y, _ in models.gen_item(q.ai, st, it, 'r', None):
                yid = q.ident(s, y)
                arg = y
                if kind == 'find':
                    arg, s = models.tmpref(q.ai, s, y)
                for s2, v in q.ai.call_value(s, cl, [arg], None):
                    if kind == 'find_map':
                        rest = [s3 for s3, x3, _ in models.opt_cases(q.ai, s2, v) if x3 is None]
                    else:
                        want = kind == 'all'
                        rest = [s3 for s3, b3 in q.ai.fork(s2, v) if b3 is want]
                    for s3 in rest:
                        kk = q.cc(s3)
                        if kk is None:
                            continue
                        if pred(kk, yid) is not False:
                            return False
    for c_, v_ in st.conds.items():
        if c_.op == 'exhausted' and v_ == 1:
            b = c_.a[0]
            while b.op == 'adv' or b.op == 'it' and b.a[0] in ('map', 'cloned', 'copied', 'inspect', 'enumerate'):
                b = b.a[0] if b.op == 'adv' else b.a[1]
            if b.op == 'it' and b.a[0] == 'ref' and b.a[1].op == 'ref' and b.a[1].a[0] is root:
                seen = True
                kk = q.cc(st)
                ys = {y for c2 in st.conds for y in walk(c2) if y.op == 'item' and contains(y, lambda z: z is root)}
                for y in ys:
                    if pred(kk, y) is not False:
                        return False
    return True if seen else None


def untag(x):
    """the generic element of a list built from generic elements"""
    while x.op == 'item' and x.a[-1].__class__ is T and x.a[-1].op == 'tag':
        x = mk('item', *(x.a[:-1] + (x.a[-1].a[0],)))
    return x


PLAIN = {'item', 'it', 'bin', 'c', 'p', 'T', 'N', 'P', 'O', 'F', 'V', 'FE', 'ref', 'pl', 'mesh', 'M', 'not', 'ix', 'fld', 'deref', 'f'}


def one_per_pair(k, st, x):
    """the conditions under which x is selected hold for exactly one of x and twin(x)"""
    rel = [(c_, v_) for c_, v_ in st.conds.items() if contains(c_, lambda y: y is x) and c_.op != 'exhausted']
    if not rel:
        return False
    ids = {k.add(x): 0, k.add(t(x)): 1}
    seen = False
    for c_, v_ in rel:
        if c_.op == 'bin' and c_.a[0] in ('Lt', 'Le', 'Gt', 'Ge') and sorted(ids.get(k.add(y), 9) for y in c_.a[1:]) == [0, 1]:
            seen = True
        elif c_.op == 'bin' and c_.a[0] in ('Eq', 'Ne') and sorted(ids.get(k.add(y), 9) for y in c_.a[1:]) == [0, 1]:
            pass
        else:
            return None if contains(c_, lambda y: y.op not in PLAIN) else False
    return seen


# ------------------------------------------------------------------------------------------------ T07
def t07(P, rep, tier, cfg, rel):
    from meshcheck import Final
    import topology
    R = Run(P, rep, 'flip')
    loop = 3 if tier == 'thorough' else 2
    n_ = 0
    for label, tr, name, args, hyps, kw in topology.entries(tier):
        if name != 'flip':
            continue
        fid = P.method(tr, name)
        try:
            r = MeshRun(P, fid, args, hyps, loop=loop)
            outs = r.run()
        except Exception as ex:
            rep.ob('analysis', label, None, str(ex))
            continue
        rep.paths += len(outs)
        rep.analysed(*r.ai.visited)
        for st, ret in outs:
            F_ = Final(r, st, ROOT)
            if F_.infeasible:
                continue
            n_ += 1
            c = F_.c
            sw = lambda y: c(t(e)) if c(y) is c(e) else c(e) if c(y) is c(t(e)) else c(y)
            for x, y in ((e, t(e)), (t(e), e)):
                for op, want, what in (('O', c(o(y)), 'starts where it ended'), ('F', c(f(y)), 'lies on the other side'),
                                       ('N', sw(n(y)), 'is followed by its twin\'s successor'), ('P', sw(p(y)), 'is preceded by its twin\'s predecessor'),
                                       ('T', c(y), 'keeps its twin')):
                    got = F_.get(op, x)
                    rep.ob('flip', '%s: a flipped edge %s' % (label, what), got is want or (None if F_.tainted else False),
                           'is %s instead of %s' % (show(got), show(want)), (fid, P.fns[fid]['span']))
    # flipping the mesh flips one edge of each pair
    fid = P.method('HalfEdgeMesh', 'flip')
    flip = P.method('HalfEdge', 'flip')
    H = dict(dv_hooks(P))

    def fl(ai, st, c, args, site):
        st = st.copy()
        st.event('flipped', args[0], site)
        return [(st, UNIT)]
    H[flip] = fl
    q = R.q('HalfEdgeMesh', 'flip', [SELF], extra_hooks=H)
    for st, r, k in R.feasible(q) if q else ():
        fe = [ev for ev in st.events() if ev[0] == 'flipped']
        for ev in fe:
            x = untag(ev[1])
            R.ob(q, 'the edges flipped are one of each pair', one_per_pair(k, st, x), 'flips %s under %s' % (
                show(x), [(show(c_), v_) for c_, v_ in st.conds.items() if contains(c_, lambda y: y is x)]))
        R.ob(q, 'at most one edge flipped per pair', len(fe) <= loop + 1, 'flips %d edges per step' % len(fe))
    q = R.q('HalfEdgeMesh', 'flip_edge', [SELF, e], extra_hooks=H)
    for st, r, k in R.feasible(q) if q else ():
        fe = [ev[1] for ev in st.events() if ev[0] == 'flipped']
        R.ob(q, 'flipping one edge', fe == [e], 'flips %s' % [show(y) for y in fe])
    rep.ob('reachable', 'flip', n_ >= 4, 'no feasible path')
    rep.floor('flip', 40)

"""V01: curved edges are the Bézier curves their control points describe, and flattening follows them."""
from fractions import Fraction
from mathx import *
from mathx import loc
from queries import Run, SELF
from query import Q, opt
import mesh as _mesh
import models
import report
from transforms import drops

VARIANTS = {'Linear': 0, 'QuadraticBezier': 1, 'CubicBezier': 2}


def v01(P, rep, tier, cfg, rel):
    evaluation(P, rep)
    closeness(P, rep)
    accessors(P, rep)
    uniform(P, rep, 6 if tier == 'thorough' else 5)
    adaptive(P, rep, Fraction(1, 16) if tier == 'thorough' else Fraction(1, 8))
    mesh_flatten(P, rep)
    any_curved(P, rep)
    rep.floor('curve', 8)


def enum_of(P):
    return next((a for i, a in P.adts.items() if i.endswith('::CurvedEdgeType')), None)


def curve(P, name, *pts):
    e = enum_of(P)
    v = next(v for v in e['variants'] if v['name'] == name)
    return mk('adt', e['id'], name, tuple(f[0] for f in v['fields']), *pts)


def npts(P, name):
    return len(next(v for v in enum_of(P)['variants'] if v['name'] == name)['fields'])


# ---------------------------------------------------------------- points on the curve
def end_of(t, edge):
    """'start' / 'end' of the edge `edge` when t is a vertex reached from it along its links"""
    def vid(x):
        for y in walk(x):
            if type(y) is T and y.op == 'at' and show(y.a[0]).endswith('vertices.data'):
                return y.a[1]
    i = vid(t)
    if i is None:
        return None
    s = show(i).replace('refto(', '').replace('index(', '').replace(')', '').replace('(', '')
    e = show(edge)
    if s == e + '.origin_id':
        return 'start'
    hop = [x for x in ('.next', '.twin') if e + x in s]
    if len(hop) == 1 and s.endswith('.origin_id') and s.count('.next') + s.count('.twin') + s.count('.prev') == 1:
        return 'end'
    return None


def endpoint_atoms(edge):
    def extra(al, t):
        if t.op == 'ini' and t.a[0].op == 'pl' and len(t.a[0].a) == 1 and t.a[0].a[0].op == 'M':
            t = al.strip(t.a[0].a[0].a[0])
        if t.op == 'app' and leaf(t.a[0]) == 'pos':
            w = end_of(t, edge)
            if w:
                return Poly.atom((w,))
        return None
    return extra


START, END = Poly.atom(('start',)), Poly.atom(('end',))


def bernstein(name, t, cs):
    u = lift(1) - t
    if name == 'Linear':
        return START * u + END * t
    if name == 'QuadraticBezier':
        return START * u * u + cs[0] * 2 * u * t + END * t * t
    return START * u * u * u + cs[0] * 3 * u * u * t + cs[1] * 3 * u * t * t + END * t * t * t


def evaluation(P, rep):
    fid = P.inherent('CurvedEdgeType', 'point_at')
    if not fid:
        raise report.Fatal('CurvedEdgeType::point_at')
    for name in VARIANTS:
        pts = [mk('p', 20 + i, 'c%d' % i) for i in range(npts(P, name))]
        args, atoms, st = sym_args(P, fid)
        st.store[args[0].a[0].a[0]] = {(): curve(P, name, *pts)}
        m = Math(P, rep, 'curve', concrete=True, extra=endpoint_atoms(atoms[1]))
        want = bernstein(name, Poly.atom(atoms[3]), [Poly.atom(x) for x in pts])
        known = set(pts) | {atoms[3], ('start',), ('end',)}
        formula(m, fid, args, want, 'point on a %s edge' % name, known=known, noise=liveness, st=st)


def liveness(c):
    return 'is_deleted' in show(c)


def closeness(P, rep):
    """two curves are about equal iff they are of the same kind and all their control points are"""
    fid = P.inherent('CurvedEdgeType', 'is_about')
    if not fid:
        rep.ob('curve', 'is_about', None, 'not found')
        return
    for a in VARIANTS:
        for b in VARIANTS:
            pa = [mk('p', 20 + i, 'c%d' % i) for i in range(npts(P, a))]
            pb = [mk('p', 30 + i, 'd%d' % i) for i in range(npts(P, b))]
            args, atoms, st = sym_args(P, fid)
            st.store[args[0].a[0].a[0]] = {(): curve(P, a, *pa)}
            st.store[args[1].a[0].a[0]] = {(): curve(P, b, *pb)}
            m = Math(P, rep, 'curve', concrete=True)
            lab = 'closeness of a %s and a %s edge' % (a, b)
            ai, outs = m.run(fid, args, lab, st=st)
            if ai and not outs:
                rep.ob('curve', lab, None, 'no path')
            for s, r in outs:
                for v in (0, 1):
                    if isconst(r) and r.a[0] != v:
                        continue
                    conds = dict(s.conds)
                    if not isconst(r):
                        if conds.get(r, v) != v:
                            continue
                        conds[r] = v
                    pairs, odd = {}, False
                    for c, x in conds.items():
                        pr = about(m, c, atoms[2])
                        if pr is None:
                            odd = True
                        else:
                            pairs[pr] = x
                    if a != b:
                        want = False
                    else:
                        need = [frozenset((x, y)) for x, y in zip(pa, pb)]
                        if not all(pairs.get(x) == 1 for x in need):
                            want = False if any(pairs.get(x) == 0 for x in need) else None
                        else:
                            want = True
                    rest = set(pairs) - set(frozenset((x, y)) for x, y in zip(pa, pb))
                    if want is None and v == 0 and not odd and not rest:
                        want = 'unjustified'
                    good = want is bool(v) if want in (True, False) else (True if want is None and v == 0 else False)
                    if not good and odd:
                        good = None
                    rep.ob('curve', lab, good, 'answers %s when %s' % (bool(v), [(sorted(show(z) for z in k), x) for k, x in pairs.items()][:4]), (fid, loc(P, fid)))


def about(m, c, eps):
    """c says that two atoms are about equal within eps: the pair"""
    if c.op == 'app' and leaf(c.a[0]) == 'is_about' and len(c.a) == 4:
        x, y, z = [m.alg.strip(q) for q in c.a[1:]]
        if z is eps:
            return frozenset((x, y))
    return None


# ---------------------------------------------------------------- storage of the curve
def accessors(P, rep):
    get, put = P.inherent('CurvedEdgePayload', 'curve_type'), P.inherent('CurvedEdgePayload', 'set_curve_type')
    sites = []
    if get and put:
        sites.append(('payload', get, put))
    for im in P.impls:
        if im.get('trait', '').endswith('::CurvedEdge'):
            f = {x.split('::')[-1]: x for x, t in im['items'] if x in P.fns}
            if 'curve_type' in f and 'set_curve_type' in f:
                sites.append(('edge %s' % str(im.get('self_ty'))[-40:], f['curve_type'], f['set_curve_type']))
    c = mk('p', 40, 'c')
    for lab, g, s in sites:
        m = Math(P, rep, 'storage', concrete=True)
        args, atoms, st = sym_args(P, s)
        ai, outs = m.run(s, [args[0], c], 'set curve of %s' % lab, st=st)
        for s1, r in outs:
            ai2, outs2 = m.run(g, [args[0]], 'curve of %s' % lab, st=clean(s1))
            for s2, r2 in outs2:
                x = m.alg.strip(ai2.snap(s2, r2))
                rep.ob('storage', 'the curve set on an %s is the curve it has' % lab, x is c or (None if unclear(x) else False),
                       'is %s' % show(x)[:100], (s, loc(P, s)))
            before, after = atoms[0], ai.snap(s1, ai.deref(s1, args[0]))
            rep.ob('storage', 'setting the curve of an %s changes nothing else' % lab, only_curve(after, before), show(after)[:160], (s, loc(P, s)))
        ai, outs = m.run(g, [sym_args(P, g)[0][0]], 'curve of %s' % lab, st=sym_args(P, g)[2])
        for s1, r in outs:
            x = m.alg.strip(r if r.op != 'ref' else ai.deref(s1, r))
            rep.ob('storage', 'the curve of an %s is the stored one' % lab, show(x).endswith('.curve') or (None if unclear(x) else False), 'is %s' % show(x)[:100], (g, loc(P, g)))


def clean(st):
    st = st.copy()
    return st


def unclear(x):
    return x.op not in ('p', 'c', 'adt', 'proj', 'f')


def only_curve(after, before):
    """after = before with only a field chain ending in .curve replaced"""
    if after is before:
        return False
    t = after
    for _ in range(6):
        if t.op == 'upd':
            path = t.a[1] if len(t.a) > 2 else ()
            return show(t).count('curve') > 0 or None
        if t.op == 'adt':
            names, vals = t.a[2], t.a[3:]
            ch = [(nm, v) for nm, v in zip(names, vals) if not (v.op in ('f', 'proj') or show(v).endswith('.' + nm))]
            if len(ch) != 1:
                return None if ch else False
            if ch[0][0] == 'curve':
                return True
            t = ch[0][1]
            continue
        return None
    return None


# ---------------------------------------------------------------- flattening one edge
def oracle(P, n_max):
    """hooks keeping the curve of the edge and its points symbolic: points become C(t)"""
    ids = {}
    for t in P.traits.values():
        if t['id'].endswith('::CurvedEdge'):
            for m in t['methods']:
                ids[m['id']] = m['name']
    pa = P.inherent('CurvedEdgeType', 'point_at')
    return ids, pa


CURVE = mk('p', 90, 'curve')


def C(t):
    return Poly.atom(('C', Fraction(t)))


def point_hook(P, m, limit=None):
    ids, pa = oracle(P, 0)

    def star(ai, st, c, rid, args, site):
        if ids.get(c['id']) == 'curve_type' or ids.get(rid) == 'curve_type':
            return [(st, CURVE)]
        if pa in (c['id'], rid):
            t = m.alg.norm(ai.snap(st, args[3]))
            k = t.d.get(ONE_M, 0) if set(t.d) <= {ONE_M} else None
            who = [m.alg.strip(ai.deref(st, a) if a.op == 'ref' else a) for a in args[:2]]
            if k is None or who[0] is not CURVE or show(who[1]) != 'a0':
                return [(st, mk('app', 'pointoncurve', *[ai.snap(st, a) for a in args]))]
            if limit and Fraction(k).denominator > limit:
                return []
            return [(st, mk('C', str(Fraction(k))))]
        return None
    return star


def points_extra(al, t):
    if t.op == 'C':
        return C(Fraction(t.a[0]))
    return None


def seq(ai, st, r):
    """elements of a concrete vector value"""
    for _ in range(3):
        if r.op == 'ref':
            r = ai.deref(st, r)
    outs = models.concrete_drain(ai, st, r, None) if r.op in ('it', 'seq', 'array', 'vec') else None
    return outs


def uniform(P, rep, nmax):
    fid = next((f for f, ty in defs(P, 'curved::CurvedEdge', 'flatten_uniform') if ty is None), None)
    if not fid:
        rep.ob('flatten', 'uniform', None, 'not found')
        return
    for n in range(1, nmax):
        m = Math(P, rep, 'flatten', concrete=True, loop=n + 2, extra=points_extra)
        args, atoms, st = sym_args(P, fid)
        args[1] = num(n)
        lab = 'uniform flattening into %d segments' % n
        ai, outs = m.run(fid, args, lab, st=st, hooks={'*': point_hook(P, m)})
        if ai and not outs:
            rep.ob('flatten', lab, None, 'no path')
        for s, r in outs:
            check_points(P, rep, m, ai, s, r, lab, fid, [Fraction(i, n) for i in range(1, n)])


def check_points(P, rep, m, ai, s, r, lab, fid, want):
    xs = elements(ai, s, r)
    if xs is None:
        rep.ob('flatten', lab, None, 'result %s' % show(r)[:120])
        return
    got = [m.alg.norm(ai.snap(s, x)) for x in xs]
    good = got == [C(t) for t in want]
    if not good and not all(understood(p, ()) or all(isinstance(a, tuple) and a[0] == 'C' for a in p.atoms()) for p in got):
        good = None
    rep.ob('flatten', lab, good, 'yields %s instead of the points at %s' % ([repr(p)[:40] for p in got], [str(t) for t in want]), (fid, loc(P, fid)))


def elements(ai, st, r):
    for _ in range(3):
        if r.op == 'ref':
            r = ai.deref(st, r)
        elif r.op == 'refto':
            r = r.a[0]
    if r.op in ('array', 'vec', 'list'):
        return list(r.a)
    if r.op == 'coll' or r.op == 'it':
        outs = models.concrete_drain(ai, st, r, ('flatten', 0))
        if outs and len(outs) == 1:
            return outs[0][1]
    return None


def adaptive(P, rep, depth):
    """flattening with a tolerance: exactly the recursive midpoint subdivision, in order"""
    fid = next((f for f, ty in defs(P, 'curved::CurvedEdge', 'flatten_casteljau') if ty is None), None)
    if not fid:
        rep.ob('flatten', 'adaptive', None, 'not found')
        return
    m = Math(P, rep, 'flatten', concrete=True, loop=12, extra=points_extra, maxpaths=6000, vec=lambda a: isinstance(a, tuple) and a[0] == 'C')
    m.maxrec = 9
    args, atoms, st = sym_args(P, fid)
    lab = 'flattening with a tolerance'
    ai, outs = m.run(fid, args, lab, st=st, hooks={'*': point_hook(P, m, limit=2 * depth.denominator)})
    if ai and not outs:
        rep.ob('flatten', lab, None, 'no path')
    err = Poly.atom(atoms[1])
    for s, r in outs:
        f = m.facts(list(s.conds.items()))
        if f is None:
            continue
        signs, other = f

        def accepted(t0, t1):
            tm = (t0 + t1) / 2
            d = C(tm) - (C(t0) + C(t1)) * Fraction(1, 2)
            dev = m.alg.fn('sqrt', m.alg.dot(d, d))
            for e in (err - dev,):
                k, sg = m.signed(e, {1})
                have = signs.get(k)
                if have is None:
                    raise Need(k)
                if sg == frozenset({1}):
                    if have <= {0, 1}:
                        return True
                    if have <= {-1}:
                        return False
                else:
                    if have <= {0, -1}:
                        return True
                    if have <= {1}:
                        return False
                raise Need((t0, t1, have))

        def sub(t0, t1):
            if accepted(t0, t1):
                return [t1]
            tm = (t0 + t1) / 2
            return sub(t0, tm) + sub(tm, t1)
        try:
            want = sub(Fraction(0), Fraction(1))[:-1]
        except Need as ex:
            xs = elements(ai, s, r)
            rep.ob('flatten', lab, None if other or xs is None else loose(m, ai, s, xs, signs), 'accepts or refuses a segment on another ground than its deviation: %s' % str(ex.args[0])[:100], (fid, loc(P, fid)))
            continue
        check_points(P, rep, m, ai, s, r, lab, fid, want)


def loose(m, ai, s, xs, signs):
    """the path decides about segments by comparing something else than midpoint deviation with the tolerance"""
    return False if all(understood(k, ()) or vocabulary(k) for k in signs) else None


def vocabulary(key):
    def ok_(a):
        if isinstance(a, tuple) and a and a[0] == 'app' and a[1] in ('sqrt', 'dot'):
            return all(vocabulary(x) for x in a[2:])
        if isinstance(a, tuple) and a and a[0] in ('dot', 'C'):
            return a[0] == 'C' or all(ok_(b) for b in a[1:])
        return type(a) is T and a.op == 'p'
    try:
        return all(ok_(a) for a in Poly(dict(key)).atoms())
    except Exception:
        return False


# ---------------------------------------------------------------- flattening a mesh
KIND = lambda e: mk('curveof', e)


def curve_ids(P):
    ids = {}
    for t in P.traits.values():
        for m in t['methods']:
            if t['id'].endswith('::CurvedEdge') and m['name'] in ('curve_type', 'set_curve_type', 'flatten_casteljau', 'flatten_uniform') \
                    or t['id'].endswith('::MeshBuilder') and m['name'] == 'insert_vertices_into_edge':
                ids[m['id']] = m['name']
    return ids


def element_id(ai, st, x):
    """stable name of the edge a reference points to"""
    if x.op == 'ref':
        pl = x.a[0]
        if pl.op == 'pl' and type(pl.a[-1]) is T and pl.a[-1].op == 'ix':
            return pl.a[-1].a[0]
        v = ai.deref(st, x)
        if v.op in ('adt', 'upd'):
            return ai.proj1(v, '.id')
        return v
    return x


def same_edge(x):
    """the index of a drawn edge and the id stored in it name the same edge"""
    for _ in range(6):
        if x.op in ('refto',):
            x = x.a[0]
        elif x.op == 'f' and x.a[0] == '.id' and x.a[1].op == 'at':
            x = x.a[1].a[1]
        elif x.op in ('index', 'app') and len(x.a) and type(x.a[-1]) is T and (x.op == 'index' or leaf(str(x.a[0])) in ('index', 'new', 'from')):
            x = x.a[-1]
        elif x.op == 'L' and len(x.a) == 2 and type(x.a[1]) is T and str(x.a[0]) == 'ID':
            x = x.a[1]
        else:
            break
    return x


def mesh_hook(P):
    ids = curve_ids(P)
    kinds = [(n, npts(P, n)) for n in VARIANTS]

    def star(ai, st, c, rid, args, site):
        nm = ids.get(c['id']) or ids.get(rid)
        if nm is None:
            return None
        if nm == 'curve_type':
            e = same_edge(element_id(ai, st, args[0]))
            cur = now(st, e)
            if cur is not None:
                return [(st, cur)]
            out = []
            for n, k in kinds:
                s = st.copy()
                v = curve(P, n, *[mk('ctrl', i, e) for i in range(k)])
                s.event('kind', e, v, site)
                out.append((s, v))
            return out
        e = same_edge(element_id(ai, st, args[0] if nm != 'insert_vertices_into_edge' else args[1]))
        s = st.copy()
        if nm == 'set_curve_type':
            s.event('setcurve', e, ai.snap(s, args[1]), site)
            return [(s, UNIT)]
        if nm == 'insert_vertices_into_edge':
            outs = []
            for s2, x, nx in models.gen_item(ai, s, args[2], '*', site) or [(s, None, None)]:
                s3 = s2.copy()
                s3.event('insert', e, ai.snap(s2, x) if x is not None else args[2], site)
                outs.append((s3, mk('app', 'inserted', e)))
            return outs
        if nm in ('flatten_casteljau', 'flatten_uniform'):
            s.event('flat', e, (ai.snap(s, args[1]), nm), site)
            return [(s, mk('flat', e, ai.snap(s, args[1])))]
    return star


def now(st, e):
    for ev in reversed(st.events()):
        if ev[0] == 'setcurve' and ev[1] is e or ev[0] == 'kind' and ev[1] is e:
            return ev[2]
    return None


def draws(st, store):
    """{number of elements drawn from the store: 1 when the traversal then ended} of the paths' traversals, adaptors met"""
    from transforms import chain
    ex, chains = {}, set()
    for c, v in st.conds.items():
        if c.op == 'exhausted':
            b, d = c.a[0], 0
            while b.op == 'adv' or b.op == 'it' and b.a[0] == 'adv':
                b, d = b.a[-1] if b.op == 'it' else b.a[0], d + 1
            ex[d] = v
            chains |= chain(b, store) or set()
    return ex, chains


def mesh_flatten(P, rep):
    """every directed edge that is not straight receives exactly its interior points, in order, and is straight afterwards"""
    fid = P.method('MeshBasics', 'flatten_curved_edges')
    m = Math(P, rep, 'mesh', loop=2, maxpaths=5000)
    args, atoms, st = sym_args(P, fid)
    where = (fid, loc(P, fid))
    ai, outs = m.run(fid, args, 'flattening a mesh', st=st, hooks={'*': mesh_hook(P)})
    if ai and not outs:
        rep.ob('mesh', 'flattening a mesh', None, 'no path')
    seen = set()
    for s, r in outs:
        evs = [ev for ev in s.events() if ev[0] in ('kind', 'setcurve', 'insert', 'flat')]
        ex, chains = draws(s, '.halfedges.data')
        edges = []
        for ev in evs:
            if ev[1] not in edges:
                edges.append(ev[1])
        generic = [e for e in edges if e.op == 'item' and e.a[-1] == '*']
        common = [ev[2] for ev in evs if ev[0] == 'kind' and ev[1] in generic]
        edges = [e for e in edges if e not in generic or any(ev[1] is e and ev[0] in ('setcurve', 'insert') for ev in evs)]
        odd = chains - PASS or any(e.op != 'item' for e in edges)
        for c in s.conds:
            if generic and c.op != 'exhausted' and not liveness(c) and any(contains(c, lambda y: y is e) for e in generic) and not edges_in(c, edges):
                rep.ob('mesh', 'every edge is considered', None if contains(c, lambda y: y.op in ('flat', 'app')) else False, 'only those with %s' % show(c)[:120], where)
        full = any(v == 1 for v in ex.values())
        rep.ob('mesh', 'every edge is considered', True if full and len(edges) == max(ex) else (None if odd or not ex else False),
               '%d of the %s edges met are looked at' % (len(edges), max(ex, default=0)), where)
        for e in edges:
            mine = [ev for ev in evs if ev[1] is e]
            kinds = [ev[2] for ev in mine if ev[0] == 'kind'] or common
            kind = kinds[0].a[1] if kinds else None
            ops = [ev for ev in mine if ev[0] in ('setcurve', 'insert')]
            flat = [ev for ev in mine if ev[0] == 'flat']
            if kind is None:
                rep.ob('mesh', 'the curve of each edge is looked at', None if odd else False, 'changed without looking at its curve', where)
                continue
            seen.add(kind)
            if kind == 'Linear':
                rep.ob('mesh', 'a straight edge stays as it is', not [ev for ev in ops if ev[0] == 'insert' and not none_inserted(ev, s, e)]
                       and all(is_linear(ev[2]) for ev in ops if ev[0] == 'setcurve'), 'a straight edge is changed', where)
                continue
            ins = [i for i, ev in enumerate(ops) if ev[0] == 'insert']
            sets = [i for i, ev in enumerate(ops) if ev[0] == 'setcurve']
            fin = now(s, e) or kinds[0]
            rep.ob('mesh', 'a %s edge is straight afterwards' % kind, is_linear(fin) or (None if fin.op != 'adt' else False), 'its curve is then %s' % show(fin)[:60], where)
            rep.ob('mesh', 'the tolerance is the given one', all(ev[2] == (atoms[1], 'flatten_casteljau') for ev in flat) or
                   (None if any(type(ev[2][0]) is T and ev[2][0].op not in ('p', 'c', 'cdef', 'bin', 'neg') for ev in flat) else False),
                   'flattened with %s' % [show(ev[2][0])[:60] for ev in flat], where)
            rep.ob('mesh', 'the points are taken before the curve is dropped', not sets or not flat or
                   mine.index(flat[0]) < mine.index(ops[sets[0]]), 'dropped first', where)
            empty = nonempty(s, e)
            if not ins:
                rep.ob('mesh', 'a curved edge receives its points', empty is False or (None if odd or empty is None and not flat else False),
                       'nothing is inserted although the flattening has points', where)
                continue
            rep.ob('mesh', 'a curved edge receives its points once', len(ins) == 1, '%d insertions' % len(ins), where)
            x = ops[ins[0]][2]
            good = None
            if x.op == 'tuple' and len(x.a) == 3:
                p = m.alg.strip(x.a[2])
                good = p.op == 'app' and leaf(p.a[0]) == 'from_pos' and in_order(m.alg.strip(p.a[1]), e)
                plain = [y.op == 'app' and leaf(y.a[0]) in ('default', 'allocate') and len(y.a) == 1 for y in (m.alg.strip(x.a[0]), m.alg.strip(x.a[1]))]
                rep.ob('mesh', 'new segments are straight', all(plain) or None, 'payloads %s' % show(x)[:100], where)
            elif none_inserted(ops[ins[0]], s, e):
                good = True if empty is False else None
            rep.ob('mesh', 'the points of a curved edge are inserted in order', good, 'inserts %s' % show(x)[:160], where)
    rep.ob('mesh', 'all kinds of edges seen', seen == set(VARIANTS) or None, str(seen))


def edges_in(c, edges):
    return any(contains(c, lambda y: y is e) for e in edges)


def is_linear(c):
    return type(c) is T and c.op == 'adt' and c.a[1] == 'Linear'


def m_strip(x):
    while x.op in ('deref', 'refto'):
        x = x.a[0]
    return x


def in_order(x, e):
    """x is the generic element of the flattening of e, drawn front to back, nothing left out"""
    while x.op in ('deref', 'refto'):
        x = x.a[0]
    if x.op == 'at' and x.a[0].op == 'flat' and x.a[0].a[0] is e:
        it = x.a[1]
        if it.op == 'item' and it.a[-1] == '*' and it.a[0].op == 'it' and it.a[0].a[0] == 'idx':
            return True
        return False if contains(it, lambda y: y.op == 'it' and y.a[0] in ('rev', 'skip', 'take', 'step_by')) else None
    if x.op == 'item' and x.a[-1] == '*' and x.a[0].op == 'it' and x.a[0].a[0] in ('val', 'ref'):
        y = m_strip(x.a[0].a[1])
        if y.op == 'flat' and y.a[0] is e:
            return True
    if contains(x, lambda y: y.op in ('rev', 'it') and (y.op == 'rev' or y.a[0] in ('rev', 'skip', 'take', 'step_by'))):
        return False
    return None


def none_inserted(ev, s, e):
    return ev[2] is None or type(ev[2]) is T and ev[2].op == 'it'


def nonempty(s, e):
    """does the path say the flattening of e has points? None if it does not say"""
    for c, v in s.conds.items():
        if contains(c, lambda y: y.op == 'flat' and y.a[0] is e):
            if c.op == 'bin' and c.a[0] == 'Lt' and isconst(c.a[1]) and c.a[1].a[0] == 0:
                return bool(v)
            if c.op == 'bin' and c.a[0] == 'Eq' and any(isconst(y) and y.a[0] == 0 for y in c.a[1:]):
                return not v
            if c.op == 'exhausted' and not contains(c, lambda y: y.op == 'adv'):
                return not v
            if c.op == 'app' and leaf(c.a[0]) == 'is_empty':
                return not v
            if c.op == 'bin' and c.a[0] == 'Lt' and isconst(c.a[2]) and c.a[2].a[0] == 1:
                return not v
            return 'odd'
    return None


def any_curved(P, rep):
    """a mesh has curved edges iff one of its edges is not straight"""
    fid = P.method('MeshBasics', 'has_curved_edges')
    m = Math(P, rep, 'mesh', loop=2, maxpaths=2000)
    args, atoms, st = sym_args(P, fid)
    where = (fid, loc(P, fid))
    ai, outs = m.run(fid, args, 'whether a mesh has curved edges', st=st, hooks={'*': mesh_hook(P)})
    pos, allk = set(), False
    for s, r in outs:
        ks = [ev for ev in s.events() if ev[0] == 'kind']
        kinds = [ev[2].a[1] for ev in ks]
        ex, chains = draws(s, '.halfedges.data')
        odd = chains - PASS or not isconst(r)
        for v in (0, 1):
            if isconst(r) and r.a[0] != v:
                continue
            if v:
                good = any(k != 'Linear' for k in kinds)
                pos |= set(kinds) - {'Linear'}
            elif ex:
                good = all(k == 'Linear' for k in kinds) and any(x == 1 for x in ex.values()) and len(kinds) == max(ex)
            else:
                # answered by a search over all edges: nothing was found that satisfies its condition
                good, allk = True, True
                for ev in ks:
                    good = good and ev[2].a[1] == 'Linear'
            rep.ob('mesh', 'whether a mesh has curved edges', good or (None if odd else False), 'answers %s having met %s' % (bool(v), kinds), where)
        for ev in ks:
            lost = ev[1].op == 'item' and drops(ev[1].a[0], '.halfedges.data')
            rep.ob('mesh', 'all edges are searched for curves', not lost, 'searches %s' % show(ev[1])[:120], where)
    if ai:
        rep.ob('mesh', 'all kinds of curves count', pos == set(VARIANTS) - {'Linear'} or (False if pos else None), 'only %s do' % sorted(pos), where)


PASS = {'idx', 'map', 'filter', 'copied', 'cloned', 'inspect', 'filter_map', 'enumerate'}

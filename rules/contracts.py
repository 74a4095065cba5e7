"""T06: complete effect of the editing operations. For each path the final links, payloads and the
returned handles are compared with a reference effect written over the links of the initial mesh;
new elements are matched by unification, and nothing outside the reference effect may change."""
import re
from ai import *
from mesh import *
from meshcheck import *
import report
import topology

PAY = {'.halfedges': (('.payload', 'EP'),), '.vertices': (('.payload', 'VP'),), '.faces': (('.payload', 'FP'), ('.curved', 'CU'))}
PLACE = {'EP': ('.halfedges', '.payload'), 'VP': ('.vertices', '.payload'), 'FP': ('.faces', '.payload'), 'CU': ('.faces', '.curved')}
LINK = ('N', 'P', 'T', 'O', 'F')
KIND = {'.halfedges': 'edge', '.vertices': 'vertex', '.faces': 'face'}


class Eff(Final):
    """final links and payloads of one path"""

    def replay(self):
        for k in ('EP', 'VP', 'FP', 'CU'):
            self.tab[k] = {}
        Final.replay(self)
        n = len(self.root.a)
        self.allocs = {'.halfedges': [], '.vertices': [], '.faces': []}
        for e in self.st.events():
            if e[0] == 'alloc' and e[1].a[:n] == self.root.a and e[1].a[n] in STORES:
                self.allocs[e[1].a[n]].append(e[2])
            if e[0] != 'w':
                continue
            p, v = e[1], e[2]
            a = p.a
            if a[:n] != self.root.a or len(a) < n + 2 or a[n] not in STORES or type(a[n + 1]) is not T:
                continue
            x = self.c(a[n + 1].a[0])
            rest = a[n + 2:]
            for fld, op in PAY[a[n]]:
                if rest == ():
                    self.tab[op][x] = self.ai.proj1(v, fld)
                    self.sites[(op, x)] = e[3]
                elif rest[0] == fld:
                    self.tab[op][x] = v if len(rest) == 1 else mk('opq', v)
                    self.sites[(op, x)] = e[3]

    def pay0(self, op, x):
        s, fld = PLACE[op]
        return mk('ini', pl_ext(self.root, s, mk('ix', x), fld))

    def get(self, op, x):
        if op in PLACE:
            x = self.c(x)
            r = self.tab[op].get(x)
            return r if r is not None else (mk('unset', op, x) if x.op == 'alloc' else self.pay0(op, x))
        return Final.get(self, op, x)


class Decline(Exception):
    pass


class Ref:
    """reference effect: facts about the final mesh, over initial links and new symbols"""

    def __init__(self, f, ret):
        self.f = f
        self.ret_actual = ret
        self.facts = {}
        self.kinds = {}
        self.deleted = []
        self.loops = []
        self.names = []

    def new(self, kind, name):
        t = mk('newsym', kind, name)
        self.kinds[t] = kind
        return t

    def old(self, op, x):
        return self.f.c(mk(op, MESH, x))

    def origin(self, x):
        return self.old('O', x)

    def target(self, x):
        return self.old('O', self.old('T', x))

    def set(self, op, x, v):
        x = self.f.c(x) if x.op != 'newsym' else x
        if op in LINK and type(v) is T and v.op != 'newsym':
            v = self.f.c(v)
        self.facts[(op, x)] = v

    def get(self, op, x):
        if x.op != 'newsym':
            x = self.f.c(x)
        v = self.facts.get((op, x))
        return v if v is not None else self.old(op, x)

    def edge(self, e, origin, twin, ep, face=MAX):
        self.set('O', e, origin)
        self.set('T', e, twin)
        self.set('EP', e, ep)
        self.set('F', e, face)

    def join(self, a, b):
        self.set('N', a, b)
        self.set('P', b, a)

    def face_on(self, first, f):
        """all edges along the final boundary starting at first carry f"""
        self.loops.append((first, f))


class Item:
    """the k-th element drawn from an argument iterator, optionally one of its components"""

    def __init__(self, it, k, comp=None):
        self.it, self.k, self.comp = it, k, comp

    def name(self):
        return 'item(it(val, %s), n%s)%s' % (self.it, '+%d' % self.k if self.k else '', '' if self.comp is None else '.%d' % self.comp)

    def __repr__(self):
        return 'element %d of %s%s' % (self.k, self.it, '' if self.comp is None else ' (part %d)' % self.comp)


class Dflt:
    def __repr__(self):
        return 'the default'


DEF = Dflt()
ITEM = re.compile(r'^item\(it\(val, \w+\), n(\+\d+)?\)(\.\d)?$')


def is_default(v):
    return show(v).split('::')[-1] in ('default()',)


def same(actual, want):
    """True / False / None (outside the understood vocabulary)"""
    if isinstance(want, Item):
        s = show(actual)
        if s == want.name():
            return True
        return False if ITEM.match(s) or actual.op in ('p', 'MAX') or is_default(actual) else None
    if want is DEF:
        if is_default(actual):
            return True
        return False if actual.op in ('p', 'MAX') or ITEM.match(show(actual)) else None
    if actual is want:
        return True
    if is_default(actual):
        return False
    if isinstance(want, bool):
        if actual in (TRUE, FALSE):
            return (actual is TRUE) == want
        return False if actual.op == 'p' else None
    if contains(actual, lambda t: t.op in UNKNOWN or t.op == 'opq'):
        return None
    if type(want) is T and contains(want, lambda t: t.op in UNKNOWN):
        return None
    return False


# ------------------------------------------------------------------------------- reference effects
def default_args(args, names):
    return args


def add_via_edge(r, i, o, vp, a1, a2):
    v, e1, e2 = r.new('.vertices', 'v'), r.new('.halfedges', 'e1'), r.new('.halfedges', 'e2')
    r.edge(e1, r.target(i), e2, a1)
    r.edge(e2, v, e1, a2)
    r.join(i, e1)
    r.join(e1, e2)
    r.join(e2, o)
    r.set('VP', v, vp)
    return (v, e1, e2)


def link_edges(r, i, a1, o, a2):
    e1, e2 = r.new('.halfedges', 'e1'), r.new('.halfedges', 'e2')
    ni, no = r.old('N', i), r.old('N', o)
    r.edge(e1, r.target(i), e2, a1)
    r.edge(e2, r.target(o), e1, a2)
    r.join(i, e1)
    r.join(e1, no)
    r.join(o, e2)
    r.join(e2, ni)
    return (e1, e2)


def new_face(r, first, fp, cu):
    f = r.new('.faces', 'f')
    r.set('FP', f, fp)
    r.set('CU', f, cu)
    r.face_on(first, f)
    return f


def attached(r, v):
    """does v have edges before the operation?"""
    rep = r.old('V', v)
    if rep is MAX:
        return False
    for t, val in r.f.st.conds.items():
        if t.op == 'bin' and t.a[0] == 'Eq' and MAX in t.a[1:]:
            if any(r.f.c(y) is rep for y in t.a[1:]) and val == 0:
                return True
    return None


def ret_part(r, k):
    t = r.ret_actual
    if t.op == 'tuple' and len(t.a) > k:
        return t.a[k]
    raise Decline('result is not built as a tuple')


def picked(r, e, op, v, other=None):
    """the edge the implementation picked next to its new edge e: a boundary edge into v"""
    x = r.f.get(op, e)
    if x.op in ('unset', 'alloc') or x is MAX:
        return x, False
    if not r.target(x) is r.f.c(v):
        return x, False
    if r.old('F', x) is not MAX:
        return x, False
    return x, True


def spec_via_vertex(r, v, vp, a1, a2):
    i, ok = picked(r, ret_part(r, 1), 'P', v)
    if not ok:
        return ('bad', 'the new edge does not follow a boundary edge into the given vertex but %s' % r.f.sh(i))
    return add_via_edge(r, i, r.old('N', i), vp, a1, a2)


def spec_between(r, v, a1, w, a2):
    e1, e2 = r.new('.halfedges', 'e1'), r.new('.halfedges', 'e2')
    r.edge(e1, v, e2, a1)
    r.edge(e2, w, e1, a2)
    for x, e, t, k in ((v, e1, e2, 0), (w, e2, e1, 1)):
        at = attached(r, x)
        if at is None:
            raise Decline('unknown whether the vertex has edges')
        if not at:
            r.join(t, e)
            continue
        p, ok = picked(r, ret_part(r, k), 'P', x)
        if not ok:
            return ('bad', 'the new edge leaving %s does not follow a boundary edge into it but %s' % (r.f.sh(x), r.f.sh(p)))
        r.join(t, r.old('N', p))
        r.join(p, e)
    return (e1, e2)


def spec_isolated(r, a, a1, b, a2):
    v0, v1 = r.new('.vertices', 'v0'), r.new('.vertices', 'v1')
    e0, e1 = r.new('.halfedges', 'e0'), r.new('.halfedges', 'e1')
    r.edge(e0, v0, e1, a1)
    r.edge(e1, v1, e0, a2)
    r.join(e0, e1)
    r.join(e1, e0)
    r.set('VP', v0, a)
    r.set('VP', v1, b)
    return (v0, v1)


def spec_close(r, i, a1, o, a2, fp, cu):
    e1, e2 = link_edges(r, i, a1, o, a2)
    return (new_face(r, i, fp, cu), e1, e2)


def spec_close_vertices(r, prev, a1, frm, a2, to, fp, cu):
    i = r.f.get('P', ret_part(r, 1))
    if i.op in ('alloc', 'unset') or not (r.origin(i) is r.f.c(prev) and r.target(i) is r.f.c(frm)):
        return ('bad', 'the new inside edge does not follow the edge from the first to the second vertex but %s' % r.f.sh(i))
    o, ok = picked(r, ret_part(r, 2), 'P', to)
    if not ok:
        return ('bad', 'the new outside edge does not follow a boundary edge into the third vertex but %s' % r.f.sh(o))
    return spec_close(r, i, a1, o, a2, fp, cu)


def spec_remove_face(r, f):
    r.deleted.append(('.faces', r.f.c(f)))
    r.face_on(r.old('FE', f), MAX)
    return r.f.pay0('FP', f)


def drawn(r, it):
    """how many elements the path draws from an argument iterator before it is exhausted"""
    n, end = 0, False
    for t, v in r.f.st.conds.items():
        if t.op == 'exhausted':
            d, x = 0, t.a[0]
            while x.op == 'adv':
                d, x = d + 1, x.a[0]
            if show(x) != 'it(val, %s)' % it:
                continue
            if v == 1:
                end = True
            else:
                n = max(n, d + 1)
    if not end:
        raise Decline('elements are not drawn one by one')
    return n


def spec_split(r, e, it):
    k = drawn(r, it)
    t = r.old('T', e)
    A = [r.new('.halfedges', 'a%d' % j) for j in range(k)]
    B = [r.new('.halfedges', 'b%d' % j) for j in range(k)]
    W = [r.new('.vertices', 'v%d' % j) for j in range(k)]
    if k == 0:
        return e
    last = r.origin(e)
    pe, nt = r.old('P', e), r.old('N', t)
    f1, f2 = r.old('F', e), r.old('F', t)
    for j in range(k):
        r.edge(A[j], last, B[j], Item(it, j, 0), f1)
        r.edge(B[j], W[j], A[j], Item(it, j, 1), f2)
        r.set('VP', W[j], Item(it, j, 2))
        last = W[j]
    if pe is r.f.c(t):
        r.join(B[0], A[0])
    else:
        r.join(pe, A[0])
        r.join(B[0], nt)
    for j in range(k - 1):
        r.join(A[j], A[j + 1])
        r.join(B[j + 1], B[j])
    r.join(A[-1], e)
    r.join(t, B[-1])
    r.set('O', e, last)
    return A[0]


def path_edges(r, it):
    k = drawn(r, it)
    if k < 2:
        return None
    W = [r.new('.vertices', 'v%d' % j) for j in range(k)]
    A = [r.new('.halfedges', 'a%d' % j) for j in range(k - 1)]
    B = [r.new('.halfedges', 'b%d' % j) for j in range(k - 1)]
    for j in range(k):
        r.set('VP', W[j], Item(it, j))
    for j in range(k - 1):
        r.edge(A[j], W[j], B[j], DEF)
        r.edge(B[j], W[j + 1], A[j], DEF)
        r.join(*((A[j], A[j + 1]) if j + 1 < k - 1 else (A[j], B[j])))
        r.join(*((B[j], B[j - 1]) if j else (B[j], A[j])))
    return W, A, B


def spec_path(r, it):
    x = path_edges(r, it)
    return ('bad', 'a path needs two vertices') if x is None else (x[2][0], x[1][-1])


def spec_loop(r, it):
    x = path_edges(r, it)
    if x is None:
        return ('bad', 'a loop needs two vertices')
    W, A, B = x
    if len(W) == 2:
        return ('skip',)   # would double an edge: outside the precondition
    e1, e2 = r.new('.halfedges', 'c1'), r.new('.halfedges', 'c2')
    r.edge(e1, W[0], e2, DEF)
    r.edge(e2, W[-1], e1, DEF)
    r.join(B[0], e1)
    r.join(e1, B[-1])
    r.join(A[-1], e2)
    r.join(e2, A[0])
    return B[0]


def spec_half(r, e, vp, ep):
    n, v = r.new('.halfedges', 'n'), r.new('.vertices', 'v')
    r.edge(n, v, r.old('T', e), ep, r.old('F', e))
    r.set('VP', v, vp)
    r.join(n, r.old('N', e))
    r.join(e, n)
    return n


def spec_fixup(r, e, ep):
    o = r.old('T', e)
    other = r.old('N', o)      # the half of the opposite edge that was added first
    rt = r.ret_actual
    n = r.new('.halfedges', 'n')
    r.edge(n, r.old('O', other), o, ep, r.old('F', e))
    r.join(n, r.old('N', e))
    r.join(e, n)
    r.set('T', e, other)
    r.set('T', o, n)
    return ('some', n)


VP, A1, A2, FP, CU = X('vp'), X('ep1'), X('ep2'), X('fp'), X('curved')


def defaulted(fn, slots, extra=()):
    """the *_default variant: the given argument positions are defaults"""
    def g(r, *args):
        a = list(args)
        for s in slots:
            a.insert(s, DEF)
        for s, v in extra:
            a.insert(s, v)
        return fn(r, *a)
    return g


SPECS = {
    'add_vertex_via_edge': add_via_edge,
    'add_vertex_via_edge_default': lambda r, i, o, vp: add_via_edge(r, i, o, vp, DEF, DEF),
    'insert_edge': link_edges,
    'insert_edge_no_check': link_edges,
    'insert_edge_between': spec_between,
    'add_vertex_via_vertex': spec_via_vertex,
    'add_vertex_via_vertex_default': lambda r, v, vp: spec_via_vertex(r, v, vp, DEF, DEF),
    'add_isolated_edge': spec_isolated,
    'add_isolated_edge_default': lambda r, a, b: spec_isolated(r, a, DEF, b, DEF),
    'close_hole': new_face,
    'close_hole_default': lambda r, e: new_face(r, e, DEF, False),
    'close_face': spec_close,
    'close_face_default': lambda r, i, o, cu: spec_close(r, i, DEF, o, DEF, DEF, cu),
    'close_face_vertices': spec_close_vertices,
    'close_face_vertices_default': lambda r, p, fr, to, cu: spec_close_vertices(r, p, DEF, fr, DEF, to, DEF, cu),
    'remove_face': spec_remove_face,
    'insert_vertices_into_edge': lambda r, e, ps: spec_split(r, e, 'ps'),
    'add_vertex': lambda r, vp: [r.set('VP', r.new('.vertices', 'v'), vp), r.new('.vertices', 'v')][1],
    'insert_path': lambda r, ps: spec_path(r, 'ps'),
    'insert_loop': lambda r, ps: spec_loop(r, 'ps'),
    'subdivide_unsafe': spec_half,
    'subdivide_unsafe_try_fixup': spec_fixup,
}


# ------------------------------------------------------------------------------- comparison
def compare(f, r, want, ret):
    """yield (name, good, message, site)"""
    bind = {}
    used = set()
    sh = lambda t: names(f, bind, t)

    def val(t):
        return bind.get(t, t) if type(t) is T and t.op == 'newsym' else t

    def unify(sym, actual):
        """True/False/None"""
        if sym in bind:
            return bind[sym] is actual
        if actual.op == 'alloc' and actual.a[0].a[-1] == r.kinds[sym]:
            if actual in used:
                return False
            bind[sym] = actual
            used.add(actual)
            return True
        if contains(actual, lambda t: t.op in UNKNOWN):
            return None
        return False

    def check_ret(w, a, path='result'):
        if isinstance(w, tuple) and w and w[0] == 'some':
            if a.op == 'adt' and a.a[1] == 'None':
                yield (path, False, 'nothing is returned', None)
            elif a.op == 'adt' and a.a[1] == 'Some':
                yield from check_ret(w[1], a.a[3], path)
            else:
                yield (path, None, 'result %s' % show(a)[:80], None)
        elif isinstance(w, tuple):
            if a.op != 'tuple' or len(a.a) != len(w):
                yield (path, None, 'result is not a tuple', None)
                return
            for k, (x, y) in enumerate(zip(w, a.a)):
                yield from check_ret(x, y, '%s part %d' % (path, k))
        elif type(w) is T and w.op == 'newsym':
            g = unify(w, f.c(a))
            yield (path, g, '%s is %s instead of the new %s' % (path, f.sh(f.c(a)), label(w)), None)
        else:
            x = f.c(a)
            w2 = f.c(w) if type(w) is T else w
            g = same(x, w2)
            if g is False:
                g = True if f.c(x) is w2 else False
            yield (path, g, '%s is %s instead of %s' % (path, f.sh(x), f.sh(w2) if type(w2) is T else w2), None)

    # what is matched through the result first
    if want is not None:
        yield from check_ret(want, ret)
    # then along the facts
    fx = list(r.facts.items())
    progress = True
    bad = {}
    while progress:
        progress = False
        for (op, x), v in fx:
            if op not in LINK:
                continue
            xx = val(x)
            if xx.op == 'newsym':
                continue
            if type(v) is T and v.op == 'newsym' and v not in bind and (op, x) not in bad:
                g = unify(v, f.get(op, xx))
                if g is True:
                    progress = True
                else:
                    bad[(op, x)] = g
        if not progress:
            for (op, x), v in fx:
                if x.op != 'newsym' or x in bind:
                    continue
                w = val(v)
                if type(w) is T and w.op == 'newsym' or w is DEF:
                    continue
                c = [a for a in f.allocs[r.kinds[x]] if a not in used and (f.get(op, a) is w or same(f.get(op, a), w))]
                if len(c) == 1:
                    bind[x] = c[0]
                    used.add(c[0])
                    progress = True
                    break
    expect = set()
    for (op, x), v in fx:
        xx = val(x)
        if xx.op == 'newsym':
            yield ('new', None if f.tainted else False, 'no new %s was made (%s)' % (label(xx), NAME[op]), None)
            continue
        expect.add((op, xx))
        a = f.get(op, xx)
        if op == 'F' and any(f.in_loop(xx, f.c(val(b))) for b, _ in r.loops):
            continue
        if type(v) is T and v.op == 'newsym':
            w = val(v)
            g = a is w
            if not g and contains(a, lambda t: t.op in UNKNOWN):
                g = None
            yield (op, g, '%s of %s is %s instead of %s' % (NAME[op], sh(xx), sh(a), sh(w)), f.sites.get((op, xx)))
        else:
            g = same(a, v)
            yield (op, g, '%s of %s is %s instead of %s' % (NAME[op], sh(xx), sh(a), sh(v)), f.sites.get((op, xx)))
    loops = [(f.c(val(a)), val(b)) for a, b in r.loops]
    cov = f.covered()
    for first, fc in loops:
        hit = [v for a, v in cov if a is first or f.in_loop(first, a) or f.in_loop(a, first)]
        if hit:
            yield ('loop', hit[0] is fc, 'edges around %s get face %s instead of %s' % (sh(first), sh(hit[0]), sh(fc)), None)
        elif walk(f, first, fc):
            yield ('loop', True, 'loop', None)
        else:
            anyw = bool(f.tab['F']) and not any(x.op == 'loop' for x in f.tab['F'])
            yield ('loop', False if anyw or not f.tab['F'] else None, 'not all edges around %s get face %s' % (sh(first), sh(fc)), None)
    for op in LINK + tuple(PLACE):
        for x, v in f.tab[op].items():
            if (op, x) in expect:
                continue
            if op == 'F' and any(v is fc and f.in_loop(x, first) for first, fc in loops):
                continue
            if op in LINK:
                if x.op != 'alloc' and v is f.old(op, x):
                    continue
            elif x.op != 'alloc' and v is f.pay0(op, x):
                continue
            tn = f.tainted or contains(x, lambda t: t.op in UNKNOWN) or contains(v, lambda t: t.op in UNKNOWN)
            yield ('frame', None if tn else False, '%s of %s becomes %s although the operation does not concern it' % (NAME[op], sh(x), sh(v)),
                   f.sites.get((op, x)))
    for s in STORES:
        n = sum(1 for t in r.kinds if r.kinds[t] == s)
        yield ('count', len(f.allocs[s]) == n, '%d new slots for %s elements are taken instead of %d' % (len(f.allocs[s]), KIND[s], n), None)
    dl = set(f.deleted)
    yield ('deleted', dl == set(r.deleted), 'deleted: %s instead of %s' % ([sh(x[1]) for x in dl], [sh(x[1]) for x in r.deleted]), None)


def walk(f, first, fc, k=12):
    """the edges met from first are all written with fc until the walk is back at first"""
    x = first
    for _ in range(k):
        if f.tab['F'].get(x) is not fc:
            return False
        x = f.get('N', x)
        if x is first:
            return True
    return False


NAME = dict(NAMES, EP='payload', VP='payload', FP='payload', CU='curved mark')


def label(t):
    return '%s %s' % (KIND[t.a[0]], t.a[1])


def names(f, bind, t):
    if type(t) is not T:
        return str(t)
    for k, v in bind.items():
        if v is t:
            return 'new ' + label(k)
    if t.op == 'newsym':
        return 'new ' + label(t)
    return f.sh(t)


def t06(P, rep, tier, cfg, rel):
    loop = 3 if tier == 'thorough' else 2
    ents = [e for e in topology.entries(tier) if e[2] in SPECS]
    ents.append(('default payload', 'MeshBuilder', 'close_hole_default', [SELF, E('e')], [(mk('F', MESH, E('e')), MAX)], {}))
    for lab, tr, name, args, hyps, kw in ents:
        inst = '%s [%s]' % (name, lab)
        fid = P.method(tr, name)
        if fid is None:
            fid = P.method_id(tr, name) if hasattr(P, 'method_id') else None
        if fid is None:
            raise report.Fatal('%s::%s' % (tr, name))
        try:
            run = MeshRun(P, fid, args, hyps, loop=loop, **kw.get('dk', {}))
            outs = run.run()
        except Exception as ex:
            rep.ob('analysis', inst, None, '%s: %s' % (type(ex).__name__, ex))
            continue
        rep.paths += len(outs)
        rep.analysed(*run.ai.visited)
        feasible = 0
        for s, ret in outs:
            eq = kw.get('eqs')
            f = Eff(run, s, place(mk('M', SELF)), eq(run, s) if eq else ())
            if f.infeasible:
                continue
            feasible += 1
            r = Ref(f, ret)
            try:
                want = SPECS[name](r, *args[1:])
                if want == ('skip',):
                    continue
                if isinstance(want, tuple) and want and want[0] == 'bad':
                    tn = f.tainted or 'unknown' in want[1]
                    rep.ob('effect', '%s: %s' % (inst, want[1]), None if tn else False, want[1], (fid, None))
                    continue
                for nm, good, msg, site in compare(f, r, want, ret):
                    if not good and f.tainted:
                        good = None
                    rep.ob('effect', '%s: %s' % (inst, msg if not good else nm), good, msg, site or (fid, None))
            except Decline as ex:
                rep.note = getattr(rep, 'note', None)
                rep.ob('effect', '%s: %s' % (inst, ex), None, str(ex), (fid, None))
        rep.ob('reachable', inst, feasible > 0 or None, 'no feasible path returns')
    rep.floor('effect', 400)

"""Editing code seen as a sequence of primitive mesh operations: each primitive becomes an event and yields fresh handles."""
from mathx import *

# primitive -> shape of its result
PRIMS = {
    'MeshBuilder': {'add_vertex': 'V', 'add_isolated_edge_default': 'VV', 'insert_path': 'EE', 'insert_loop': 'E', 'close_hole': 'F',
                    'add_vertex_via_vertex_default': 'VEE', 'add_vertex_via_edge_default': 'VEE', 'close_hole_default': 'F', 'close_face_vertices_default': 'F',
                    'insert_vertices_into_edge': 'E', 'remove_face': 'P', 'remove_edge': 'F'},
    'MeshHalfEdgeBuilder': {'add_isolated_edge': 'VV', 'insert_edge_between': 'EE', 'add_vertex_via_vertex': 'VEE', 'add_vertex_via_edge': 'VEE',
                            'insert_edge': 'EE', 'close_face': 'FEE', 'close_face_vertices': 'FEE', 'close_face_default': 'FEE'},
}
DEFAULTED = {'add_isolated_edge_default': 'add_isolated_edge', 'add_vertex_via_vertex_default': 'add_vertex_via_vertex', 'add_vertex_via_edge_default': 'add_vertex_via_edge',
             'close_hole_default': 'close_hole', 'close_face_default': 'close_face', 'close_face_vertices_default': 'close_face_vertices'}
DEF = mk('app', 'default')
# where the default payloads go in the argument list of the full operation
SPREAD = {'add_isolated_edge': lambda a: [a[0], DEF, a[1], DEF], 'add_vertex_via_vertex': lambda a: [a[0], a[1], DEF, DEF],
          'add_vertex_via_edge': lambda a: [a[0], a[1], a[2], DEF, DEF], 'close_hole': lambda a: [a[0], DEF, FALSE],
          'close_face': lambda a: [a[0], DEF, a[1], DEF, DEF, a[2]], 'close_face_vertices': lambda a: [a[0], DEF, a[1], DEF, a[2], DEF, a[3]]}


def trait_methods(P, names):
    ids = {}
    for t in P.traits.values():
        for suf, ms in names.items():
            if t['id'].endswith('::' + suf):
                for m in t['methods']:
                    if m['name'] in ms:
                        ids[m['id']] = m['name']
                        for im, fid in P.impl_of.get(m['id'], []):
                            ids[fid] = m['name']
    return ids


def plain(ai, st, v):
    """value of an argument; payload defaults are all the same"""
    v = ai.snap(st, v)
    return default_of(v)


def default_of(v):
    if v.op == 'app' and leaf(str(v.a[0])) in ('default', 'allocate') and len(v.a) == 1:
        return DEF
    if v.op == 'adt' and len(v.a) == 3 and str(v.a[0]).endswith('Payload'):
        return DEF
    return v


def new(kind, k, i=0):
    return mk('fresh', kind, k, i)


def recorder(P, seqs=None):
    """hook: primitive operations are events 'mesh' (name, args); handles are fresh; positions of new vertices are known"""
    ids = trait_methods(P, PRIMS)
    look = trait_methods(P, {'MeshBasics': ('vertex', 'edge', 'face', 'vertex_mut', 'edge_mut', 'face_mut', 'shared_edge_id', 'shared_edge'),
                             'CurvedEdge': ('set_curve_type', 'curve_type'), 'VertexBasics': ('pos', 'id'), 'EdgeBasics': ('id', 'is_boundary_self'), 'HalfEdge': ('next_id', 'next', 'twin_id', 'twin', 'prev_id', 'origin_id', 'target_id')})
    vlook = trait_methods(P, {'VertexBasics': ('edge', 'edge_id', 'is_isolated')})
    shape = {n: s for d in PRIMS.values() for n, s in d.items()}

    def star(ai, st, c, rid, args, site):
        nm = ids.get(c['id']) or ids.get(rid)
        if nm:
            st = st.copy()
            k = sum(1 for e in st.events() if e[0] == 'mesh')
            real = DEFAULTED.get(nm, nm)
            rest = list(args[1:])
            if real != nm:
                rest = SPREAD[real](rest)
            if nm in ('insert_path', 'insert_loop', 'insert_vertices_into_edge'):
                vals = [x if x.op in ('it', 'coll') else plain(ai, st, x) for x in rest]
            else:
                vals = [plain(ai, st, x) for x in rest]
            st.event('mesh', real, tuple(vals), site)
            sh = shape[real]
            hs = [new(h, k, i) for i, h in enumerate(sh)]
            return [(st, hs[0] if len(hs) == 1 else mk('tuple', *hs))]
        nm = vlook.get(c['id']) or vlook.get(rid)
        if nm:
            h = handle(args[0]) or handle_value(ai, st, args[0])
            if h is not None and h.a[0] == 'v' and h.a[1].op == 'fresh' and touching(st, h.a[1]) == 0:
                return [(st, {'edge': NONE, 'edge_id': mk('app', 'max'), 'is_isolated': TRUE}[nm])]
            return None
        nm = look.get(c['id']) or look.get(rid)
        if nm in ('vertex', 'edge', 'face', 'vertex_mut', 'edge_mut', 'face_mut'):
            return [(st, mk('ref', place(mk('M', mk('handle', nm[0], ai.snap(st, args[1]))))))]
        if nm == 'shared_edge_id':
            return [(st, some(edge_between(st, ai.snap(st, args[1]), ai.snap(st, args[2]))))]
        if nm in ('pos', 'id'):
            h = handle(args[0]) or handle_value(ai, st, args[0])
            if h is not None:
                return [(st, posof(st, h.a[1]) if nm == 'pos' else h.a[1])]
        if nm in LINKS:
            h = handle(args[0]) or handle_value(ai, st, args[0])
            y = link(st, h.a[1], nm.replace('_id', '')) if h is not None and h.a[0] == 'e' else None
            if y is not None:
                return [(st, y if nm.endswith('_id') else ai.deref(st, mk('ref', place(mk('M', mk('handle', 'e', y))))))]
        if nm == 'set_curve_type':
            h = handle(args[0])
            st = st.copy()
            st.event('curve', h.a[1] if h is not None else args[0], ai.snap(st, args[1]), site)
            return [(st, UNIT)]
        return None
    return star


def handle(r):
    if r.op == 'ref' and len(r.a[0].a) == 1 and r.a[0].a[0].op == 'M':
        r = r.a[0].a[0].a[0]
    return r if r.op == 'handle' else None


LINKS = ('next_id', 'next', 'twin_id', 'twin', 'prev_id', 'origin_id', 'target_id')


def handle_value(ai, st, r):
    """the handle a reference to a copy of the element was copied from"""
    if r.op != 'ref':
        return None
    v = ai.deref(st, r)
    if v.op == 'adt' and str(v.a[0]).endswith('Impl'):
        v = ai.proj1(v, '.id')
    if v.op == 'ini' and v.a[0].op == 'pl' and v.a[0].a[0].op == 'M' and v.a[0].a[0].a[0].op == 'handle' and v.a[0].a[1:] in ((), ('.id',)):
        return v.a[0].a[0].a[0]
    return None


def ends(st, e):
    """(origin, target, twin) of an inserted edge"""
    k = -1
    for ev in st.events():
        if ev[0] != 'mesh':
            continue
        k += 1
        nm, a = ev[1], ev[2]
        if nm == 'insert_edge_between':
            pair = (new('E', k, 0), new('E', k, 1), a[0], a[2])
        elif nm == 'add_vertex_via_vertex':
            pair = (new('E', k, 1), new('E', k, 2), a[0], new('V', k, 0))
        elif nm == 'close_face_vertices':
            pair = (new('E', k, 1), new('E', k, 2), a[2], a[4])
        elif nm == 'add_isolated_edge':
            v, w = new('V', k, 0), new('V', k, 1)
            pair = (mk('edge', v, w), mk('edge', w, v), v, w)
        else:
            continue
        if e is pair[0]:
            return pair[2], pair[3], pair[1]
        if e is pair[1]:
            return pair[3], pair[2], pair[0]
    return None


def touching(st, v):
    n = 0
    k = -1
    for ev in st.events():
        if ev[0] != 'mesh':
            continue
        k += 1
        nm, a = ev[1], ev[2]
        vs = {'insert_edge_between': lambda: (a[0], a[2]), 'add_vertex_via_vertex': lambda: (a[0], new('V', k, 0)), 'close_face_vertices': lambda: (a[2], a[4]),
              'add_isolated_edge': lambda: (new('V', k, 0), new('V', k, 1)), 'add_vertex': lambda: (), 'close_hole': lambda: ()}.get(nm)
        if vs is None:
            return None
        n += sum(1 for x in vs() if x is v)
    return n


def link(st, e, nm):
    r = ends(st, e)
    if r is None:
        return None
    o, t, tw = r
    if nm in ('twin', 'origin', 'target'):
        return {'twin': tw, 'origin': o, 'target': t}[nm]
    v = t if nm == 'next' else o
    if v.op == 'fresh' and touching(st, v) == 1:
        return tw
    return None


def edge_between(st, v, w):
    """the edge from v to w among the inserted ones"""
    k = -1
    for e in st.events():
        if e[0] != 'mesh':
            continue
        k += 1
        nm, a = e[1], e[2]
        if nm == 'add_isolated_edge':
            pair = (new('V', k, 0), new('V', k, 1))
            if (v, w) == pair or (w, v) == pair:
                return mk('edge', v, w)
        if nm == 'insert_edge_between' and {v, w} == {a[0], a[2]}:
            return new('E', k, 0 if v is a[0] else 1)
        if nm == 'add_vertex_via_vertex' and {v, w} == {a[0], new('V', k, 0)}:
            return new('E', k, 1 if v is a[0] else 2)
    return mk('edge', v, w)


def posof(st, v):
    p = payload_of(st, v)
    if p is not None and p.op == 'app' and leaf(str(p.a[0])) == 'from_pos':
        return p.a[1]
    return mk('app', 'posof', v)


def payload_of(st, v):
    if v.op != 'fresh':
        return None
    k = -1
    for e in st.events():
        if e[0] != 'mesh':
            continue
        k += 1
        if k == v.a[1]:
            nm, a = e[1], e[2]
            return {'add_vertex': lambda: a[0], 'add_isolated_edge': lambda: a[2 * v.a[2]], 'add_vertex_via_vertex': lambda: a[1],
                    'add_vertex_via_edge': lambda: a[2]}.get(nm, lambda: None)()
    return None


def log(st):
    return [e for e in st.events() if e[0] in ('mesh', 'curve')]

"""T01-T03: link reciprocity, origins and face references are preserved by every
topology-changing operation (path-partitioned value-flow analysis, see DESIGN.md)."""
from ai import *
from mesh import *
from meshcheck import *
import report

i, o, e, v, w = E('in'), E('out'), E('e'), V('v'), V('w')


def L(op, x):
    return mk(op, MESH, x)


def wedge(run, st):
    """the documented precondition of boundary insertion: a vertex has one open wedge, so its
    ingoing boundary edge is followed by its outgoing boundary edge"""
    ins, outs, eqs = {}, {}, []
    for t, val in st.conds.items():
        if t.op == 'bin' and t.a[0] == 'Eq' and MAX in t.a[1:] and val == 1:
            x = [y for y in t.a[1:] if y is not MAX]
            x = x[0] if x else MAX
            if x.op == 'F':
                y = x.a[1]
                if y.op == 'wheel': outs.setdefault(y.a[1], []).append(y)
                if y.op == 'T' and y.a[1].op == 'wheel': ins.setdefault(y.a[1].a[1], []).append(y)
    for k, l in outs.items():
        for b in l:
            for a in ins.get(k, []):
                eqs.append((mk('N', a.a[0], a), b))
    return eqs


def one_edge(run, st):
    """a vertex with a single edge lies on the boundary"""
    eqs = wedge(run, st)
    f = Final(run, st, place(mk('M', SELF)), eqs)
    r = L('V', v)
    if f.infeasible:
        return eqs
    if f.c(L('T', r)) is f.c(L('P', r)) or f.c(L('N', L('T', r))) is f.c(r):
        eqs.append((L('F', r), MAX))
    return eqs


def inside_open(run, st):
    """close_face_vertices: the edge prev->from is a boundary edge"""
    eqs = wedge(run, st)
    r = L('V', V('prev'))
    for t in list(st.conds):
        for x in walk(t):
            if x.op == 'wheel' and x.a[1] is r:
                eqs.append((mk('F', x.a[0], x), MAX))
    return eqs


FREE = [(L('F', i), MAX), (L('F', o), MAX)]


def entries(tier):
    B, HB, SB, HE = 'MeshBuilder', 'MeshHalfEdgeBuilder', 'HalfEdgeSemiBuilder', 'HalfEdge'
    n = lambda x: L('N', x)
    p = lambda x: L('P', x)
    t = lambda x: L('T', x)
    f = lambda x: L('F', x)
    vp, a1, a2, fp, cu = X('vp'), X('ep1'), X('ep2'), X('fp'), X('curved')
    av = [SELF, i, o, vp, a1, a2]
    R = []

    def add(label, tr, name, args, hyps=(), **kw):
        R.append((label, tr, name, args, list(hyps), kw))
    add('corner', HB, 'add_vertex_via_edge', av, [(n(i), o)] + FREE)
    add('dangling end', HB, 'add_vertex_via_edge', [SELF, i, t(i), vp, a1, a2], [(n(i), t(i)), (f(i), MAX), (f(t(i)), MAX)])
    add('isolated edge', HB, 'add_vertex_via_edge', [SELF, i, t(i), vp, a1, a2],
        [(n(i), t(i)), (p(i), t(i)), (f(i), MAX), (f(t(i)), MAX)])
    for nm, tr in (('insert_edge', HB), ('insert_edge_no_check', SB)):
        ar = [SELF, i, a1, o, a2]
        add('general', tr, nm, ar, FREE)
        add('in dangles', tr, nm, ar, FREE + [(n(i), t(i))])
        add('out dangles', tr, nm, ar, FREE + [(n(o), t(o))])
        add('both dangle', tr, nm, ar, FREE + [(n(i), t(i)), (n(o), t(o))])
        add('out follows in after one edge', tr, nm, ar, FREE + [(n(n(i)), o)])
    add('general', HB, 'insert_edge_between', [SELF, v, a1, w, a2], eqs=wedge)
    add('general', HB, 'add_vertex_via_vertex', [SELF, v, vp, a1, a2], eqs=one_edge)
    add('general', HB, 'add_isolated_edge', [SELF, X('a'), a1, X('b'), a2])
    add('default payloads', B, 'add_isolated_edge_default', [SELF, X('a'), X('b')])
    add('general', B, 'close_hole', [SELF, e, fp, cu], [(f(e), MAX)])
    add('default payloads', B, 'close_hole_default', [SELF, e], [(f(e), MAX)])
    add('general', HB, 'close_face', [SELF, i, a1, o, a2, fp, cu], FREE)
    add('in dangles', HB, 'close_face', [SELF, i, a1, o, a2, fp, cu], FREE + [(n(i), t(i))])
    add('out dangles', HB, 'close_face', [SELF, i, a1, o, a2, fp, cu], FREE + [(n(o), t(o))])
    add('default payloads', HB, 'close_face_default', [SELF, i, o, cu], FREE)
    cfv = [SELF, V('prev'), a1, V('from'), a2, V('to'), fp, cu]
    add('general', HB, 'close_face_vertices', cfv, eqs=inside_open)
    add('default payloads', B, 'close_face_vertices_default', [SELF, V('prev'), V('from'), V('to'), cu], eqs=inside_open)
    add('default payloads', B, 'add_vertex_via_vertex_default', [SELF, v, vp], eqs=one_edge)
    add('default payloads', B, 'add_vertex_via_edge_default', [SELF, i, o, vp], [(n(i), o)] + FREE)
    add('general', B, 'remove_face', [SELF, F('f')])
    for lab, h in (('general', []), ('origin dangles', [(p(e), t(e))]), ('target dangles', [(n(e), t(e))]),
                   ('isolated', [(p(e), t(e)), (n(e), t(e))])):
        add(lab, B, 'insert_vertices_into_edge', [SELF, e, X('ps')], h)
        add(lab, HE, 'flip', [e, SELF], h)
    add('two-sided face', HE, 'flip', [e, SELF], [(n(n(e)), e)])
    add('general', B, 'add_vertex', [SELF, vp])
    add('general', B, 'insert_path', [SELF, X('ps')])
    add('general', B, 'insert_loop', [SELF, X('ps')])
    add('half subdivided', SB, 'subdivide_unsafe', [SELF, e, vp, a1], twin=False)
    add('fixup', SB, 'subdivide_unsafe_try_fixup', [SELF, e, a1], dk=dict(
        asym=True, raw=[(t(n(t(e))), e), (t(t(e)), e), (L('O', n(e)), L('O', t(e)))]))
    return R


def analyse(P, rep, tier, cfg, rel, groups):
    loop = 3 if tier == 'thorough' else 2
    for label, tr, name, args, hyps, kw in entries(tier):
        fid = P.method(tr, name)
        if fid is None:
            raise report.Fatal('%s::%s' % (tr, name))
        twin = kw.get('twin', True)
        inst = '%s [%s]' % (name, label)
        try:
            r = MeshRun(P, fid, args, hyps, loop=loop, **kw.get('dk', {}))
            outs = r.run()
        except Exception as ex:
            rep.ob('analysis', inst, None, '%s: %s' % (type(ex).__name__, ex))
            continue
        rep.paths += len(outs)
        rep.analysed(*r.ai.visited)
        feasible = 0
        for s, ret in outs:
            eq = kw.get('eqs')
            f = Final(r, s, place(mk('M', SELF)), eq(r, s) if eq else ())
            if f.infeasible:
                continue
            feasible += 1
            gens = []
            if 'links' in groups: gens.append(('links', f.ob_links(twin)))
            if 'origin' in groups:
                if twin: gens.append(('origin', f.ob_origin()))
                gens.append(('vertex', f.ob_vertex()))
            if 'face' in groups: gens.append(('face', f.ob_face()))
            for g, gen in gens:
                for nm, good, det, site in gen:
                    if not good and f.tainted:
                        good = None
                    rep.ob(g, '%s: %s' % (inst, det) if not good else '%s %s' % (inst, nm), good, det, site or (fid, None))


        rep.ob('reachable', inst, feasible > 0 or None, 'no feasible path returns')
        rep.feasible = getattr(rep, 'feasible', 0) + feasible


PRIMS = {'.next', '.prev', '.twin', '.origin_id', '.face'}


def writers(P, rep, fields, owner, allowed_roots):
    """who-may-write: functions that store to a link field directly or build an element"""
    pass


def t01(P, rep, tier, cfg, rel):
    analyse(P, rep, tier, cfg, rel, {'links'})
    rep.floor('links', 400)


def t02(P, rep, tier, cfg, rel):
    analyse(P, rep, tier, cfg, rel, {'origin'})
    rep.floor('origin', 200)


def t03(P, rep, tier, cfg, rel):
    analyse(P, rep, tier, cfg, rel, {'face'})
    rep.floor('face', 150)


SEEDS=[
dict(id='q01-one-edge', property='Q01', file='src/halfedge/vertex/basics.rs', subs=[('e.prev_id() == e.twin_id()','e.next_id() == e.twin_id()')],
 needs='the edge remembered by the vertex has a dangling end at its other vertex, or the vertex itself is a dangling end', breaks='the vertex at the wrong end counts as having a single edge',
demo='''
    let mut m = M::new();
    // a path a-b-c
    let mut f = m.insert_path((0..3).map(|i| vp(i as f64, 0.0, 0.0)));
    let _ = f;
    for v in m.vertices() {
        assert_eq!(v.has_only_one_edge(&m), v.edges_out(&m).count() == 1, "{:?}", v.id());
    }'''),
dict(id='q01-shared-face-hole', property='Q01', file='src/halfedge/mesh/basics.rs', subs=[('''        w0.faces(self).find_map(|f0| {
            w1.faces(self).find_map(|f1: T::Face| {
                if f0.id() == f1.id() {
                    Some(f0.id())
                } else {
                    None
                }
            })
        })''','''        w0.edges_out(self)
            .find(|e| e.same_face(self, w1.id()))
            .and_then(|e| e.face(self).map(|f| f.id()))''')], needs='two boundary vertices whose common hole comes before their common face in the wheel', breaks='no shared face is found although there is one',
demo='''
    for n in 3..6 {
        let m = M::regular_polygon(1.0, n);
        for v in m.vertex_ids() {
            for w in m.vertex_ids() {
                if v != w {
                    assert_eq!(m.shared_face(v, w), m.face_ids().next());
                }
            }
        }
    }'''),
dict(id='i01-hint-from-start', property='I01', file='src/halfedge/edge/iterator.rs', subs=[('''let mut curr = self.current.clone();
''','''let mut curr = self.mesh.edge(self.first).clone();
''')], needs='asking a partly consumed walk for its length', breaks='the announced length does not shrink while walking',
demo='''
    let m = M::regular_polygon(1.0, 5);
    let e = m.edges().next().unwrap();
    let mut it = e.edges_face(&m);
    it.next();
    it.next();
    it.next();
    assert_eq!(it.len(), 2);'''),
dict(id='i01-empty-wheel', property='I01', file='src/halfedge/vertex/basics.rs', subs=[('''        self.edges_out(mesh).filter_map(|e| e.face(mesh).cloned())''','''        self.edges_out(mesh)
            .skip_while(|e| e.is_boundary_self())
            .map_while(|e| e.face(mesh).cloned())''')], needs='a vertex whose boundary edge is neither the first nor the last of its wheel', breaks='the walk over the faces of a vertex stops at the hole',
demo='''
    let mut m = M::cube(1.0);
    let f = m.face_ids().next().unwrap();
    m.remove_face(f);
    let es: Vec<_> = m.edges().map(|e| (e.id(), e.origin_id())).collect();
    for (e, v) in es {
        m.vertex_mut(v).set_edge(e);
        let v = m.vertex(v);
        let want = v.edges_out(&m).filter(|e| !e.is_boundary_self()).count();
        assert_eq!(v.faces(&m).count(), want);
    }'''),
dict(id='q02-open-pairs', property='Q02', file='src/halfedge/mesh/basics.rs', subs=[('self.halfedges.iter().any(|e| e.is_boundary_self())','''self
            .halfedges
            .iter()
            .any(|e| e.is_boundary_self() && !self.edge(e.twin_id()).is_boundary_self())''')], needs='a mesh whose only edges without a face have a twin without a face, too (a wire)', breaks='a mesh made of bare edges is reported closed',
demo='''
    let mut m = M::new();
    m.insert_path((0..3).map(|i| vp(i as f64, 0.0, 0.0)));
    assert!(m.edges().any(|e| e.is_boundary_self()));
    assert!(m.is_open());'''),
dict(id='t07-flip-by-face', property='T07', file='src/mesh/mesh/halfedge.rs', subs=[('''        let ids: Vec<T::E> = self.twin_edges().map(|(e, _)| e.id()).collect();''','''        let ids: Vec<T::E> = self
            .edges()
            .filter(|e| e.face_id() <= e.twin(self).face_id())
            .map(|e| e.id())
            .collect();''')], needs='an edge with the same face, or none, on both sides', breaks='such edges are flipped twice, i.e. not at all',
demo='''
    let mut m = M::regular_polygon(1.0, 4);
    m.add_vertex_via_vertex(0, vp(9.0, 9.0, 0.0), Default::default(), Default::default());
    let before: Vec<_> = m.twin_edges().map(|(a, b)| (a.id(), b.id(), a.origin_id(), b.origin_id())).collect();
    m.flip();
    for (a, b, x, y) in before {
        assert_eq!((m.edge(a).origin_id(), m.edge(b).origin_id()), (y, x));
    }'''),
]

SEEDS=[
dict(id='k01-partial-face', property='K01', file='src/halfedge/mesh/check.rs', subs=[('''            (f1.is_none() ^ f2.is_none())
                || (f1.is_some() && f2.is_some() && f1.unwrap().id() != f2.unwrap().id())''','''            f1.zip(f2).is_some_and(|(f1, f2)| f1.id() != f2.id())''')],
 needs='a face whose boundary cycle carries the face on some edges and no face on others', breaks='the check accepts a boundary cycle that is only partially marked with its face',
demo='''
    let mut m = M::cube(1.0);
    let f = m.face_ids().next().unwrap();
    let last = m.face(f).edges(&m).last().unwrap().id();
    assert!(m.check().is_ok());
    m.edge_mut(last).delete_face();
    assert!(m.check().is_err());'''),
dict(id='k01-vertex-by-edge', property='K01', file='src/halfedge/mesh/check.rs', subs=[('''        if let Some(bad_vertex) = self.vertices().find(|v| {
            if let Some(e) = v.edge(self) {''','''        // every vertex is the origin of its edges
        if let Some(bad_vertex) = self.edges().map(|e| e.origin(self)).find(|v| {
            if let Some(e) = v.edge(self) {''')], needs='a vertex at which no edge starts but which remembers an edge', breaks='the check accepts a vertex that remembers an edge of another vertex',
demo='''
    let mut m = M::cube(1.0);
    let e = m.edges().next().unwrap().id();
    let v = m.add_vertex(vp(5.0, 0.0, 0.0));
    assert!(m.check().is_ok());
    m.vertex_mut(v).set_edge(e);
    assert!(m.check().is_err());'''),
dict(id='k01-two-gon', property='K01', file='src/halfedge/mesh/check.rs', subs=[('self.faces().find(|f| f.edges(self).count() < 3)','''self
            .faces()
            .find(|f| f.edges(self).all(|e| e.next_id() == e.prev_id() && e.next_id() == e.twin_id()))''')],
 needs='a face with two edges that are not twins of each other', breaks='the check accepts faces with two sides',
demo='''
    let mut m = M::cube(1.0);
    let f = m.face_ids().next().unwrap();
    m.remove_face(f);
    let e0 = m.edges().find(|e| e.is_boundary_self()).unwrap().id();
    let e3 = m.edge(e0).prev_id();
    HalfEdgeSemiBuilder::insert_edge_no_check(&mut m, e0, Default::default(), e3, Default::default());
    assert_eq!(m.edge(e0).edges_face(&m).count(), 2);
    m.close_hole_default(e0);
    assert!(m.check().is_err());    '''),
]

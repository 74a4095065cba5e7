BF = 'src/halfedge/mesh/builder/halfedge.rs'
M2 = 'src/extensions/nalgebra/mesh2d.rs'
BA = 'src/mesh/mesh/basics.rs'
C2 = '''
    type C = Mesh2d64Curved;
    let mut m = C::new();
    let v = |x: f64, y: f64| VertexPayloadPNU::<f64, 2>::from_pos(Vec2::<f64>::new(x, y));
    let q = |x: f64, y: f64| { let mut p = CurvedEdgePayload::<2, MeshType2d64PNUCurved>::default();
        p.set_curve_type(CurvedEdgeType::QuadraticBezier(Vec2::<f64>::new(x, y))); p };
'''
SEEDS = [
dict(id='t05-face-gap', property='T05', file=BF, subs=[("                face_map[&edge.face_id()],", """                if edge.is_boundary_self() {
                    IndexType::max()
                } else {
                    IndexType::new(edge.face_id().index())
                },""")],
 needs='converting a mesh of which an earlier face was removed', breaks='edges refer to the face ids of the given mesh instead of those of the converted one',
 demo=C2+'''
    m.insert_polygon([v(0.0, 0.0), v(1.0, 0.0), v(0.0, 1.0)]);
    m.insert_polygon([v(5.0, 0.0), v(6.0, 0.0), v(5.0, 1.0)]);
    let f = m.faces().next().unwrap().id();
    m.remove_face(f);
    let d = m.to_nd::<3>(1.0);
    assert_eq!(d.num_faces(), 1);
    let ids: Vec<_> = d.faces().map(|f| f.id()).collect();
    for e in d.edges() { if !e.is_boundary_self() { assert!(ids.contains(&e.face_id())); } }'''),
dict(id='t05-tolerance', property='T05', file=M2, subs=[("self.clone().flatten_curved_edges(tol),", "self.clone().flatten_curved_edges(tol.max(1e-2)),")],
 needs='raising the dimension of a curved mesh with a small tolerance', breaks='curves are approximated more coarsely than asked for',
 demo=C2+'''
    let a = m.add_vertex(v(0.0, 0.0));
    let b = m.add_vertex(v(4.0, 0.0));
    m.insert_edge_between(a, q(2.0, 4.0), b, Default::default());
    let n = m.clone().flatten_curved_edges(1e-4).num_vertices();
    assert_eq!(m.to_nd::<3>(1e-4).num_vertices(), n);'''),
dict(id='c01-face-count', property='C01', file=BA, subs=[("""        if self.num_faces() != other.num_faces() {
            return MeshEquivalenceDifference::DifferentNumberOfFaces;
        }

        let mut edge_iso""", """        if self.num_faces() > other.num_faces() {
            return MeshEquivalenceDifference::DifferentNumberOfFaces;
        }

        let mut edge_iso""")],
 needs='comparing a mesh with a hole with the same mesh without it, in this order', breaks='the two are reported as equivalent',
 demo='''
    let a = M::cube(1.0);
    let mut b = a.clone();
    let f = b.faces().next().unwrap().id();
    b.remove_face(f);
    assert!(a.is_isomorphic_pos::<3, f64, Vec3<f64>>(&b, 1e-6).ne());
    assert!(b.is_isomorphic_pos::<3, f64, Vec3<f64>>(&a, 1e-6).ne());'''),
dict(id='c01-ambiguous', property='C01', file=BA, subs=[("            if used.contains(&best_match.id()) {", "            if used.contains(&best_match.id()) && used.len() == self.num_vertices() {")],
 needs='two vertices whose best counterpart is the same vertex', breaks='a correspondence is returned that pairs both with the same vertex',
 demo='''
    let mut a = M::new();
    a.insert_polygon([vp(0.0, 0.0, 0.0), vp(0.0, 0.0, 0.0), vp(0.0, 1.0, 0.0)]);
    let mut b = M::new();
    b.insert_polygon([vp(0.0, 0.0, 0.0), vp(1.0, 0.0, 0.0), vp(0.0, 1.0, 0.0)]);
    let r = a.find_payload_isomorphism::<MeshType3d64PNU, _>(&b, |x: &Mesh3d64Vertex, y: &Mesh3d64Vertex| x.pos().is_about(&y.pos(), 1e-6));
    assert!(r.is_err());'''),
dict(id='c01-linear-any', property='C01', file=BA, subs=[("|a, b| a.curve_type().is_about(&b.curve_type(), eps),", "|a, b| a.curve_type() == CurvedEdgeType::Linear || a.curve_type().is_about(&b.curve_type(), eps),")],
 needs='an edge that is straight in the first mesh and curved in the second', breaks='the meshes are reported as equivalent',
 demo=C2+'''
    let a = m.add_vertex(v(0.0, 0.0));
    let b = m.add_vertex(v(4.0, 0.0));
    let mut n = m.clone();
    m.insert_edge_between(a, Default::default(), b, Default::default());
    n.insert_edge_between(a, q(2.0, 4.0), b, Default::default());
    assert!(n.is_trivially_isomorphic_pos_curved(&m, 1e-6).ne());
    assert!(m.is_trivially_isomorphic_pos_curved(&n, 1e-6).ne());'''),
]

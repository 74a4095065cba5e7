BF = 'src/halfedge/mesh/builder/halfedge.rs'
BU = 'src/halfedge/mesh/builder/builder.rs'
C2 = '''
    type C = Mesh2d64Curved;
    let mut m = C::new();
    let v = |x: f64, y: f64| VertexPayloadPNU::<f64, 2>::from_pos(Vec2::<f64>::new(x, y));
    let q = |x: f64, y: f64| { let mut p = CurvedEdgePayload::<2, MeshType2d64PNUCurved>::default();
        p.set_curve_type(CurvedEdgeType::QuadraticBezier(Vec2::<f64>::new(x, y))); p };
'''
SEEDS = [
dict(id='t06-between-payloads', property='T06', file=BF, subs=[("""            (next0, prev0, origin0, IndexType::max(), ep0),
            (next1, prev1, origin1, IndexType::max(), ep1),""", """            (next0, prev0, origin0, IndexType::max(), ep1),
            (next1, prev1, origin1, IndexType::max(), ep0),""")],
 needs='two vertices connected with different payloads for the two directions', breaks='each direction gets the payload meant for the other',
 demo=C2+'''
    let a = m.add_vertex(v(0.0, 0.0));
    let b = m.add_vertex(v(4.0, 0.0));
    let (e, _) = m.insert_edge_between(a, q(1.0, 7.0), b, Default::default());
    assert!(!m.edge(e).payload().is_empty());
    assert!(m.edge(m.edge(e).twin_id()).payload().is_empty());'''),
dict(id='t06-close-vertices', property='T06', file=BF, subs=[("return self.close_face(inside, ep1, outside, ep2, fp, curved);", "return self.close_face(inside, ep2, outside, ep1, fp, curved);")],
 needs='a face closed by naming vertices, with different payloads for the two directions', breaks='the inside edge of the new face gets the payload meant for the outside',
 demo=C2+'''
    let a = m.add_vertex(v(0.0, 0.0));
    let b = m.add_vertex(v(4.0, 0.0));
    let c = m.add_vertex(v(0.0, 4.0));
    m.insert_edge_between(a, Default::default(), b, Default::default());
    m.insert_edge_between(b, Default::default(), c, Default::default());
    let (_, inside, outside) = m.close_face_vertices(b, q(1.0, 7.0), c, Default::default(), a, Default::default(), false);
    assert!(!m.edge(inside).payload().is_empty());
    assert!(m.edge(outside).payload().is_empty());'''),
dict(id='t06-hole-curved', property='T06', file=BU, subs=[("let f = self.faces.push(HalfEdgeFaceImpl::new(e, curved, fp));", "let f = self.faces.push(HalfEdgeFaceImpl::new(e, curved && self.edge(e).is_boundary(self) && !self.edge(e).twin(self).is_boundary_self(), fp));")],
 needs='a curved face closed inside a wire loop, with no face on the other side yet', breaks='the face loses its curved mark',
 demo='''
    let mut m = M::new();
    let e = m.insert_loop(ngon(5));
    let f = m.close_hole(e, Default::default(), true);
    assert!(m.face(f).may_be_curved());'''),
]

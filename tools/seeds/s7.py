CURVED='''
    type C = Mesh2d64Curved;
    let mut m = C::new();
    let v = |x: f64, y: f64| VertexPayloadPNU::<f64, 2>::from_pos(Vec2::<f64>::new(x, y));
    let e = m.insert_polygon([v(0.0, 0.0), v(1.0, 0.0), v(0.0, 1.0)]);
    let ids: Vec<usize> = m.edges().map(|e| e.id()).collect();
'''
SEEDS=[
dict(id='v01-short-chord', property='V01', file='src/mesh/edge/curved.rs', subs=[('''            if deviation <= error {''','''            // chords shorter than the tolerance cannot be seen anyway
            if deviation <= error || p0.distance(&p1) <= error {''')],
 needs='a curved edge whose end points are closer than the tolerance', breaks='a bulge between near end points is cut off by flattening',
demo=CURVED+'''
    let id = ids[0];
    let (a, b) = (m.edge(id).origin(&m).pos(), m.edge(id).target(&m).pos());
    let mid = (a + b) * 0.5;
    m.edge_mut(id).set_curve_type(CurvedEdgeType::QuadraticBezier(mid + Vec2::<f64>::new(3.0, 40.0)));
    let pts = m.edge(id).flatten_casteljau(2.0, &m);
    assert!(pts.len() > 0, "no points for a bulge of 20");'''),
dict(id='v01-about-swapped', property='V01', file='src/mesh/edge/curved.rs', subs=[('''                c1.is_about(c3, epsilon) && c2.is_about(c4, epsilon)''','''                // the same curve may be described from either end
                (c1.is_about(c3, epsilon) && c2.is_about(c4, epsilon))
                    || (c1.is_about(c4, epsilon) && c2.is_about(c3, epsilon))''')],
 needs='two cubic edges with exchanged control points', breaks='different cubic curves between the same end points are reported as equal',
demo='''
    let a = Vec2::<f64>::new(1.0, 0.0);
    let b = Vec2::<f64>::new(0.0, 5.0);
    let c: CurvedEdgeType<2, MeshType2d64PNUCurved> = CurvedEdgeType::CubicBezier(a, b);
    let d: CurvedEdgeType<2, MeshType2d64PNUCurved> = CurvedEdgeType::CubicBezier(b, a);
    assert!(c.is_about(&c, 1e-9) && !c.is_about(&d, 1e-9));'''),
dict(id='v01-boundary-curve', property='V01', file='src/mesh/mesh/basics.rs', subs=[('''        for e in self.edge_ids().collect::<Vec<_>>().iter() {
            let edge = self.edge(*e);
            if edge.curve_type()''','''        // the curve of an edge is described on the side of its face
        for e in self.edge_ids().collect::<Vec<_>>().iter() {
            let edge = self.edge(*e);
            if edge.is_boundary(self) {
                continue;
            }
            if edge.curve_type()''')],
 needs='a curve stored on a boundary edge', breaks='the mesh keeps curved edges after flattening and their points are missing',
demo=CURVED+'''
    let id = ids.iter().copied().find(|i| m.edge(*i).is_boundary(&m) && m.edge(*i).curve_type() == CurvedEdgeType::Linear).unwrap();
    m.edge_mut(id).set_curve_type(CurvedEdgeType::QuadraticBezier(Vec2::<f64>::new(3.0, 40.0)));
    m.flatten_curved_edges(0.1);
    assert!(m.num_vertices() > 3);
    assert!(!m.has_curved_edges());'''),
]

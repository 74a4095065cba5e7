CURVED='''
    type C = Mesh2d64Curved;
    let mut m = C::new();
    let v = |x: f64, y: f64| VertexPayloadPNU::<f64, 2>::from_pos(Vec2::<f64>::new(x, y));
    let e = m.insert_polygon([v(0.0, 0.0), v(1.0, 0.0), v(0.0, 1.0)]);
    let ids: Vec<usize> = m.edges().map(|e| e.id()).collect();
'''
SEEDS=[
dict(id='m01-lerp-uv', property='M01', file='src/extensions/nalgebra/default_vertex_payload.rs', subs=[('self.uv = self.uv.lerp(&_other.uv, t);','self.uv += (_other.uv - self.uv) * (S::ONE - t);')],
 needs='payloads with different texture coordinates, interpolated away from the middle', breaks='texture coordinates are interpolated backwards',
demo='''
    let mut a = vp(0.0, 0.0, 0.0);
    let mut b = vp(1.0, 0.0, 0.0);
    b.set_uv(Vec2::<f64>::new(1.0, 1.0));
    a.lerp(&b, 0.25);
    assert!((a.uv().x() - 0.25).abs() < 1e-9);'''),
dict(id='m01-scale-uniform', property='M01', file='src/extensions/nalgebra/math/vec_n.rs', subs=[('''        for i in 0..D {
            self[i] *= s[i];
        }''','''        for i in 1..D {
            self[i] *= s[i];
        }
        self[0] *= s[D - 1];''')],
 needs='a scale whose first and last component differ', breaks='scaling a point uses the last factor for the first component',
demo='''
    let mut a = Vec3::<f64>::new(1.0, 1.0, 1.0);
    Transformable::scale(&mut a, &Vec3::<f64>::new(2.0, 3.0, 4.0));
    assert!(a.is_about(&Vec3::<f64>::new(2.0, 3.0, 4.0), 1e-9));'''),
dict(id='m01-chain-fast', property='M01', file='src/extensions/nalgebra/math/transform_n.rs', subs=[('''        // PERF: This can be optimized
        Self::from_matrix(other.as_matrix() * self.as_matrix())''','''        Self {
            matrix: self.matrix * other.matrix,
            translation: other.matrix * self.translation + other.translation,
        }''')],
 needs='two transforms whose matrices do not commute', breaks='chained transforms multiply their matrices in the wrong order',
demo='''
    type A = NdAffine<f64, 2>;
    let v = |x: f64, y: f64| Vec2::<f64>::new(x, y);
    let a = A::from_rotation(NdRotate::from_angle(1.0)).with_translation(v(1.0, 2.0));
    let b = A::from_scale(v(2.0, 3.0)).with_translation(v(5.0, 7.0));
    let p = v(1.0, 1.0);
    assert!((a.chain(&b).apply(p) - b.apply(a.apply(p))).norm() < 1e-9);'''),
dict(id='m02-rotate-boundary', property='M02', file='src/mesh/mesh/transform.rs', subs=[('''        for e in self.edges_mut() {
            e.payload_mut().rotate(rotation);
        }''','''        let edges: Vec<T::E> = self
            .edges()
            .filter(|e| !e.is_boundary(self))
            .map(|e| e.id())
            .collect();
        for e in edges {
            self.edge_mut(e).payload_mut().rotate(rotation);
        }''')],
 needs='a curved edge on the boundary of the mesh', breaks='rotating a mesh leaves the control points of its boundary edges behind',
demo=CURVED+'''
    for &i in &ids {
        m.edge_mut(i).set_curve_type(CurvedEdgeType::QuadraticBezier(Vec2::<f64>::new(1.0, 0.0)));
    }
    m.rotate(&NdRotate::from_angle(std::f64::consts::PI / 2.0));
    for &i in &ids {
        match m.edge(i).curve_type() { CurvedEdgeType::QuadraticBezier(c) => assert!(c.is_about(&Vec2::<f64>::new(0.0, 1.0), 1e-9), "{:?}", c), _ => panic!() }
    }'''),
dict(id='m02-coincident-controls', property='M02', file='src/mesh/edge/payload.rs', subs=[('''                control_point1.transform(t);
                control_point2.transform(t);''','''                if control_point1 != control_point2 {
                    control_point2.transform(t);
                }
                control_point1.transform(t);''')],
 needs='a cubic edge whose control points coincide', breaks='the second control point of such an edge stays behind when the mesh is moved',
demo=CURVED+'''
    let c = Vec2::<f64>::new(1.0, 0.0);
    m.edge_mut(ids[0]).set_curve_type(CurvedEdgeType::CubicBezier(c, c));
    m.translate(&Vec2::<f64>::new(0.0, 1.0));
    let w = Vec2::<f64>::new(1.0, 1.0);
    match m.edge(ids[0]).curve_type() { CurvedEdgeType::CubicBezier(a, b) => assert!(a.is_about(&w, 1e-9) && b.is_about(&w, 1e-9), "{:?} {:?}", a, b), _ => panic!() }'''),
]

LO = 'src/operations/loft.rs'
EX = 'src/operations/extrude.rs'
IP = 'src/mesh/vertex/interpolator.rs'
PR = 'src/primitives/prismatoid.rs'
SP = 'src/primitives/sphere.rs'
TR = 'type Tr = <MeshTypeNd64PNU<3> as EuclideanMeshType<3>>::Trans;\n'
SEEDS = [
dict(id='o01-shifted-hem', property='O01', file=LO, subs=[("""            // the last one also shouldn't connect to the next
            if pos.is_some() || shift {
                self.close_face_default(input_next, input, false);""", """            // the last one also shouldn't connect to the next
            if pos.is_some() {
                self.close_face_default(input_next, input, false);""")],
 needs='a hem of triangles lofted backwards with shift', breaks='the last triangle of the hem is missing',
 demo='''
    let mut m = M::new();
    let e = m.insert_polygon(ngon(6));
    let before = m.num_faces();
    m.loft_tri_back(e, true, ngon(3));
    // tip triangle, base triangle, tip triangle, base triangle
    assert_eq!(m.num_faces() - before, 4);'''),
dict(id='o01-twisted-windows', property='O01', file=EX, subs=[("vps.rotate_right(1);", "let turn = vps.len() / 4;\n        vps.rotate_right(turn);")],
 needs='the antiprism extrusion of a boundary with less than four or more than seven vertices', breaks='the midpoints are attached to the wrong edges, twisting the side faces',
 demo=TR+'''
    let mut m = M::new();
    let e = m.insert_polygon(ngon(3));
    m.extrude_tri2(e, Tr::from_translation(Vec3::<f64>::new(0.0, 0.0, 1.0)));
    // every side triangle of a triangular antiprism has two slanted edges of the same length
    let mut lens: Vec<f64> = vec![];
    for e in m.edges() {
        let (a, b) = (e.origin(&m).pos(), e.target(&m).pos());
        if (a.z - b.z).abs() > 0.5 { lens.push((a - b).norm()); }
    }
    assert_eq!(lens.len(), 12);
    assert!(lens.iter().all(|l| (l - lens[0]).abs() < 1e-9), "{:?}", lens);'''),
dict(id='o01-plain-mean', property='O01', file=IP, subs=[("""                / T::S::from_usize(i + j + k),""", """                / T::S::from_usize(i.min(1) + j.min(1) + k.min(1)),""")],
 needs='interpolation weights other than zero and one', breaks='the interpolated vertex is no weighted mean of the corners any more',
 demo='''
    let mut m = M::new();
    m.insert_polygon([vp(0.0, 0.0, 0.0), vp(4.0, 0.0, 0.0), vp(0.0, 4.0, 0.0)]);
    let v: Vec<_> = m.vertices().map(|v| v.id()).collect();
    let ip = LinearVertexInterpolator::<3> {};
    let p = VertexInterpolator::<3, MeshTypeNd64PNU<3>>::call(&ip, &m, [(2, v[0]), (1, v[1]), (1, v[2])]);
    assert!((*p.pos() - Vec3::<f64>::new(1.0, 1.0, 0.0)).norm() < 1e-9);'''),
dict(id='o01-slerp-center', property='O01', file=IP, subs=[("let pk = (mesh.vertex(vk).pos() - self.center).normalize();", "let pk = mesh.vertex(vk).pos().normalize();")],
 needs='spherical subdivision around a centre other than the origin', breaks='edges ending in the third corner are bent towards the wrong centre',
 demo='''
    let mut m = M::new();
    m.insert_polygon([vp(11.0, 0.0, 0.0), vp(10.0, 1.0, 0.0), vp(10.0, 0.0, 1.0)]);
    let v: Vec<_> = m.vertices().map(|v| v.id()).collect();
    let ip = SlerpVertexInterpolator::<3, MeshTypeNd64PNU<3>>::new(Vec3::<f64>::new(10.0, 0.0, 0.0), 1.0);
    let p = ip.call(&m, [(0, v[0]), (1, v[1]), (1, v[2])]);
    let h = 0.5f64.sqrt();
    assert!((*p.pos() - Vec3::<f64>::new(10.0, h, h)).norm() < 1e-9);'''),
dict(id='o02-uv-twist', property='O02', file=SP, subs=[("""            prev = mesh.loft_polygon_back(prev, 2, 2, (0..m).map(|j| make_vp(i + 1, j)));""",
"""            let start = if i % 2 == 0 { mesh.edge(prev).next_id() } else { prev };
            prev = mesh.loft_polygon_back(start, 2, 2, (0..m).map(|j| make_vp(i + 1, j)));""")],
 needs='a uv sphere with at least four rings', breaks='the quads of every second ring are sheared by one column',
 demo='''
    let m = M::uv_sphere(1.0, 4, 7);
    for e in m.edges() {
        let (a, b) = (e.origin(&m).pos(), e.target(&m).pos());
        let pole = |p: &Vec3<f64>| p.x.abs() < 1e-9 && p.z.abs() < 1e-9;
        // every edge follows a circle of latitude or a meridian
        if !pole(&a) && !pole(&b) && (a.y - b.y).abs() > 1e-6 {
            assert!((a.z.atan2(a.x) - b.z.atan2(b.x)).abs() < 1e-6);
        }
    }'''),
dict(id='o02-box-depth', property='O02', file=PR, subs=[("""                vp(p.x(), -p.y(), p.z()),
                vp(p.x(), p.y(), p.z()),
                vp(-p.x(), p.y(), p.z()),""", """                vp(p.x(), -p.y(), p.z()),
                vp(p.x(), p.y(), p.y()),
                vp(-p.x(), p.y(), p.y()),""")],
 needs='a box whose height and depth differ', breaks='the top of the box is slanted',
 demo='''
    let m = M::cuboid(Vec3::<f64>::new(1.0, 2.0, 3.0));
    for v in m.vertices() {
        let p = v.pos();
        assert!((p.x.abs() - 0.5).abs() < 1e-9 && (p.y.abs() - 1.0).abs() < 1e-9 && (p.z.abs() - 1.5).abs() < 1e-9);
    }'''),
dict(id='o02-half-turn', property='O02', file=PR, subs=[("let v = S::PI * (S::from_usize(2 * i) + shift) / S::from_usize(n);", "let v = S::PI * (S::from_usize(2 * i) / S::from_usize(n) + shift / S::FOUR);")],
 needs='a regular antiprism whose base is not a square', breaks='the top is not turned by half a side any more',
 demo='''
    let m = M::regular_antiprism(1.0, 2.0, 5);
    let mut lens: Vec<f64> = vec![];
    for e in m.edges() {
        let (a, b) = (e.origin(&m).pos(), e.target(&m).pos());
        if (a.y - b.y).abs() > 1.0 { lens.push((a - b).norm()); }
    }
    assert_eq!(lens.len(), 20);
    assert!(lens.iter().all(|l| (l - lens[0]).abs() < 1e-9), "{:?}", lens);'''),
dict(id='o02-tetra-base', property='O02', file=PR, subs=[("let sq = e / T::S::TWO.sqrt();", "let sq = T::S::HALF / T::S::TWO.sqrt();")],
 needs='a regular tetrahedron with an edge length other than one', breaks='the tetrahedron is not regular any more',
 demo='''
    let m = M::regular_tetrahedron(3.0);
    for e in m.edges() {
        assert!((e.origin(&m).pos() - e.target(&m).pos()).norm() - 3.0 < 1e-9);
        assert!((e.origin(&m).pos() - e.target(&m).pos()).norm() - 3.0 > -1e-9);
    }'''),
]

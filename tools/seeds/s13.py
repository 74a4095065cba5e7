TR = 'src/mesh/triangulation.rs'
STARS = '''
    type V2 = Vec2<f64>;
    fn stars(n: usize, count: usize) -> Vec<Vec<V2>> {
        let mut s: u64 = 12345;
        let mut next = move || { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); ((s >> 33) as f64) / ((1u64 << 31) as f64) };
        (0..count).map(|_| (0..n).map(|i| {
            let a = (i as f64 + 0.8 * next()) / n as f64 * std::f64::consts::TAU;
            let r = 0.15 + next();
            V2::new(a.cos() * r, a.sin() * r)
        }).collect()).collect()
    }
    fn indexed(p: &[V2]) -> Vec<IndexedVertex2D<usize, V2>> { p.iter().enumerate().map(|(i, v)| IndexedVertex2D::new(*v, i)).collect() }
    fn cross(a: V2, b: V2, c: V2) -> f64 { (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x) }
    fn covers(p: &[V2], idx: &[usize]) -> bool {
        let poly: f64 = (0..p.len()).map(|i| { let (a, b) = (p[i], p[(i + 1) % p.len()]); a.x * b.y - a.y * b.x }).sum();
        let tris: f64 = idx.chunks(3).map(|t| cross(p[t[0]], p[t[1]], p[t[2]]).abs()).sum();
        idx.len() == 3 * (p.len() - 2) && (poly - tris).abs() < 1e-9
    }
'''
SEEDS = [
dict(id='g01-closing-sides', property='G01', file=TR, subs=[("                for k in 0..3 {\n                    for l in 0..3 {", "                for k in 0..2 {\n                    for l in 0..3 {")],
 needs='two triangles that share a corner and whose only crossing is between the last side of one and the last side of the other', breaks='the check for crossing sides accepts them',
 demo='''
    use std::collections::HashMap;
    type V2 = Vec2<f64>;
    let mut idx: Vec<usize> = vec![];
    let mut tri = Triangulation::new(&mut idx);
    tri.insert_triangle(0, 1, 2);
    tri.insert_triangle(3, 1, 4);
    let p = [(2.0, 0.0), (1.0, -2.0), (0.0, 0.0), (1.0, -0.5), (3.0, 0.6)];
    let hm: HashMap<usize, V2> = p.iter().enumerate().map(|(i, &(x, y))| (i, V2::new(x, y))).collect();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| tri.verify_no_intersections(&hm)));
    assert!(r.is_err(), "the crossing sides are accepted");'''),
dict(id='g01-flip-unrelated', property='G01', file=TR, subs=[("""            || self.indices[triangle_ba + ((offset_ba + 2) % 3)] != b
        {""", """            || !(0..3).any(|i| self.indices[triangle_ba + i] == b)
        {""")],
 needs='flipping an edge whose second triangle has both ends of the edge, but runs along it in the same direction', breaks='the flip is performed instead of refused and the triangles end up degenerate',
 demo='''
    let mut idx: Vec<usize> = vec![];
    let mut tri = Triangulation::new(&mut idx);
    let a = tri.next_pos();
    tri.insert_triangle(0, 1, 2);
    let b = tri.next_pos();
    tri.insert_triangle(0, 1, 3);
    assert!(tri.flip_edge(0, 1, a, b).is_err());
    assert_eq!(tri.get_triangle(0), (0, 1, 2));
    assert_eq!(tri.get_triangle(1), (0, 1, 3));'''),
dict(id='g03-ear-ahead', property='G03', file='src/tesselate/ear_clipping.rs', subs=[("""        vs.iter()
            .enumerate()
            .all(|(i, v)| i == a""", """        vs.iter()
            .enumerate()
            .skip(a)
            .all(|(i, v)| i == a""")],
 needs='an ear candidate containing a corner that comes before it in the polygon', breaks='the ear is clipped although a corner lies inside, so triangles overlap',
 demo=STARS+'''
    for n in 5..9 { for p in stars(n, 300) {
        let vs: Vec<(V2, usize)> = p.iter().enumerate().map(|(i, v)| (*v, i)).collect();
        let mut idx: Vec<usize> = vec![];
        ear_clipping_direct(&vs, &mut Triangulation::new(&mut idx), false);
        assert!(covers(&p, &idx), "{:?} {:?}", p, idx);
    } }'''),
dict(id='g03-reflex-flip', property='G03', file='src/tesselate/sweep/monotone/delaunay.rs', subs=[("if !p1.convex(p3, p_test) || !p2.convex(p_test, p3) {", "if !p1.convex(p3, p_test) {")],
 needs='two triangles of a monotone piece that form a quadrilateral with a reflex corner at the end of their edge and fail the circle test', breaks='the edge is flipped outside of the quadrilateral and the triangles overlap',
 demo=STARS+'''
    for n in 5..10 { for p in stars(n, 300) {
        let vs = indexed(&p);
        let mut idx: Vec<usize> = vec![];
        sweep_line_triangulation::<DelaunayMonoTriangulator<usize, V2>>(&mut Triangulation::new(&mut idx), &vs, &mut TesselationMeta::default().sweep);
        assert!(covers(&p, &idx), "{:?} {:?}", p, idx);
    } }'''),
dict(id='g03-requested', property='G03', file='src/tesselate/mod.rs', subs=[("            minweight_dynamic::<T>(face, mesh, tri);", "            sweep_line::<T, DynamicMonoTriangulator<T::V, T::Vec2, T::Poly>>(face, mesh, tri, meta);")],
 needs='a face that is not monotone, triangulated with minimal weight', breaks='the pieces of the sweep are triangulated separately, so the total edge length is not minimal',
 demo=STARS+'''
    for p in stars(9, 60) {
        let m = M::polygon(p.iter().map(|v| vp(v.x, v.y, 0.0)));
        let f = m.face(0);
        let vs = f.vec2s(&m);
        let hm = vs.iter().map(|v| (v.index, v.vec)).collect();
        let (mut i1, mut i2) = (vec![], vec![]);
        let mut t1 = Triangulation::new(&mut i1);
        triangulate_face::<MeshType3d64PNU>(f, &m, &mut t1, TriangulationAlgorithm::MinWeight, &mut TesselationMeta::default());
        let mut t2 = Triangulation::new(&mut i2);
        minweight_dynamic_direct::<_, V2, Polygon2d<f64>>(&vs, &mut t2);
        assert!((t1.total_edge_weight(&hm) - t2.total_edge_weight(&hm)).abs() < 1e-9);
    }'''),
]

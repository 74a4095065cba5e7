TRI = 'src/mesh/mesh/triangulate.rs'
NO = 'src/mesh/mesh/normals.rs'
CUBE = '''
    let m = M::cube(2.0);
'''
SEEDS = [
dict(id='g02-flat-first-copy', property='G02', file=TRI, subs=[("""        let mut vertices = Vec::new();
        let mut indices = Vec::new();

        for f in self.faces() {
            let mut tri = Triangulation::new(&mut indices);
            let face_normal""", """        let mut vertices = Vec::new();
        let mut indices = Vec::new();
        let mut id_map = HashMap::new();

        for f in self.faces() {
            let mut tri = Triangulation::new(&mut indices);
            let face_normal"""), ("            let mut id_map = HashMap::new();\n            // generate", "            // generate"),
 ("id_map.insert(v.id(), IndexType::new(vertices.len()));", "id_map.entry(v.id()).or_insert(IndexType::new(vertices.len()));")],
 needs='two faces with a common corner, exported with flat normals', breaks='the corner of the second face gets the copy, and with it the normal, of the first',
 demo='''
    let m = M::regular_tetrahedron(1.0);
    let (is, vs) = m.triangulate_and_generate_flat_normals_post(TriangulationAlgorithm::Auto, &mut TesselationMeta::default());
    for t in is.chunks(3) {
        let (a, b, c) = (&vs[t[0]], &vs[t[1]], &vs[t[2]]);
        let n = (*b.pos() - *a.pos()).cross(&(*c.pos() - *a.pos())).normalize();
        for v in [a, b, c] { assert!((*v.normal() - n).norm() < 1e-9, "{:?} {:?}", v.normal(), n); }
    }'''),
dict(id='g02-flat-keep', property='G02', file=TRI, subs=[("                p.set_normal(face_normal);\n", "                if p.normal().length_squared() == 0.0.into() {\n                    p.set_normal(face_normal);\n                }\n")],
 needs='exporting a mesh with flat normals whose vertices already have normals', breaks='the old normals are exported instead of those of the faces',
 demo='''
    let mut m = M::regular_tetrahedron(1.0);
    m.generate_smooth_normals();
    let (is, vs) = m.triangulate_and_generate_flat_normals_post(TriangulationAlgorithm::Auto, &mut TesselationMeta::default());
    for t in is.chunks(3) {
        let (a, b, c) = (&vs[t[0]], &vs[t[1]], &vs[t[2]]);
        let n = (*b.pos() - *a.pos()).cross(&(*c.pos() - *a.pos())).normalize();
        for v in [a, b, c] { assert!((*v.normal() - n).norm() < 1e-9, "{:?} {:?}", v.normal(), n); }
    }'''),
dict(id='g02-smooth-weighted', property='G02', file=NO, subs=[(".map(|f| (f.id(), Face3d::normal(f, self).normalize()))", ".map(|f| (f.id(), Face3d::normal(f, self)))")],
 needs='a vertex whose faces have different sizes', breaks='larger faces pull the normal of the vertex towards theirs',
 demo='''
    let mut m = M::cuboid(Vec3::<f64>::new(1.0, 2.0, 5.0));
    m.generate_smooth_normals();
    for v in m.vertices() {
        let n = v.payload().normal();
        assert!((n.x.abs() - n.z.abs()).abs() < 1e-9 && (n.x.abs() - n.y.abs()).abs() < 1e-9, "{:?}", n);
    }'''),
]

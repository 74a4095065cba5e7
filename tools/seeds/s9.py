WIRE="""
    let mut m = M::new();
    let a = m.add_vertex(vp(0.0, 0.0, 0.0));
    let b = m.add_vertex(vp(3.0, 0.0, 0.0));
    let c = m.add_vertex(vp(3.0, 4.0, 0.0));
    m.insert_edge_between(a, Default::default(), b, Default::default());
    m.insert_edge_between(b, Default::default(), c, Default::default());
"""
SEEDS=[
dict(id='n01-wires', property='N01', file='src/mesh/mesh/netsci.rs', subs=[("""        for e in self.edges() {
            let i = e.origin(self).id().index();
            let j = e.target(self).id().index();
            adj[(i, j)] = S::ONE;""", """        // both directions are set at once, so one side of each edge is enough
        for e in self.edges().filter(|e| !e.is_boundary(self)) {
            let i = e.origin(self).id().index();
            let j = e.target(self).id().index();
            adj[(i, j)] = S::ONE;""")],
 needs='an edge with no face on either side', breaks='such edges are missing from the adjacency matrix and the Laplacian',
demo=WIRE+"""
    let adj = m.adjacency_matrix::<f64>();
    assert_eq!(adj[(0, 1)], 1.0);
    assert_eq!(adj[(2, 1)], 1.0);
    assert_eq!(adj[(0, 2)], 0.0);
    let _ = c;"""),
dict(id='n01-isolated', property='N01', file='src/mesh/mesh/netsci.rs', subs=[("""            degrees.insert(v.id(), v.degree(self));
""", """            let d = v.degree(self);
            if d > 0 {
                degrees.insert(v.id(), d);
            }
""")],
 needs='an isolated vertex', breaks='the degrees leave out isolated vertices, so positions no longer correspond to vertices',
demo=WIRE+"""
    let d = m.add_vertex(vp(9.0, 9.0, 0.0));
    let ds: Vec<_> = m.degrees().collect();
    assert_eq!(ds, vec![(a, 1), (b, 2), (c, 1), (d, 0)]);"""),
dict(id='n01-squared', property='N01', file='src/mesh/mesh/netsci.rs', subs=[("""            let d: T::S = e.origin(self).pos().distance(&e.target(self).pos());
""", """            let (p, q) = (e.origin(self).pos(), e.target(self).pos());
            let d: T::S = if e.is_boundary(self) { p.distance_squared(&q) } else { p.distance(&q) };
""")],
 needs='a weighted matrix of a mesh with boundary edges whose length is not one', breaks='boundary edges are weighted by squared distances, and which direction is written last decides',
demo=WIRE+"""
    let adj = m.adjacency_matrix_euclidean::<3>();
    assert!((adj[(0, 1)] - 3.0).abs() < 1e-9 && (adj[(1, 2)] - 4.0).abs() < 1e-9, "{}", adj);
    let _ = c;"""),
]

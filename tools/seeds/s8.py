SVG='''
    let draw = |d: &str| {
        let mut m = Mesh2d64Curved::new();
        procedural_modelling::extensions::svg::BackendSVG::<MeshType2d64PNUCurved>::import_svg(&mut m, &format!("<path d='{}'/>", d));
        m
    };
'''
SEEDS=[
dict(id='p01-degenerate-cubic', property='P01', file='src/extensions/svg/svg.rs', subs=[('''                //pb.line_to(end);
                pb.cubic_to(v(c1), v(c2), end);''','''                if c2 == p {
                    // the second control point adds nothing
                    pb.quad_to(v(c1), end);
                } else {
                    pb.cubic_to(v(c1), v(c2), end);
                }''')], features=['nalgebra', 'netsci', 'svg'],
 needs='a cubic segment whose second control point is its end point', breaks='the cubic is replaced by a quadratic with a different shape',
demo=SVG+'''
    let mut m = draw("M0 0 C 0 8 8 8 8 8 L 4 -4 L 0 0 Z");
    let kinds: Vec<bool> = m.edges().map(|e| matches!(e.curve_type(), CurvedEdgeType::CubicBezier(_, _))).collect();
    assert_eq!(kinds.iter().filter(|x| **x).count(), 1);'''),
dict(id='p01-space-advance', property='P01', file='src/mesh/mesh/fonts.rs', subs=[('''            let glyph_id = scaled_font.glyph_id(c);
''','''            let glyph_id = scaled_font.glyph_id(c);
            if self.font.outline(glyph_id).is_none() {
                // nothing to draw
                continue;
            }
''')], features=['nalgebra', 'netsci', 'fonts'],
 needs='a text containing a glyph without outline, such as a space', breaks='spaces take no room',
demo='''
    let data = std::fs::read(concat!(env!("ASSETS"), "/Cochineal-Roman.otf")).unwrap();
    let f = Font::new(&data, 1.0);
    let right = |t: &str| {
        let mut m = Mesh2d64Curved::new();
        f.layout_text::<2, MeshType2d64PNUCurved>(t, &mut m);
        m.vertices().map(|v| v.pos().x).fold(f64::MIN, f64::max)
    };
    assert!(right("H H") > right("HH") + 0.1, "{} {}", right("H H"), right("HH"));''', env='ASSETS="$repo/assets" '),
dict(id='p01-first-payload', property='P01', file='src/mesh/mesh/path_builder.rs', subs=[('''            assert!(self.start_vertex() == self.current_vertex());
            let origin = self.current_vertex();
            let edges = self.mesh().insert_edge_between(origin, ep0, v, ep1);
            self.current_edges = Some(edges);
            self.start_edges = Some((edges.1, edges.0));''','''            assert!(self.start_vertex() == self.current_vertex());
            // the face is made on the other side, so draw the first edge from there
            let origin = self.current_vertex();
            let (inner, outer) = self.mesh().insert_edge_between(v, ep0, origin, ep1);
            self.current_edges = Some((outer, inner));
            self.start_edges = Some((inner, outer));''')],
 needs='a path whose first segment has different payloads on its two sides', breaks='the payloads of the two sides of the first segment are exchanged',
demo='''
    type C = Mesh2d64Curved;
    let mut m = C::new();
    let mut ep = CurvedEdgePayload::<2, MeshType2d64PNUCurved>::default();
    ep.set_curve_type(CurvedEdgeType::QuadraticBezier(Vec2::<f64>::new(1.0, 5.0)));
    let w = m.add_vertex(VertexPayloadPNU::<f64, 2>::from_pos(Vec2::<f64>::new(4.0, 0.0)));
    let mut pb = PathBuilder::<MeshType2d64PNUCurved, <MeshType2d64PNUCurved as EuclideanMeshType<2>>::Trans>::start(&mut m, Vec2::<f64>::new(0.0, 0.0));
    pb.line_to_ex(w, ep, Default::default());
    let e = m.edges().find(|e| e.curve_type() != CurvedEdgeType::Linear).unwrap();
    assert_eq!(e.target_id(&m), w, "the curve belongs to the edge towards the new vertex");'''),
]

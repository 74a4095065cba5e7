HB='src/halfedge/mesh/builder/halfedge.rs'; BB='src/halfedge/mesh/builder/builder.rs'; FL='src/halfedge/edge/halfedge.rs'
SEEDS=[
dict(id='t01-between-prev', property='T01', file=HB, subs=[('''            self.edge_mut(next0).set_prev(e0);
        } else {''','''            self.edge_mut(next0).set_prev(e0);
            if prev0 != IndexType::max() {
                self.edge_mut(prev0).set_next(e0);
            }
        } else {'''),('''        if prev0 != IndexType::max() {
            self.edge_mut(prev0).set_next(e0);
        }

''','')], needs='an edge inserted from a vertex that has edges to a vertex that has none', breaks='the predecessor of the new edge still has its old successor',
demo='''
    let mut m = M::new();
    m.insert_path(ngon(3));
    let iso = m.add_vertex(vp(9.0, 0.0, 0.0));
    let v = m.vertices().next().unwrap().id();
    m.insert_edge_between(v, Default::default(), iso, Default::default());
    for e in m.edges() {
        assert_eq!(m.edge(e.next_id()).prev_id(), e.id());
        assert_eq!(m.edge(e.prev_id()).next_id(), e.id());
    }
'''),
dict(id='t01-fixup-twin', property='T01', file='src/halfedge/mesh/builder/semi.rs', subs=[('''            if other_new.twin_id() == e {
                break;
            }
            other_new = other_new.twin(self).next(self);
''','''            if other_new.twin_id() == e {
                break;
            }
            if other_new.is_boundary_self() {
                // no face to continue with
                return None;
            }
            other_new = other_new.twin(self).next(self);
''')], needs='', breaks='', demo=''),
dict(id='t02-between-isolated', property='T02', file=HB, subs=[('''        } else {
            self.vertex_mut(origin1).set_edge(e1);
        }''','''        } else {
            self.vertex_mut(origin1).set_edge(e0);
        }''')], needs='an edge inserted towards a vertex without edges', breaks='the vertex remembers the edge that arrives instead of the one that leaves',
demo='''
    let mut m = M::new();
    m.insert_path(ngon(3));
    let iso = m.add_vertex(vp(9.0, 0.0, 0.0));
    let v = m.vertices().next().unwrap().id();
    m.insert_edge_between(v, Default::default(), iso, Default::default());
    for v in m.vertices() {
        assert_eq!(m.edge(v.edge_id(&m)).origin_id(), v.id());
    }'''),
dict(id='t02-flip-target', property='T02', file=FL, subs=[('''        mesh.vertex_mut(target_id).set_edge(e);
''',''),('''            mesh.face_mut(t_face_id).set_edge(e);
''','''            mesh.face_mut(t_face_id).set_edge(e);
            mesh.vertex_mut(target_id).set_edge(e);
''')], needs='flipping an edge with no face on its far side, whose twin is remembered by the target vertex', breaks='the target vertex keeps remembering an edge that no longer leaves it',
demo='''
    for k in 0..4 {
        let mut m = M::new();
        m.insert_path(ngon(3));
        let e = m.edges().nth(k).unwrap().id();
        flip::<MeshTypeNd64PNU<3>>(e, &mut m);
        for v in m.vertices() {
            assert_eq!(m.edge(v.edge_id(&m)).origin_id(), v.id());
        }
    }'''),
dict(id='t03-insert-face', property='T03', file=BB, subs=[('''            self.edge_mut(current_twin).set_face(f2);
            if first {
''','''            if first {
                self.edge_mut(current_twin).set_face(f2);
''')], needs='two or more vertices inserted into an edge that has a face on its far side', breaks='the second inserted edge does not carry the face on its far side',
demo='''
    let mut m = M::new();
    let e = m.insert_polygon(ngon(4));
    for e in [e, m.edge(e).twin_id()] {
        m.insert_vertices_into_edge(e, vec![(Default::default(), Default::default(), vp(2.0, 0.0, 0.0)), (Default::default(), Default::default(), vp(2.0, 1.0, 0.0))].into_iter());
        for e in m.edges() {
            assert_eq!(e.face_id(), e.next(&m).face_id());
        }
    }'''),
dict(id='t03-flip-rep', property='T03', file=FL, subs=[('''        if t_face_id != IndexType::max() {
            mesh.face_mut(t_face_id).set_edge(e);
        }
''','''        if face_id != IndexType::max() && t_face_id != IndexType::max() {
            mesh.face_mut(t_face_id).set_edge(e);
        }
''')], needs='flipping an edge whose own side is open and which is remembered by the face on its far side', breaks='a face remembers an edge that now lies on the other face',
demo='''
    for k in 0..8 {
        let mut m = M::new();
        let e0 = m.insert_polygon(ngon(4));
        let e = m.edges().nth(k).unwrap().id();
        flip::<MeshTypeNd64PNU<3>>(e, &mut m);
        for f in m.faces() {
            assert_eq!(m.edge(f.edge_id()).face_id(), f.id());
        }
    }'''),
]

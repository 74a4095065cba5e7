DV='src/util/deletable.rs'
SEEDS=[
dict(id='s01-reuse-oldest', property='S01', file=DV, subs=[('''            v.set_id(index);
            self.data[index.index()] = v;
            index
        } else {''','''            // swapping keeps the old allocation alive a bit longer
            let at = self.deleted.first().copied().unwrap_or(index);
            v.set_id(index);
            self.data[at.index()] = v;
            index
        } else {''')], needs='two elements of a kind deleted before a new one is inserted', breaks='the new element is stored in another slot than the one its id names',
demo='''
    let mut m = M::new();
    let mut fs = Vec::new();
    for k in 0..3 {
        let e = m.insert_loop((0..3).map(|i| vp(k as f64 * 5.0 + (i % 2) as f64, (i / 2) as f64, 0.0)));
        let f = m.close_hole_default(e);
        fs.push(f);
    }
    m.remove_face(fs[0]);
    m.remove_face(fs[1]);
    let e = m.edges().find(|e| e.is_boundary_self()).unwrap().id();
    let f = m.close_hole_default(e);
    assert_eq!(m.face(f).id(), f);
    assert_eq!(m.faces().count(), 2);'''),
dict(id='s01-iter-mut-live', property='S01', file=DV, subs=[('''        self.data.iter_mut().filter(|f| !f.is_deleted())''','''        let live = self.data.len() - self.deleted.len();
        self.data.iter_mut().filter(|f| !f.is_deleted()).take(live.max(1))''' .replace('.take(live.max(1))','') .replace('''let live = self.data.len() - self.deleted.len();
        self.data.iter_mut().filter(|f| !f.is_deleted())''','''let live = self.len();
        self.data.iter_mut().take(live)'''))], needs='iterating mutably after a deletion', breaks='elements behind a deleted slot are skipped and the deleted one is handed out',
demo='''
    let mut m = M::new();
    let mut fs = Vec::new();
    for k in 0..3 {
        let e = m.insert_loop((0..3).map(|i| vp(k as f64 * 5.0 + (i % 2) as f64, (i / 2) as f64, 0.0)));
        fs.push(m.close_hole_default(e));
    }
    m.remove_face(fs[0]);
    let mut seen = 0;
    for f in m.faces_mut() { assert!(f.id() != IndexType::max()); seen += 1; }
    assert_eq!(seen, 2);'''),
]

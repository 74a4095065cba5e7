SW = 'src/tesselate/sweep/sweep.rs'
ST = 'src/tesselate/sweep/status.rs'
IV = 'src/tesselate/sweep/interval.rs'
PT = 'src/tesselate/sweep/point.rs'
VT = 'src/tesselate/sweep/vertex_type.rs'
SIMPLE = '''
    type V2 = Vec2<f64>;
    std::panic::set_hook(Box::new(|_| {}));
    fn indexed(p: &[V2]) -> Vec<IndexedVertex2D<usize, V2>> { p.iter().enumerate().map(|(i, v)| IndexedVertex2D::new(*v, i)).collect() }
    fn cross(a: V2, b: V2, c: V2) -> f64 { (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x) }
    fn covers(p: &[V2], idx: &[usize]) -> bool {
        let poly: f64 = (0..p.len()).map(|i| { let (a, b) = (p[i], p[(i + 1) % p.len()]); a.x * b.y - a.y * b.x }).sum();
        let tris: f64 = idx.chunks(3).map(|t| cross(p[t[0]], p[t[1]], p[t[2]]).abs()).sum();
        idx.len() == 3 * (p.len() - 2) && (poly - tris).abs() < 1e-9
    }
    fn sweep(p: &[V2]) -> Option<Vec<usize>> {
        let q = p.to_vec();
        std::panic::catch_unwind(move || {
            let mut idx = Vec::new();
            let mut t = Triangulation::new(&mut idx);
            sweep_line_triangulation::<LinearMonoTriangulator<usize, V2>>(&mut t, &indexed(&q), &mut SweepMeta::default());
            idx
        }).ok()
    }
    fn inter(a: V2, b: V2, c: V2, d: V2) -> bool { cross(a, b, c) * cross(a, b, d) < 0.0 && cross(c, d, a) * cross(c, d, b) < 0.0 }
    // random simple polygons; with a grid their corners lie on few heights
    fn simple(count: usize, max: usize, grid: f64, mut check: impl FnMut(&[V2])) {
        let mut seed: u64 = 99;
        let mut rnd = move || { seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); ((seed >> 33) as f64) / ((1u64 << 31) as f64) };
        for it in 0..count {
            let n = 5 + it % (max - 4);
            let mut p: Vec<V2> = (0..n).map(|_| { let (x, y): (f64, f64) = (rnd(), rnd()); V2::new(x, if grid > 0.0 { (y * grid).floor() / grid } else { y }) }).collect();
            let mut clean = false;
            'o: for _ in 0..2000 {
                for i in 0..n { for j in i + 2..n {
                    if i == 0 && j == n - 1 { continue; }
                    if inter(p[i], p[i + 1], p[j], p[(j + 1) % n]) { p[i + 1..=j].reverse(); continue 'o; }
                } }
                clean = true;
                break;
            }
            if !clean { continue; }
            let near = (0..n).any(|i| (0..n).any(|j| { let (a, b, c) = (p[j], p[(j + 1) % n], p[i]); i != j && i != (j + 1) % n && cross(a, b, c).abs() < 1e-3 }));
            if near { continue; }
            let a: f64 = (0..n).map(|i| { let (a, b) = (p[i], p[(i + 1) % n]); a.x * b.y - a.y * b.x }).sum();
            if a < 0.0 { p.reverse(); }
            check(&p);
        }
    }
    fn all(count: usize, max: usize, grid: f64) {
        let (mut bad, mut total) = (0, 0);
        simple(count, max, grid, |p| {
            total += 1;
            match sweep(p) { Some(t) if covers(p, &t) => {} _ => bad += 1 }
        });
        println!("{} of {} polygons are not covered", bad, total);
        assert!(bad == 0 && total > 50);
    }
'''
SEEDS = [
dict(id='g04-both-fixups', property='G04', file=SW, subs=[("        let mut new_stacks = if let Some(mut fixup) = left.fixup {", "        let mut new_stacks = if let (Some(mut fixup), true) = (left.fixup, right.fixup.is_none()) {")],
 needs='a merge corner below two other merge corners', breaks='the piece between the left pending cut and the corner is lost',
 demo=SIMPLE + '    all(3000, 18, 0.0);'),
dict(id='g04-late-merge', property='G04', file=SW, subs=[("                if self.sls.peek_right(event.here).is_some() {", "                if self.sls.peek_right(event.here).map_or(false, |l| l.fixup.is_none()) {")],
 needs='a merge corner with a level edge, left of which another merge is pending', breaks='the corner only continues the strip to its right, the left one is never finished',
 demo=SIMPLE + '    all(30000, 12, 6.0);'),
dict(id='g04-late-end', property='G04', file=SW, subs=[("""                if interval.is_end() {
                    #[cfg(feature = "sweep_debug_print")]
                    println!("Reinterpret as end");
                    #[cfg(feature = "sweep_debug")]
                    meta.update_type(self.vec2s[event.here].index, VertexType::EndLate);
                    // re-insert is faster than peeking since late vertex classification is rare
                    self.sls.insert(interval, self.vec2s);
                    self.end(event);
                    return;
                }
                if self.sls.peek_right""", """                if interval.is_end() && interval.fixup.is_none() {
                    #[cfg(feature = "sweep_debug_print")]
                    println!("Reinterpret as end");
                    #[cfg(feature = "sweep_debug")]
                    meta.update_type(self.vec2s[event.here].index, VertexType::EndLate);
                    // re-insert is faster than peeking since late vertex classification is rare
                    self.sls.insert(interval, self.vec2s);
                    self.end(event);
                    return;
                }
                if self.sls.peek_right""")],
 needs='an end corner with a level edge below a pending merge', breaks='one of the two pieces that end there is never finished',
 demo=SIMPLE + '    all(30000, 12, 6.0);'),
]
SMALL = SIMPLE + """
    let (mut bad, mut total) = (0, 0);
    simple(3000, 12, 0.0, |p| {
        total += 1;
        let q: Vec<V2> = p.iter().map(|v| V2::new(v.x * 1e-7, v.y * 1e-7)).collect();
        match sweep(&q) { Some(t) if covers(p, &t) => {} _ => bad += 1 }
    });
    println!("{} of {} small polygons are not covered", bad, total);
    assert!(bad == 0 && total > 50);
"""
SEEDS[2]['demo'] = SMALL
SEEDS[2]['needs'] = 'an end corner below a pending merge whose kind is open as the polygon is small'

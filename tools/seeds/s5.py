SEEDS=[
dict(id='b01-newell-tilt', property='B01', file='src/math/vector3d.rs', subs=[('(a.x() + b.x()) * (b.z() - a.z()),','(a.z() + b.z()) * (a.x() - b.x()) + a.z() * b.z() - b.z() * b.z(),')],
 needs='a face that is not parallel to a coordinate plane', breaks='the normal of tilted faces points elsewhere',
demo='''
    let v = |x: f64, y: f64, z: f64| Vec3::<f64>::new(x, y, z);
    let n = vec![v(0.0, 0.0, 0.0), v(1.0, 0.0, 0.0), v(1.0, 1.0, 0.0)].into_iter().normal();
    assert!(n.is_about(&v(0.0, 0.0, 0.5), 1e-9));
    let n = vec![v(0.0, 0.0, 0.0), v(1.0, 0.0, 1.0), v(0.0, 2.0, 3.0)].into_iter().normal();
    let c = v(1.0, 0.0, 1.0).cross(&v(0.0, 2.0, 3.0)) * 0.5;
    assert!(n.is_about(&c, 1e-9), "{:?} {:?}", n, c);'''),
dict(id='b01-contains-vertex', property='B01', file='src/math/polygon.rs', subs=[('if b.y() > point.y() && (b - a)','if b.y() >= point.y() && (b - a)')],
 needs='a point to the left of the polygon at exactly the height of one of its vertices', breaks='points outside a polygon are reported inside when a vertex lies at their height',
demo='''
    let v = |x: f64, y: f64| Vec2::<f64>::new(x, y);
    let p = Polygon2d::from_iter([v(0.0, 0.0), v(1.0, -1.0), v(2.0, 0.0), v(1.0, 1.0)]);
    assert!(p.contains(&v(1.0, 0.5)));
    assert!(p.contains(&v(1.0, 0.0)));
    assert!(!p.contains(&v(-1.0, 0.5)));
    assert!(!p.contains(&v(-1.0, 0.0)));'''),
]

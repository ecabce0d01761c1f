//! C22: a boxed curve or surface answers every operation like the value inside.
use super::project::{frames, shaped};
use super::surf::net;
use super::Prop;
use crate::core::*;
use geom3d::curve::*;
use geom3d::surface::*;
use geom3d::{Face, Grid, KnotVector, Point2, Point3, Point4, TriangleMesh};

fn f64s(cx: &mut Cx, what: &str, a: &[f64], b: &[f64]) -> Res {
    cx.check(a.len() == b.len(), || format!("{}: {} values boxed, {} plain", what, b.len(), a.len()))?;
    for (x, y) in a.iter().zip(b) {
        let same = (x.is_nan() && y.is_nan()) || (x - y).abs() <= 1e-13 * x.abs().max(y.abs()) || x == y;
        cx.check(same, || format!("{}: {} plain, {} boxed", what, x, y))?;
    }
    Ok(())
}
fn pts(cx: &mut Cx, what: &str, a: &[Point3], b: &[Point3]) -> Res {
    let f = |p: &[Point3]| p.iter().flat_map(|p| [p.x, p.y, p.z]).collect::<Vec<_>>();
    f64s(cx, what, &f(a), &f(b))
}
fn meshes(cx: &mut Cx, what: &str, a: &TriangleMesh, b: &TriangleMesh) -> Res {
    pts(cx, what, &a.vertices, &b.vertices)?;
    pts(cx, what, &a.normals, &b.normals)?;
    cx.check(a.triangles == b.triangles, || format!("{}: different triangles", what))
}
/// the same draws for both
fn draws(seed: u64) {
    let mut s = seed;
    rand::mc::install(Some(Box::new(move || {
        s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        s
    })));
}
fn same_curve<C: Curve>(cx: &mut Cx, make: &dyn Fn() -> C, range: (f64, f64), projects: bool) -> Res {
    let plain = make();
    let depth = 1 + cx.num("boxes-1", 2);
    let boxed: Box<dyn Curve> = if depth == 1 { Box::new(make()) } else { Box::new(Box::new(make()) as Box<dyn Curve>) };
    let inner: Option<&C> = if depth == 1 { boxed.downcast_ref::<C>() } else { boxed.downcast_ref::<Box<dyn Curve>>().and_then(|b| b.downcast_ref::<C>()) };
    cx.check(inner.map(|c| format!("{:?}", c)) == Some(format!("{:?}", plain)), || "the value does not come back".into())?;
    cx.check(format!("{:?}", boxed) == format!("{:?}", plain), || "printed differently".into())?;
    let n = 16;
    let us: Vec<f64> = (-2..=n + 2).map(|i| range.0 + (range.1 - range.0) * i as f64 / n as f64).collect();
    let p: Vec<Point3> = us.iter().map(|&u| plain.get_point(u)).collect();
    // through the trait object and through the impl for the box
    let via: Vec<Point3> = us.iter().map(|&u| <Box<dyn Curve> as Curve>::get_point(&boxed, u)).collect();
    let dynamic: Vec<Point3> = us.iter().map(|&u| boxed.as_ref().get_point(u)).collect();
    pts(cx, "points", &p, &via)?;
    pts(cx, "points (object)", &p, &dynamic)?;
    if projects {
        let q: Vec<Point3> = p.iter().filter(|p| p.is_finite()).flat_map(|&p| [p, p + Point3::new(0.3, -1.0, 0.7), p * 3.0]).collect();
        let a: Vec<f64> = q.iter().map(|&q| plain.project(q)).collect();
        let b: Vec<f64> = q.iter().map(|&q| <Box<dyn Curve> as Curve>::project(&boxed, q)).collect();
        f64s(cx, "projections", &a, &b)?;
    }
    for r in [range, (range.1, range.0), (0.0, 0.0), (1.0, 1.0), (-0.5, 2.5), (2.0, 0.5), (3.0, -3.0), (1e-9, 0.0), (6.0, 6.5)] {
        for s in [true, false] {
            let (a, b) = (plain.refine_parameter_range(r, s), <Box<dyn Curve> as Curve>::refine_parameter_range(&boxed, r, s));
            f64s(cx, "refined range", &[a.0, a.1], &[b.0, b.1])?;
        }
    }
    for (seed, tolerance, r) in [(1, 0.05, range), (7, 0.5, range), (3, 0.02, (range.1, range.0)), (9, 0.1, (range.0, range.0 + 0.25 * (range.1 - range.0)))] {
        draws(seed);
        let a = CurveSegment { curve: make(), parameter_range: r, tolerance, parameter_division: 16 }.get_points();
        draws(seed);
        let b = CurveSegment { curve: if depth == 1 { Box::new(make()) as Box<dyn Curve> } else { Box::new(Box::new(make()) as Box<dyn Curve>) }, parameter_range: r, tolerance, parameter_division: 16 }.get_points();
        pts(cx, "segment samples", &a, &b)?;
    }
    // as a section and as a path
    let range2 = (range.0, range.0 + 0.7 * (range.1 - range.0));
    let bx = || -> Box<dyn Curve> { Box::new(make()) };
    let spin = |u: f64, v: f64| (SpinSurface { origin: Point3::new(1.0, 2.0, 3.0), axis: Point3::Z, section: make() }.get_point(u, v), SpinSurface { origin: Point3::new(1.0, 2.0, 3.0), axis: Point3::Z, section: bx() }.get_point(u, v));
    let line = || Line { origin: Point3::X, direction: Point3::new(0.0, 1.0, 2.0) };
    for &u in &[range.0, range2.1, range.1] {
        for v in [0.0, 1.0, 4.0] {
            let (a, b) = spin(u, v);
            pts(cx, "spin surface", &[a], &[b])?;
            let a = SweepSurface { path: make(), section: line() }.get_point(u, v);
            let b = SweepSurface { path: bx(), section: Box::new(line()) as Box<dyn Curve> }.get_point(u, v);
            pts(cx, "swept along", &[a], &[b])?;
            let a = SweepSurface { path: line(), section: make() }.get_point(v, u);
            let b = SweepSurface { path: Box::new(line()) as Box<dyn Curve>, section: bx() }.get_point(v, u);
            pts(cx, "swept", &[a], &[b])?;
        }
    }
    Ok(())
}
fn curves(cx: &mut Cx) -> Res {
    let kind = cx.num("curve", 10);
    let shape = cx.num("shape", 5);
    let n = [2, 4, 6][cx.num("points", 3)];
    let all = frames();
    let fr = all[shape % all.len()];
    let c = shaped(shape, n);
    let hom = || c.iter().enumerate().map(|(i, p)| { let w = 1.0 + 0.5 * i as f64; Point4::new(p.x * w, p.y * w, p.z * w, w) }).collect::<Vec<_>>();
    let deg = 3.min(n - 1);
    let knots = || KnotVector::uniform_knot(deg, n - deg);
    match kind {
        0 => same_curve(cx, &|| Line { origin: c[0], direction: c[1] - c[0] }, (-1.0, 2.0), true),
        1 => same_curve(cx, &|| Polyline::new(c.clone()), (0.0, 1.0), true),
        2 => same_curve(cx, &|| Circle { center: c[0], axis: fr.0, ref_dir: fr.1, radius: n as f64 }, (0.0, 5.0), true),
        3 => same_curve(cx, &|| Circle { center: c[1], axis: fr.0, ref_dir: fr.1, radius: 0.3 * n as f64 }, (3.0, -1.0), true),
        4 => same_curve(cx, &|| BezierCurve { control_points: c.clone() }, (0.0, 1.0), true),
        5 => same_curve(cx, &|| BezierCurve { control_points: hom() }, (0.0, 1.0), false),
        6 => same_curve(cx, &|| BSplineCurve { control_points: c.clone(), knots: knots(), degree: deg as u8 }, (0.0, 1.0), true),
        7 => same_curve(cx, &|| BSplineCurve { control_points: hom(), knots: knots(), degree: deg as u8 }, (0.0, 1.0), false),
        8 => same_curve(cx, &|| BSplineCurve { control_points: c.clone(), knots: KnotVector::uniform_knot(1, n - 1), degree: 1 }, (0.0, 1.0), true),
        _ => same_curve(cx, &|| Line { origin: Point3::ZERO, direction: c[1] * 5.0 + Point3::X }, (0.0, 1.0), true),
    }
}
fn loops(kind: usize, at: &dyn Fn(f64, f64) -> Point3) -> Vec<EdgeLoop> {
    let quad = |q: [(f64, f64); 4]| EdgeLoop {
        edges: (0..4)
            .map(|i| {
                let (a, b) = (q[i], q[(i + 1) % 4]);
                // a polyline that follows the surface
                let v = (0..=6).map(|k| { let t = k as f64 / 6.0; at(a.0 + t * (b.0 - a.0), a.1 + t * (b.1 - a.1)) }).collect();
                CurveSegment { curve: Box::new(Polyline::new(v)) as Box<dyn Curve>, parameter_range: (0.0, 1.0), tolerance: 0.01, parameter_division: 16 }
            })
            .collect(),
    };
    match kind {
        0 => vec![],
        1 => vec![quad([(0.1, 0.1), (0.9, 0.1), (0.9, 0.8), (0.1, 0.8)])],
        _ => vec![quad([(0.1, 0.1), (0.9, 0.1), (0.9, 0.8), (0.1, 0.8)]), quad([(0.3, 0.3), (0.3, 0.6), (0.6, 0.6), (0.6, 0.3)])],
    }
}
fn same_surface<S: Surface>(cx: &mut Cx, make: &dyn Fn() -> S, range: ((f64, f64), (f64, f64)), trims: bool) -> Res {
    let plain = make();
    let depth = 1 + cx.num("boxes-1", 2);
    let bx = || -> Box<dyn Surface> { if depth == 1 { Box::new(make()) } else { Box::new(Box::new(make()) as Box<dyn Surface>) } };
    let boxed = bx();
    let inner: Option<&S> = if depth == 1 { boxed.downcast_ref::<S>() } else { boxed.downcast_ref::<Box<dyn Surface>>().and_then(|b| b.downcast_ref::<S>()) };
    cx.check(inner.map(|c| format!("{:?}", c)) == Some(format!("{:?}", plain)), || "the value does not come back".into())?;
    let (ur, vr) = range;
    let mut uv = vec![];
    for i in 0..=6 {
        for j in 0..=5 {
            uv.push(Point2::new(ur.0 + (ur.1 - ur.0) * i as f64 / 6.0, vr.0 + (vr.1 - vr.0) * j as f64 / 5.0));
        }
    }
    let a: Vec<Point3> = uv.iter().map(|p| plain.get_point(p.x, p.y)).collect();
    let b: Vec<Point3> = uv.iter().map(|p| <Box<dyn Surface> as Surface>::get_point(&boxed, p.x, p.y)).collect();
    pts(cx, "points", &a, &b)?;
    pts(cx, "normals", &plain.get_normals(&uv), &<Box<dyn Surface> as Surface>::get_normals(&boxed, &uv))?;
    let (ud, vd) = cx.of("divisions", &[(1usize, 1usize), (4, 7), (9, 2), (40, 30)]);
    let pa = SurfacePatch { surface: make(), parameter_range: range, parameter_division: (ud, vd) };
    let pb = SurfacePatch { surface: bx(), parameter_range: range, parameter_division: (ud, vd) };
    pts(cx, "patch points", &pa.get_points(&uv), &pb.get_points(&uv))?;
    cx.check(pa.get_point_grid().size() == pb.get_point_grid().size(), || "grid sizes differ".into())?;
    pts(cx, "patch grid", &pa.get_point_grid().into_vec(), &pb.get_point_grid().into_vec())?;
    meshes(cx, "patch mesh", &pa.get_triangle_mesh(), &pb.get_triangle_mesh())?;
    let kind = cx.num("loops", if trims { 3 } else { 2 });
    let at = |u: f64, v: f64| plain.get_point(ur.0 + (ur.1 - ur.0) * u, vr.0 + (vr.1 - vr.0) * v);
    let l = || loops(kind, &at);
    draws(5);
    let ta = plain.trim(&l());
    draws(5);
    let tb = <Box<dyn Surface> as Surface>::trim(&boxed, &l());
    meshes(cx, "trimmed", &ta, &tb)?;
    cx.check(!trims || kind == 0 || !ta.triangles.is_empty(), || "trimmed to nothing".into())?;
    draws(8);
    let ta = TrimmedSurface { surface: make(), bounds: l() }.get_triangle_mesh();
    draws(8);
    let tb = TrimmedSurface { surface: bx(), bounds: l() }.get_triangle_mesh();
    cx.observe(&(ta.triangles.len(), ta.vertices.len()));
    meshes(cx, "trimmed face", &ta, &tb)
}
fn surfaces(cx: &mut Cx) -> Res {
    let kind = cx.num("surface", 9);
    let size = cx.of("size", &[1.0, 12.0]);
    let k = cx.num("frame", 5);
    let (n, m) = cx.of("net", &[(3usize, 3usize), (4, 5)]);
    let fr = frames()[2 * k + 1];
    let y = fr.0.cross(fr.1);
    let c = net(n, m, size);
    let hom = || c.iter().enumerate().map(|(i, p)| { let w = 1.0 + 0.25 * (i % 4) as f64; Point4::new(p.x * w, p.y * w, p.z * w, w) }).collect::<Vec<_>>();
    let one = ((0.0, 1.0), (0.0, 1.0));
    let deg = (2, 2);
    let kn = |n: usize| KnotVector::uniform_knot(2, n - 2);
    match kind {
        0 => same_surface(cx, &|| Plane { origin: c[1], normal: fr.0, u_axis: fr.1, v_axis: y }, ((0.0, size), (-size, size)), true),
        1 => same_surface(cx, &|| Cylinder { origin: c[1], axis: fr.0, ref_dir: fr.1, radius: size }, ((0.0, size), (1.0, 3.0)), true),
        2 => same_surface(cx, &|| BSplineSurface::new(Grid::from_vec(c.clone(), m), (kn(n), kn(m)), deg), one, true),
        3 => same_surface(cx, &|| BSplineSurface::new(Grid::from_vec(hom(), m), (kn(n), kn(m)), deg), one, false),
        4 => same_surface(cx, &|| BezierSurface::new(Grid::from_vec(c.clone(), m)), one, false),
        5 => same_surface(cx, &|| BezierSurface::new(Grid::from_vec(hom(), m)), one, false),
        6 => same_surface(cx, &|| Umbrella { radius: size }, ((0.0, 3.1), (0.0, 6.2)), false),
        7 => same_surface(cx, &|| SpinSurface { origin: c[0], axis: fr.0, section: Line { origin: c[1], direction: c[2] } }, ((0.0, 1.0), (0.0, 5.0)), false),
        _ => same_surface(cx, &|| SweepSurface { path: Line { origin: c[1], direction: c[2] }, section: BezierCurve { control_points: c.clone() } }, one, false),
    }
}
pub fn c22() -> Prop {
    Prop {
        id: "C22",
        scenarios: vec![Scenario { name: "curves", run: curves }, Scenario { name: "surfaces", run: surfaces }],
        rule: "every curve and surface type x shapes and frames x one or two boxes; every operation of the trait and every consumer (segment sampling, spinning, sweeping, patches, grids, meshes, trimming with and without holes) is run on the plain and on the boxed value with the same random draws and compared number by number; the boxed value is downcast and compared with the original; non-trivial: distinct trimmed meshes",
        bounds_quick: "10 curves x 5 shapes x 3 sizes x 2 depths; 9 surfaces x 2 sizes x 5 frames x 2 nets x 2 depths x 4 divisions x loops",
        bounds_thorough: "the same",
        assumptions: vec!["projection onto rational curves is unimplemented in the library (plain and boxed) and not compared"],
    }
}

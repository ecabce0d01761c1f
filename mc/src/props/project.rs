//! C06 projection onto curves, C07 polylines, C08 adaptive sampling.
use super::knots::*;
use super::Prop;
use crate::core::*;
use crate::geo::*;
use geom3d::curve::*;
use geom3d::{KnotVector, Point3};

pub fn shaped(kind: usize, n: usize) -> Vec<Point3> {
    (0..n)
        .map(|i| {
            let t = i as f64;
            match kind {
                0 => Point3::new(t, 0.3 * t * t, 0.1 * t),                               // gentle arc
                1 => Point3::new(t, (t * 1.3).sin() * 1.5, (t * 0.7).cos()),             // wavy
                2 => Point3::new((t * 0.9).cos() * 3.0, (t * 0.9).sin() * 3.0, 0.4 * t), // helix
                3 => generic(i),
                4 => Point3::new(t * t * 0.8 + t * 0.1, 0.0, 0.0), // straight, uneven speed
                _ => Point3::new([0.0, 2.0, 2.0, 0.0, 1.0][i % 5], [0.0, 0.0, 2.0, 2.0, 3.0][i % 5], 0.5 * t),
            }
        })
        .collect()
}
/// where a model sits: (scale, offset)
pub const PLACES: [(f64, [f64; 3]); 3] = [(1.0, [0.0, 0.0, 0.0]), (40.0, [-300.0, 75.5, 12.0]), (1.0, [1000.0, -2000.0, 500.0])];
fn place(c: Vec<Point3>, pl: (f64, [f64; 3])) -> Vec<Point3> {
    c.into_iter().map(|p| p * pl.0 + Point3::new(pl.1[0], pl.1[1], pl.1[2])).collect()
}

/// the library accepts a parameter once the squared distance, or the slope of it, is below 1e-7
const EPS: f64 = 1.0e-5;

fn on_curve(cx: &mut Cx, c: &dyn Curve, lo: f64, hi: f64, n: usize) -> Res {
    for i in 0..=n {
        let u = lo + (hi - lo) * i as f64 / n as f64;
        let q = c.get_point(u);
        let v = c.project(q);
        cx.observe_f(v);
        cx.check(v >= lo && v <= hi, || format!("projection of the point at {} is parameter {}, outside [{}, {}]", u, v, lo, hi))?;
        let d = c.get_point(v).distance(q);
        cx.check(d <= EPS, || format!("the curve point at {} is projected to {}, {} away", u, v, d))?;
    }
    Ok(())
}
fn off_curve(cx: &mut Cx, c: &dyn Curve, ctrl: &[Point3], lo: f64, hi: f64, scale: f64, n: usize) -> Res {
    let base = ctrl[cx.num("near control point", ctrl.len())];
    let r = cx.of("radius", &[0.3, 1.0, 4.0]) * scale;
    let pts: Vec<(f64, Point3)> = (0..=n)
        .map(|i| {
            let u = lo + (hi - lo) * i as f64 / n as f64;
            (u, c.get_point(u))
        })
        .collect();
    for k in 0..27 {
        let d = Point3::new((k % 3) as f64 - 1.0, (k / 3 % 3) as f64 - 1.0, (k / 9) as f64 - 1.0);
        let q = base + d * r;
        let v = c.project(q);
        cx.observe_f(v);
        cx.check(v >= lo && v <= hi, || format!("projection of {} is parameter {}, outside [{}, {}]", q, v, lo, hi))?;
        let got = c.get_point(v).distance(q);
        let mut best = (f64::MAX, 0.0);
        for (u, p) in &pts {
            let x = p.distance(q);
            if x < best.0 {
                best = (x, *u);
            }
        }
        cx.check(got <= best.0 * 1.02 + EPS, || format!("{} is projected to {}, at distance {}, but {} is at {}", q, v, got, best.1, best.0))?;
    }
    Ok(())
}
fn line(cx: &mut Cx) -> Res {
    let dirs = [
        Point3::new(1.0, 0.0, 0.0),
        Point3::new(0.0, -2.0, 0.0),
        Point3::new(0.0, 0.0, 0.25),
        Point3::new(3.0, 4.0, 12.0),
        Point3::new(0.6, 0.0, -0.8),
        Point3::new(1.0e-3, 2.0e-3, 5.0e-4),
        Point3::new(500.0, -100.0, 30.0),
    ];
    let d = cx.of("direction", &dirs);
    let o = cx.of("origin", &[Point3::ZERO, Point3::new(-5.0, 2.5, 100.0), Point3::new(1.0e4, 1.0, -1.0e4)]);
    let l = Line { origin: o, direction: d };
    let u = cx.of("u", &[0.0, 1.0, -1.0, 0.3, 7.5, -250.0, 1.0e4]);
    let p = l.get_point(u);
    let w = o + d * u;
    let m = 1.0 + o.length() + (d * u).length();
    cx.observe_f(u);
    cx.check(near3(p, w, 1e-12 * m), || format!("point {} instead of {}", p, w))?;
    // every point of the normal plane at p projects to u
    let a = d.any_orthogonal_vector().normalize();
    let b = d.cross(a).normalize();
    for (x, y) in [(0.0, 0.0), (1.0, 0.0), (-2.0, 3.0), (100.0, -50.0)] {
        let q = p + a * x + b * y;
        let v = l.project(q);
        cx.check(near(v, u, 1e-10 * (m + 200.0) / d.length()), || format!("{} is projected to parameter {} instead of {}", q, v, u))?;
    }
    let r = l.refine_parameter_range((u, 2.0), cx.flag("sense"));
    cx.check(r == (u, 2.0), || format!("refined range {:?}", r))
}
pub fn frames() -> Vec<(Point3, Point3)> {
    let mut v = Vec::new();
    for axis in [Point3::X, Point3::Y, Point3::Z, -Point3::X, -Point3::Z, Point3::new(1.0, 2.0, 2.0) / 3.0, Point3::new(-6.0, 2.0, 3.0) / 7.0] {
        let a = axis.any_orthogonal_vector().normalize();
        v.push((axis, a));
        v.push((axis, rodrigues(a, axis, 2.1)));
    }
    v
}
fn circle(cx: &mut Cx) -> Res {
    let (axis, ref_dir) = cx.of("frame", &frames());
    let r = cx.of("radius", &[1.0, 0.02, 52.5, 8000.0]);
    let center = cx.of("center", &[Point3::ZERO, Point3::new(212.25, -60.2, 5.25), Point3::new(-1.0e4, 3.0, 8.0e3)]);
    let c = Circle { center, radius: r, axis, ref_dir };
    let tau = std::f64::consts::TAU;
    let m = 1e-10 * (1.0 + center.length() + r);
    for i in 0..48 {
        let a = tau * i as f64 / 48.0 + if i % 2 == 1 { 0.01 } else { 0.0 };
        for turn in [0.0, -tau, tau] {
            let p = c.get_point(a + turn);
            let w = center + rodrigues(ref_dir, axis, a) * r;
            cx.check(near3(p, w, m), || format!("point at angle {} is {} instead of {}", a + turn, p, w))?;
        }
        for (k, h) in [(1.0, 0.0), (0.25, 0.0), (3.0, 0.0), (1.0, 2.0 * r), (2.0, -0.5 * r)] {
            let q = center + rodrigues(ref_dir, axis, a) * (r * k) + axis * h;
            let v = c.project(q);
            cx.observe_f(v);
            let diff = (v - a).abs();
            let tol = 1e-9 + 1e-14 * (center.length() + r * 4.0) / (r * k);
            cx.check(v >= 0.0 && v <= tau && (diff <= tol || (tau - diff).abs() <= tol), || format!("{} (angle {}) is projected to angle {}", q, a, v))?;
        }
    }
    // at the seam itself, where no rounding is involved, the angle is 0 and not a full turn
    if ref_dir.abs().max_element() == 1.0 && center == Point3::ZERO {
        let v = c.project(ref_dir * r);
        cx.check(v == 0.0, || format!("the point at angle 0 is projected to angle {}", v))?;
    }
    Ok(())
}
/// arcs from start to end point along / against the sense of the circle
fn arc_range(cx: &mut Cx) -> Res {
    let (axis, ref_dir) = frames()[cx.of("frame", &[4usize, 11, 0])];
    let c = Circle { center: Point3::new(1.0, 2.0, 3.0), radius: 2.5, axis, ref_dir };
    let off = cx.of("offset", &[0.003, 0.0]);
    let n = 24;
    let i = cx.num("start", n);
    let j = cx.num("end", n);
    let same = cx.flag("same sense");
    let tau = std::f64::consts::TAU;
    let ang = |i: usize| tau * i as f64 / n as f64 + off;
    let (p, q) = (c.get_point(ang(i)), c.get_point(ang(j)));
    let (a0, a1) = c.refine_parameter_range((c.project(p), c.project(q)), same);
    cx.observe_f(a1 - a0);
    cx.check(near3(c.get_point(a0), p, 1e-9) && near3(c.get_point(a1), q, 1e-9), || format!("range ({}, {}) does not run from start to end", a0, a1))?;
    let want = if same {
        if ang(j) > ang(i) { ang(j) - ang(i) } else { ang(j) - ang(i) + tau }
    } else if ang(j) < ang(i) {
        ang(j) - ang(i)
    } else {
        ang(j) - ang(i) - tau
    };
    cx.check(near(a1 - a0, want, 1e-9), || format!("range ({}, {}) sweeps {} instead of {}", a0, a1, a1 - a0, want))
}
/// angles several turns apart, as the trims of a file may be
fn turns(cx: &mut Cx) -> Res {
    let (axis, ref_dir) = frames()[cx.of("frame", &[4usize, 11, 0])];
    let c = Circle { center: Point3::new(1.0, 2.0, 3.0), radius: 2.5, axis, ref_dir };
    let tau = std::f64::consts::TAU;
    let angles = [0.0, 0.3, 1.0, std::f64::consts::PI, 4.0, 6.0];
    let a = cx.of("start", &angles) + tau * (cx.num("start turn", 5) as f64 - 2.0);
    let b = cx.of("end", &angles) + tau * (cx.num("end turn", 5) as f64 - 2.0);
    let same = cx.flag("same sense");
    let (a0, a1) = c.refine_parameter_range((a, b), same);
    cx.observe_f(a1 - a0);
    cx.check(near3(c.get_point(a0), c.get_point(a), 1e-9) && near3(c.get_point(a1), c.get_point(b), 1e-9), || format!("range ({}, {}) does not run from {} to {}", a0, a1, a, b))?;
    let sweep = if same { a1 - a0 } else { a0 - a1 };
    cx.check(sweep > 1e-6, || format!("angles {} to {} are refined to ({}, {}), which does not run in the requested sense", a, b, a0, a1))?;
    // less than a turn apart in the sense, or a full turn if they coincide
    let given = if same { b - a } else { a - b };
    let want = if given > 1e-6 { given } else { let r = given.rem_euclid(tau); if r < 1e-6 || r > tau - 1e-6 { tau } else { r } };
    let ok = near(sweep, want, 1e-9) || given > tau && (near(sweep, given.rem_euclid(tau), 1e-9) || near(sweep, tau, 1e-9));
    cx.check(ok, || format!("angles {} to {} are refined to ({}, {}), which sweeps {} instead of {}", a, b, a0, a1, sweep, want))
}
fn bez(cx: &mut Cx) -> Res {
    let p = 1 + cx.num("degree-1", if cx.thorough() { 8 } else { 6 });
    let kind = cx.num("shape", 6);
    let pl = cx.of("place", &PLACES);
    let c = place(shaped(kind, p + 1), pl);
    let b = BezierCurve { control_points: c.clone() };
    if cx.flag("off curve") {
        off_curve(cx, &b, &c, 0.0, 1.0, pl.0, 256)
    } else {
        on_curve(cx, &b, 0.0, 1.0, 96)
    }
}
/// curves which start or end, or run over an inner knot, with control points at the same place
fn stops(cx: &mut Cx) -> Res {
    let p = 2 + cx.num("degree-2", if cx.thorough() { 5 } else { 4 });
    let what = cx.of("curve", &["bezier", "one knot", "three knots"]);
    let inner: &[f64] = match what {
        "bezier" => &[],
        "one knot" => &[0.4],
        _ => &[0.2, 0.5, 0.9],
    };
    let kind = cx.num("shape", 6);
    let pl = cx.of("place", &PLACES);
    let mut c = place(shaped(kind, p + 1 + inner.len()), pl);
    let n = c.len();
    match cx.of("twice", &["first", "last", "both"]) {
        "first" => c[1] = c[0],
        "last" => c[n - 2] = c[n - 1],
        _ => {
            c[1] = c[0];
            c[n - 2] = c[n - 1];
        }
    }
    if what == "bezier" {
        return on_curve(cx, &BezierCurve { control_points: c }, 0.0, 1.0, 1999);
    }
    let mut t = vec![0.0; p + 1];
    t.extend(inner);
    t.extend(vec![1.0; p + 1]);
    on_curve(cx, &BSplineCurve { control_points: c, knots: KnotVector(t), degree: p as u8 }, 0.0, 1.0, 1999)
}
fn bsp(cx: &mut Cx) -> Res {
    let p = 1 + cx.num("degree-1", if cx.thorough() { 4 } else { 3 });
    let sp = cx.of("spacing", &[0usize, 1, 4]);
    let t = pick_knots(cx, p, if cx.thorough() && p < 4 { 3 } else { 2 }, Ends::Clamped, sp);
    if t.iter().any(|x| *x != t[0] && *x != t[t.len() - 1] && t.iter().filter(|y| *y == x).count() > p) {
        return cx.skip();
    }
    let kind = cx.num("shape", 6);
    let pl = cx.of("place", &PLACES[..2]);
    let c = place(shaped(kind, t.len() - p - 1), pl);
    let b = BSplineCurve { control_points: c.clone(), knots: KnotVector(t.clone()), degree: p as u8 };
    let (lo, hi) = b.knots.range();
    if cx.flag("off curve") {
        off_curve(cx, &b, &c, lo, hi, pl.0, 256)
    } else {
        on_curve(cx, &b, lo, hi, 80)
    }
}
/// unclamped curves, open or closed (the control points wrap around), on their domain
fn unclamped(cx: &mut Cx) -> Res {
    let p = 1 + cx.num("degree-1", if cx.thorough() { 4 } else { 3 });
    let spans = cx.of("spans", &[1usize, 2, 4, 7]);
    let closed = cx.flag("closed");
    let uneven = cx.flag("uneven");
    if closed && spans < 4 {
        return cx.skip();
    }
    let pl = cx.of("place", &PLACES[..2]);
    let n = spans + p;
    let mut c: Vec<Point3> = shaped(cx.num("shape", 6), if closed { spans } else { n });
    if closed {
        for i in 0..p {
            c.push(c[i]);
        }
    }
    let c = place(c, pl);
    // a period of the knots repeats, so that the closed curve closes
    let step = |i: usize| if uneven { [1.0, 0.5, 2.0, 1.5][(i % spans) % 4] } else { 1.0 };
    let mut t = vec![-1.25];
    for i in 0..n + p {
        t.push(t[i] + step(i));
    }
    let b = BSplineCurve { control_points: c.clone(), knots: KnotVector(t.clone()), degree: p as u8 };
    let (lo, hi) = (t[p], t[n]);
    if closed {
        cx.check(near3(b.get_point(lo), b.get_point(hi), 1e-9 * (1.0 + max_abs(&c))), || "the curve does not close".into())?;
        for same in [true, false] {
            for (x, y) in [(lo, lo), (lo, hi), (hi, lo), (hi, hi)] {
                let r = b.refine_parameter_range((x, y), same);
                cx.check(r == if same { (lo, hi) } else { (hi, lo) }, || format!("seam to seam ({}, {}) is {:?} (same sense: {})", x, y, r, same))?;
            }
            let mid = lo + (hi - lo) * 0.3;
            for x in [lo, hi] {
                let (r, w) = (b.refine_parameter_range((x, mid), same), b.refine_parameter_range((mid, x), same));
                cx.check(r == (if same { lo } else { hi }, mid) && w == (mid, if same { hi } else { lo }), || format!("half a closed curve is {:?} or {:?} (same sense: {})", r, w, same))?;
            }
        }
    }
    if cx.flag("off curve") {
        off_curve(cx, &b, &c, lo, hi, pl.0, 256)
    } else {
        on_curve(cx, &b, lo, hi, 80)
    }
}
/// every control polygon over a few positions: loops, cusps, repeated control points
fn any_polygon(cx: &mut Cx, n: usize, positions: usize) -> Vec<Point3> {
    let pos = [
        Point3::new(0.0, 0.0, 0.0),
        Point3::new(9.0, 8.0, 0.0),
        Point3::new(-9.0, 8.0, 0.0),
        Point3::new(2.0, -7.0, 4.0),
        Point3::new(0.5, 6.0, -3.0),
        Point3::new(-4.0, 0.0, 1.0),
    ];
    (0..n).map(|_| pos[cx.num("p", positions)]).collect()
}
fn all_directions(cx: &mut Cx, c: &dyn Curve, lo: f64, hi: f64) -> Res {
    let n = 128;
    let pts: Vec<Point3> = (0..=n).map(|i| c.get_point(lo + (hi - lo) * i as f64 / n as f64)).collect();
    for k in 0..12 {
        let q = Point3::new([0.0, 3.0, -7.0, 12.0][k % 4], [4.0, -2.0, 9.0][k % 3], [0.0, 1.0, -5.0, 2.0, 0.5][k % 5]);
        let v = c.project(q);
        cx.check(v >= lo && v <= hi, || format!("projection of {} is parameter {}, outside [{}, {}]", q, v, lo, hi))?;
        let got = c.get_point(v).distance(q);
        let best = pts.iter().map(|p| p.distance(q)).fold(f64::MAX, f64::min);
        cx.check(got <= best * 1.02 + EPS, || format!("{} is projected to {}, at distance {}, but a point is at {}", q, v, got, best))?;
    }
    Ok(())
}
fn bez_all(cx: &mut Cx) -> Res {
    let p = 2 + cx.num("degree-2", if cx.thorough() { 6 } else { 5 });
    let m = match (cx.thorough(), p) {
        (_, 2..=3) => 6,
        (true, 4) => 6,
        (false, 4) => 5,
        (true, 5) => 5,
        (false, 5) => 4,
        (true, 6) => 4,
        _ => 3,
    };
    let c = any_polygon(cx, p + 1, m);
    let b = BezierCurve { control_points: c };
    on_curve(cx, &b, 0.0, 1.0, 33)?;
    all_directions(cx, &b, 0.0, 1.0)
}
fn bsp_all(cx: &mut Cx) -> Res {
    let p = 1 + cx.num("degree-1", 3);
    let inner: Vec<f64> = cx.of("interior knots", &[vec![0.5], vec![0.1, 0.8], vec![0.4, 0.4]]);
    if inner.len() == 2 && inner[0] == inner[1] && p == 1 {
        return cx.skip();
    }
    let mut t = vec![0.0; p + 1];
    t.extend(&inner);
    t.extend(vec![1.0; p + 1]);
    let n = t.len() - p - 1;
    let m = if n <= 4 { 5 } else if cx.thorough() { 4 } else { 3 };
    let c = any_polygon(cx, n, m);
    let b = BSplineCurve { control_points: c, knots: KnotVector(t), degree: p as u8 };
    on_curve(cx, &b, 0.0, 1.0, 29)?;
    all_directions(cx, &b, 0.0, 1.0)
}
/// curves of degree 0: a point, or one point per span
fn constant(cx: &mut Cx) -> Res {
    let spans = cx.num("spans", 5);
    let pl = cx.of("place", &PLACES[..2]);
    let c = place(shaped(cx.num("shape", 6), spans.max(2)), pl);
    if spans == 0 {
        let b = BezierCurve { control_points: vec![c[0]] };
        on_curve(cx, &b, 0.0, 1.0, 7)?;
        return all_directions(cx, &b, 0.0, 1.0);
    }
    let (start, step) = cx.of("knots", &[(0.0, 1.0), (-3.0, 0.7)]);
    let t: Vec<f64> = (0..=spans).map(|i| start + step * i as f64).collect();
    let (lo, hi) = (t[0], t[spans]);
    let b = BSplineCurve { control_points: c[..spans].to_vec(), knots: KnotVector(t), degree: 0 };
    on_curve(cx, &b, lo, hi, 23)?;
    all_directions(cx, &b, lo, hi)
}
/// curves of many spans and high degree, polylines of many segments
fn long_curves(cx: &mut Cx) -> Res {
    let what = cx.of("curve", &["bezier", "bspline1", "bspline2", "bspline3", "bspline5", "polyline"]);
    let n = cx.of("control points", if cx.thorough() { &[7usize, 9, 12, 20, 33, 65, 130] } else { &[7usize, 9, 12, 20, 33, 65] });
    let shape = cx.of("shape", &["wave", "helix", "spiral", "walk", "arch"]);
    if what == "bezier" && n > 20 {
        return cx.skip();
    }
    let ctrl: Vec<Point3> = (0..n)
        .map(|i| {
            let x = i as f64;
            match shape {
                "wave" => Point3::new(2.0 * x, 5.0 * (0.9 * x).sin(), 0.3 * x),
                "helix" => Point3::new(6.0 * (0.6 * x).cos(), 6.0 * (0.6 * x).sin(), 1.2 * x),
                "spiral" => Point3::new((4.0 + x) * (0.5 * x).cos(), (4.0 + x) * (0.5 * x).sin(), 0.0),
                "walk" => Point3::new(3.0 * x + (i * 7 % 5) as f64, (i * 5 % 7) as f64 * 2.0, (i * 3 % 4) as f64),
                _ => { let a = 3.0 * x / n as f64; Point3::new(30.0 * a.cos(), 30.0 * a.sin(), 0.0) }
            }
        })
        .collect();
    let c: Box<dyn Curve> = match what {
        "bezier" => Box::new(BezierCurve { control_points: ctrl }),
        "polyline" => Box::new(Polyline::new(ctrl)),
        _ => {
            let p: usize = what[7..].parse().unwrap();
            Box::new(BSplineCurve { control_points: ctrl, knots: KnotVector::uniform_knot(p, n - p), degree: p as u8 })
        }
    };
    on_curve(cx, c.as_ref(), 0.0, 1.0, if n > 33 { 300 } else { 150 })?;
    all_directions(cx, c.as_ref(), 0.0, 1.0)
}
fn corner(k: usize) -> Point3 {
    [
        Point3::new(0.0, 0.0, 0.0),
        Point3::new(3.0, 0.0, 0.0),
        Point3::new(3.0, 4.0, 0.0),
        Point3::new(0.0, 4.0, 2.0),
        Point3::new(-1.0, 1.0, 5.0),
        Point3::new(1.5, 0.0, 0.0),
        Point3::new(0.25, -7.0, 1.0),
    ][k]
}
fn polyline_vertices(cx: &mut Cx, max: usize) -> Vec<Point3> {
    let n = 2 + cx.num("vertices-2", max - 1);
    (0..n).map(|_| corner(cx.num("v", 7))).collect()
}
fn poly_project(cx: &mut Cx) -> Res {
    let v = polyline_vertices(cx, if cx.thorough() { 5 } else { 4 });
    let l = Polyline::new(v.clone());
    let mut qs: Vec<Point3> = vec![];
    for k in 0..7 {
        qs.push(corner(k));
        qs.push(corner(k) + Point3::new(-2.0, -3.0, 1.0));
        qs.push((corner(k) + corner((k + 2) % 7)) * 0.5 + Point3::new(0.1, 0.2, -0.3));
    }
    for w in v.windows(2) {
        qs.push(w[0].lerp(w[1], 0.3));
        qs.push(w[0] + (w[0] - w[1]) * 0.5);
    }
    for q in qs {
        let t = l.project(q);
        cx.check(t >= 0.0 && t <= 1.0, || format!("{} is projected to {}", q, t))?;
        let got = l.get_point(t).distance(q);
        let mut best = f64::MAX;
        for w in v.windows(2) {
            let ab = w[1] - w[0];
            let s = if ab.length_squared() > 0.0 { ((q - w[0]).dot(ab) / ab.length_squared()).clamp(0.0, 1.0) } else { 0.0 };
            best = best.min((w[0] + ab * s).distance(q));
        }
        cx.observe_f(t);
        cx.check(near(got, best, 1e-9), || format!("{} is projected to {} at distance {}, nearest is {}", q, t, got, best))?;
    }
    Ok(())
}
pub fn c06() -> Prop {
    Prop {
        id: "C06",
        scenarios: vec![
            Scenario { name: "stops", run: stops },
            Scenario { name: "line", run: line },
            Scenario { name: "circle", run: circle },
            Scenario { name: "arc-range", run: arc_range },
            Scenario { name: "turns", run: turns },
            Scenario { name: "polyline", run: poly_project },
            Scenario { name: "polyline-mixed", run: poly_mixed_project },
            Scenario { name: "bezier", run: bez },
            Scenario { name: "bspline", run: bsp },
            Scenario { name: "unclamped", run: unclamped },
            Scenario { name: "bezier-all", run: bez_all },
            Scenario { name: "bspline-all", run: bsp_all },
            Scenario { name: "constant", run: constant },
            Scenario { name: "long", run: long_curves },
        ],
        rule: "every curve of the enumerated families x every query point of the enumerated families: points of the curve must come back to themselves, other points must not have a nearer sampled curve point; lines with non-unit directions, circles in every frame, every (start, end, sense) arc on a 24-grid, all polylines over 7 vertices including repeated and collinear ones, splines with every interior multiplicity; non-trivial: distinct parameters",
        bounds_quick: "polylines <=4 vertices, and <=4 segments of five lengths between 1e-6 and 1000; Bezier degree<=6 x 6 shapes x 3 placements; B-splines degree<=3, <=2 interior knots of multiplicity<=degree, 3 spacings; 81-97 on-curve points each, 2000 on curves with doubled end control points, 27 directions x 3 radii around every control point against 257 samples; every control polygon of degree 2-6 over 6..3 positions (loops, cusps, folds, repeated points) and of B-splines of degree 1-3 with 3 knot vectors over 5..3 positions, 30-34 points on and 12 off each; Bezier curves to degree 19, polylines and B-splines of up to 65 control points in 5 shapes",
        bounds_thorough: "polylines <=5 vertices; Bezier degree<=8; B-splines degree<=4, <=3 interior knots; all control polygons of degree 2-7",
        assumptions: vec!["answers within 1e-5 count as exact (the library stops once the squared distance or its slope is below 1e-7)", "off-curve answers may be up to 2% farther than the best sample (several local minima of nearly equal distance)", "unit, orthogonal circle frames"],
    }
}

// ------------------------------------------------------------------ C07
fn poly_eval(cx: &mut Cx) -> Res {
    let v = polyline_vertices(cx, if cx.thorough() { 6 } else { 5 });
    let size = cx.of("size", &[1.0, 1e-9, 1e9]);
    let v: Vec<Point3> = v.into_iter().map(|p| p * size).collect();
    let l = Polyline::new(v.clone());
    let seg: Vec<f64> = v.windows(2).map(|w| w[0].distance(w[1])).collect();
    let total: f64 = seg.iter().sum();
    cx.check(l.vertices == v && l.segment_lengths.len() == seg.len() && near(l.length, total, 1e-12 * (size + total)), || format!("length {} instead of {}", l.length, total))?;
    for (a, b) in l.segment_lengths.iter().zip(&seg) {
        cx.check(near(*a, *b, 1e-12 * (size + b)), || format!("segment lengths {:?} instead of {:?}", l.segment_lengths, seg))?;
    }
    cx.check(l.start() == v[0] && l.end() == v[v.len() - 1], || "start/end".into())?;
    for k in 0..7 {
        let q = (corner(k) + Point3::new(0.2, -0.1, 0.3)) * size;
        let i = l.nearest_vertex(q);
        let best = v.iter().map(|p| p.distance(q)).fold(f64::MAX, f64::min);
        cx.check(i < v.len() && near(v[i].distance(q), best, 1e-12 * size), || format!("nearest vertex to {} is {}", q, i))?;
    }
    let mut ts: Vec<f64> = (0..=16).map(|i| i as f64 / 16.0).collect();
    ts.extend([-1.0, 2.0, -0.0, 1e-12, 1.0 - 1e-12, down(1.0), 0.3, 0.7]);
    let mut acc = 0.0;
    for s in &seg {
        acc += s;
        if total > 0.0 {
            ts.extend([acc / total, acc / total - 1e-9, acc / total + 1e-9]);
        }
    }
    for t in ts {
        let got = l.get_point(t);
        let mut s = t.clamp(0.0, 1.0) * total;
        let mut want = v[0];
        for (i, len) in seg.iter().enumerate() {
            if s <= *len || i + 1 == seg.len() {
                want = if *len > 0.0 { v[i] + (v[i + 1] - v[i]) * (s / len).min(1.0) } else { v[i] };
                break;
            }
            s -= len;
        }
        cx.observe_f((got.x + got.y * 3.0 + got.z * 7.0) / size);
        cx.check(near3(got, want, 1e-8 * size), || format!("point at {} is {} instead of {}", t, got, want))?;
    }
    Ok(())
}
fn poly_long(cx: &mut Cx) -> Res {
    let n = cx.of("segments", &[1usize, 2, 7, 50, 1000, 70000]);
    let law = cx.of("law", &["uniform", "growing", "tenths", "pairs"]);
    let x = |i: usize| match law {
        "uniform" => i as f64,
        "growing" => (i as f64) * (i as f64) * 0.01,
        "tenths" => i as f64 * 0.1,
        _ => (i / 2) as f64, // every vertex doubled
    };
    let v: Vec<Point3> = (0..=n).map(|i| Point3::new(0.6 * x(i), -0.8 * x(i), 5.0)).collect();
    let l = Polyline::new(v);
    let total = x(n);
    cx.check(near(l.length, total, 1e-9 * (1.0 + total)), || format!("length {} instead of {}", l.length, total))?;
    for i in 0..=101 {
        let t = if i == 101 { down(1.0) } else { i as f64 / 100.0 };
        let got = l.get_point(t);
        let w = Point3::new(0.6 * total * t, -0.8 * total * t, 5.0);
        cx.observe_f(got.x);
        cx.check(near3(got, w, 1e-7 * (1.0 + total)), || format!("point at {} is {} instead of {}", t, got, w))?;
    }
    Ok(())
}
/// segments of very different lengths
fn poly_mixed(cx: &mut Cx) -> Res {
    let n = 1 + cx.num("segments-1", if cx.thorough() { 6 } else { 5 });
    let seg: Vec<f64> = (0..n).map(|_| cx.of("length", &[1.0e-6, 1.0e-4, 3.0e-4, 0.5, 1.0e3])).collect();
    let size = cx.of("size", &[1.0, 1e-6]);
    let seg: Vec<f64> = seg.iter().map(|s| s * size).collect();
    let turn = cx.flag("turning");
    let dirs = if turn { [Point3::new(0.6, 0.8, 0.0), Point3::new(0.0, 0.6, 0.8)] } else { [Point3::new(0.6, 0.0, -0.8); 2] };
    let mut v = vec![Point3::new(0.25, -0.5, 1.0) * size];
    for (i, s) in seg.iter().enumerate() {
        v.push(v[i] + dirs[i % 2] * *s);
    }
    let l = Polyline::new(v.clone());
    let total: f64 = seg.iter().sum();
    let rounding = 1e-12 * (size + total);
    cx.check(near(l.length, total, rounding), || format!("length {} instead of {}", l.length, total))?;
    cx.check(l.segment_lengths.len() == n && l.segment_lengths.iter().zip(&seg).all(|(a, b)| near(*a, *b, rounding)), || format!("segment lengths {:?} instead of {:?}", l.segment_lengths, seg))?;
    let mut acc = 0.0;
    for (i, s) in seg.iter().enumerate() {
        for f in [0.0, 0.25, 0.5, 0.9, 1.0] {
            let w = v[i] + dirs[i % 2] * (s * f);
            let t = (acc + s * f) / total;
            let got = l.get_point(t);
            cx.observe_f(got.x);
            cx.check(near3(got, w, 10.0 * rounding), || format!("point at {} is {} instead of {}", t, got, w))?;
        }
        acc += s;
    }
    Ok(())
}
/// the same ones are projected onto: a point of the polyline comes back to itself
fn poly_mixed_project(cx: &mut Cx) -> Res {
    let n = 1 + cx.num("segments-1", if cx.thorough() { 5 } else { 4 });
    let seg: Vec<f64> = (0..n).map(|_| cx.of("length", &[1.0e-6, 1.0e-4, 3.0e-4, 0.5, 1.0e3])).collect();
    let size = cx.of("size", &[1.0, 1e-6]);
    let seg: Vec<f64> = seg.iter().map(|s| s * size).collect();
    let d = [Point3::new(0.6, 0.8, 0.0), Point3::new(0.0, 0.6, 0.8)];
    let mut v = vec![Point3::new(0.25, -0.5, 1.0) * size];
    for (i, s) in seg.iter().enumerate() {
        v.push(v[i] + d[i % 2] * *s);
    }
    let l = Polyline::new(v.clone());
    let total: f64 = seg.iter().sum();
    for (i, s) in seg.iter().enumerate() {
        for f in [0.0, 0.3, 0.5, 1.0] {
            let q = v[i] + d[i % 2] * (s * f);
            let t = l.project(q);
            let got = l.get_point(t);
            cx.observe_f(t);
            cx.check(near3(got, q, 1e-11 * (size + total)), || format!("{} of the polyline is projected to {} at {}", q, got, t))?;
        }
    }
    Ok(())
}
pub fn c07() -> Prop {
    Prop {
        id: "C07",
        scenarios: vec![Scenario { name: "walk", run: poly_eval }, Scenario { name: "long", run: poly_long }, Scenario { name: "mixed", run: poly_mixed }],
        rule: "every vertex sequence over 7 positions (repeated, collinear, reversing, all-coincident included; every sequence of five segment lengths between 1e-6 and 1000; sizes 1e-9, 1 and 1e9) x 25+ parameters incl. every segment boundary and its neighbourhood, out-of-range and adjacent-to-1 values; compared with an independent arc-length walk; non-trivial: distinct points",
        bounds_quick: "<=5 vertices; mixed lengths <=5 segments; long polylines up to 70000 segments",
        bounds_thorough: "<=6 vertices; mixed lengths <=6 segments",
        assumptions: vec!["finite vertices"],
    }
}

// ------------------------------------------------------------------ C08
thread_local! { static COUNT: std::cell::Cell<u64> = const { std::cell::Cell::new(0) }; }
const DRAWS: [u64; 5] = [0, u64::MAX, 1 << 63, 1 << 62, 0xC000_0000_0000_0000];

/// the explorer answers the first draws one by one, the rest by one constant
pub fn adversary(cx: &mut Cx, depth: usize) {
    let mut seq = Vec::new();
    for _ in 0..depth {
        seq.push(DRAWS[cx.num("draw", DRAWS.len())]);
    }
    let rest = DRAWS[cx.num("rest", DRAWS.len())];
    let mut i = 0;
    COUNT.with(|c| c.set(0));
    rand::mc::install(Some(Box::new(move || {
        COUNT.with(|c| c.set(c.get() + 1));
        i += 1;
        seq.get(i - 1).copied().unwrap_or(rest)
    })));
}
#[derive(Debug)]
struct Parabola;
impl Curve for Parabola {
    fn get_point(&self, u: f64) -> Point3 {
        Point3::new(u, 0.25, 0.5 * u * u)
    }
    fn project(&self, p: Point3) -> f64 {
        p.x
    }
}
fn chain_ok(cx: &mut Cx, c: &dyn Curve, ps: &[f64], range: (f64, f64), tol: f64, convex: bool, min_pieces: usize, max_pieces: usize) -> Res {
    let n = ps.len();
    let sign = (range.1 - range.0).signum();
    for w in ps.windows(2) {
        cx.check((w[1] - w[0]) * sign > 0.0, || format!("parameters not strictly monotone: {} then {}", w[0], w[1]))?;
    }
    cx.check(n - 1 >= min_pieces && n - 1 <= max_pieces, || format!("{} pieces, expected {}..{}", n - 1, min_pieces, max_pieces))?;
    if convex {
        for w in ps.windows(2) {
            let (a, b) = (c.get_point(w[0]), c.get_point(w[1]));
            for j in 1..8 {
                let s = j as f64 / 8.0;
                let q = c.get_point(w[0] + (w[1] - w[0]) * s);
                let d = geom3d::utils::distance_to_line_segment(a, b, q);
                cx.check(d <= tol * 1.2, || format!("between parameters {} and {} the curve is {} from the chord, tolerance {}", w[0], w[1], d, tol))?;
            }
        }
    }
    Ok(())
}
fn sample_ok(cx: &mut Cx, c: Box<dyn Curve>, range: (f64, f64), tol: f64, convex: bool, min_pieces: usize, max_pieces: usize) -> Res {
    let ps = geom3d::utils::parameter_division(c.as_ref(), range, tol);
    let n = ps.len();
    cx.observe(&n);
    cx.check(n >= 2 && ps[0] == range.0 && ps[n - 1] == range.1, || format!("parameters run from {:?} to {:?} instead of {:?}", ps.first(), ps.last(), range))?;
    chain_ok(cx, c.as_ref(), &ps, range, tol, convex, min_pieces, max_pieces)?;
    // the segment's points are the curve points of such a division
    let seg = CurveSegment { curve: c, parameter_range: range, tolerance: tol, parameter_division: 16 };
    let pts = seg.get_points();
    cx.check(pts.len() >= 2, || format!("{} points", pts.len()))?;
    let (p0, p1) = (seg.curve.get_point(range.0), seg.curve.get_point(range.1));
    cx.check(near3(pts[0], p0, 1e-12 * (1.0 + p0.length())) && near3(pts[pts.len() - 1], p1, 1e-12 * (1.0 + p1.length())), || {
        format!("points run from {} to {} instead of {} to {}", pts[0], pts[pts.len() - 1], p0, p1)
    })?;
    // every point lies on the curve, in order: look along the dyadic subdivision of the range
    let d = 1usize << 13;
    let at = |k: usize| range.0 + (range.1 - range.0) * (k as f64 / d as f64);
    let mut k = 0;
    let mut us = Vec::new();
    for (i, p) in pts.iter().enumerate() {
        if i + 1 == pts.len() {
            us.push(range.1);
            break;
        }
        let from = k;
        while k <= d && seg.curve.get_point(at(k)).distance(*p) > 1e-9 * (1.0 + p.length()) {
            k += 1;
        }
        if k > d {
            k = from;
            match locate(seg.curve.as_ref(), range, *p) {
                Some(u) => us.push(u),
                None => return cx.fail(format!("sample point {} {} is not on the curve", i, p)),
            }
        } else {
            us.push(at(k));
            k += 1;
        }
    }
    chain_ok(cx, seg.curve.as_ref(), &us, range, tol, convex, min_pieces, max_pieces)
}
/// independent point location on the curve by dense scan and bisection on distance
fn locate(c: &dyn Curve, range: (f64, f64), p: Point3) -> Option<f64> {
    let n = 4096;
    let mut best = (f64::MAX, 0.0);
    for i in 0..=n {
        let u = range.0 + (range.1 - range.0) * i as f64 / n as f64;
        let d = c.get_point(u).distance(p);
        if d < best.0 {
            best = (d, u);
        }
    }
    let mut h = (range.1 - range.0).abs() / n as f64;
    for _ in 0..60 {
        for u in [best.1 - h, best.1 + h] {
            let d = c.get_point(u).distance(p);
            if d < best.0 {
                best = (d, u);
            }
        }
        h *= 0.7;
    }
    if best.0 <= 1e-6 * (1.0 + p.length()) { Some(best.1) } else { None }
}
fn sample_circle(cx: &mut Cx) -> Res {
    let tau = std::f64::consts::TAU;
    let sweep = cx.of("sweep", &[tau, 0.75 * tau, 0.5 * tau, 1.2, 0.3, 0.01]);
    let start = cx.of("start", &[0.0, 5.0]);
    let rev = cx.flag("reversed");
    let (r, tol): (f64, f64) = cx.of("radius/tolerance", &[(1.0, 0.1), (52.5, 0.5), (10.0, 0.01), (2.0, 1e-3)]);
    let f = cx.of("frame", &[0usize, 3, 5, 11]);
    adversary(cx, if cx.thorough() { 4 } else { 2 });
    let (axis, ref_dir) = frames()[f];
    let c = Circle { center: Point3::new(3.0, -2.0, 7.0), radius: r, axis, ref_dir };
    let range = if rev { (start + sweep, start) } else { (start, start + sweep) };
    // chord deviation r(1-cos(h/2)) must be <= tol (up to the 4% the test ratio gives away)
    let hmax = 2.0 * (1.0 - (tol * 1.2 / r).min(1.9)).acos();
    let min = ((sweep / hmax).ceil() as usize).max(1);
    // pieces are dyadic: at most 2 x what deviation tol/1.3 would need, rounded up to a power of 2
    let hmin = 2.0 * (1.0 - tol / 1.5 / r).acos();
    let max = ((sweep / hmin).ceil() as usize).next_power_of_two() * 2;
    let max = max.max(1);
    sample_ok(cx, Box::new(c), range, tol, true, min.min(max), max)
}
fn sample_flat(cx: &mut Cx) -> Res {
    // a straight piece needs exactly its two end points, whatever is drawn
    let tol = cx.of("tolerance", &[0.01, 1e-6, 0.5]);
    let d = cx.of("direction", &[Point3::X, Point3::new(0.0, 300.0, 4.0), Point3::new(-1.0, 2.0, 0.5)]);
    let range = cx.of("range", &[(0.0, 1.0), (3.0, -2.0), (-10.0, 45.5)]);
    let kind = cx.num("kind", 3);
    adversary(cx, 1);
    let o = Point3::new(10.0, 20.0, -5.0);
    let c: Box<dyn Curve> = match kind {
        0 => Box::new(Line { origin: o, direction: d }),
        1 => Box::new(BezierCurve { control_points: (0..4).map(|i| o + d * i as f64).collect::<Vec<_>>() }),
        _ => Box::new(BSplineCurve { control_points: vec![o, o + d], knots: KnotVector(vec![-10.0, -10.0, 45.5, 45.5]), degree: 1 }),
    };
    sample_ok(cx, c, range, tol, true, 1, 1)
}
fn sample_parabola(cx: &mut Cx) -> Res {
    let range: (f64, f64) = cx.of("range", &[(-1.0, 1.0), (0.0, 4.0), (3.0, -3.0), (-8.0, -2.0)]);
    let tol: f64 = cx.of("tolerance", &[0.2, 0.01, 0.001]);
    adversary(cx, if cx.thorough() { 5 } else { 4 });
    let w: f64 = (range.1 - range.0).abs();
    // |C(p) - chord(p)| = w^2/2 p(1-p); a piece of width h passes iff h^2/2 p(1-p) < tol, p in [.4,.6]
    let hmax = (2.0 * tol / 0.24).sqrt();
    let hmin = (2.0 * tol / 0.25).sqrt();
    let min = 1usize << (w / hmax).log2().ceil().max(0.0) as u32;
    let mut max = 1usize;
    while w / max as f64 >= hmin * (1.0 - 1e-12) {
        max *= 2;
    }
    sample_ok(cx, Box::new(Parabola), range, tol, true, min.min(max), max)
}
/// a parabola over a parameter of any unit
#[derive(Debug)]
struct Unit(f64, Point3);
impl Curve for Unit {
    fn get_point(&self, u: f64) -> Point3 {
        self.1 + Parabola.get_point(u * self.0)
    }
    fn project(&self, p: Point3) -> f64 {
        (p - self.1).x / self.0
    }
}
/// many pieces, tiny and huge radii, short and long parameter ranges
fn sample_fine(cx: &mut Cx) -> Res {
    let tau = std::f64::consts::TAU;
    let rev = cx.flag("reversed");
    if cx.flag("circle") {
        let mut list = vec![(1.0e4, 0.01, 0.008), (1.0e4, 1e-3, 0.002), (1.0e6, 0.05, 0.002), (3.0e5, 0.01, 0.9e-3), (1.0, 1e-6, tau), (2.0e-3, 1e-5, tau), (5.0e-4, 1e-5, 3.0), (700.0, 0.01, tau), (50.0, 1e-4, 5.0)];
        if cx.thorough() {
            list.extend([(1.0, 1e-8, tau), (2.0e5, 0.01, tau), (1.0e3, 1e-5, 6.0)]);
        }
        let (r, tol, sweep): (f64, f64, f64) = cx.of("radius/tolerance/sweep", &list);
        let start = cx.of("start", &[0.0, 3.0]);
        adversary(cx, 1);
        let (axis, ref_dir) = frames()[5];
        let c = Circle { center: Point3::new(3.0, -2.0, 7.0), radius: r, axis, ref_dir };
        let range = if rev { (start + sweep, start) } else { (start, start + sweep) };
        let hmax = 2.0 * (1.0 - (tol * 1.2 / r).min(1.9)).acos();
        let min = ((sweep / hmax).ceil() as usize).max(1);
        let hmin = 2.0 * (1.0 - tol / 1.5 / r).acos();
        let max = (((sweep / hmin).ceil() as usize).next_power_of_two() * 2).max(1);
        return sample_ok(cx, Box::new(c), range, tol, true, min.min(max), max);
    }
    let unit = cx.of("unit", &[1.0, 1e-4, 1e5, 30.0]);
    let (a, b): (f64, f64) = cx.of("range", &[(-1.0, 1.0), (-200.0, 300.0), (10.0, 10.5)]);
    let tol: f64 = cx.of("tolerance", if cx.thorough() { &[0.2, 0.01, 1e-6, 1e-7] } else { &[0.2, 0.01, 1e-5] });
    adversary(cx, 1);
    let w = (b - a).abs();
    if w / tol.sqrt() > 1.0e5 {
        return cx.skip();
    }
    let hmax = (2.0 * tol / 0.24).sqrt();
    let hmin = (2.0 * tol / 0.25).sqrt();
    let min = 1usize << (w / hmax * (1.0 - 1e-9)).log2().ceil().max(0.0) as u32;
    let mut max = 1usize;
    while w / max as f64 >= hmin * (1.0 - 1e-9) {
        max *= 2;
    }
    let range = if rev { (b / unit, a / unit) } else { (a / unit, b / unit) };
    sample_ok(cx, Box::new(Unit(unit, Point3::new(1.0, 40.0, -3.0))), range, tol, true, min.min(max), max)
}
fn sample_spline(cx: &mut Cx) -> Res {
    // general curves: exact ends, order, membership and termination for every draw
    let kind = cx.num("shape", 6);
    let what = cx.of("curve", &["bezier3", "bezier5", "bspline2", "bspline3", "polyline"]);
    let tol = cx.of("tolerance", &[0.5, 0.01]);
    let sub = cx.num("range", 3);
    adversary(cx, if cx.thorough() { 2 } else { 1 });
    let c: Box<dyn Curve> = match what {
        "bezier3" => Box::new(BezierCurve { control_points: shaped(kind, 4) }),
        "bezier5" => Box::new(BezierCurve { control_points: shaped(kind, 6) }),
        "bspline2" => Box::new(BSplineCurve { control_points: shaped(kind, 5), knots: KnotVector::uniform_knot(2, 3), degree: 2 }),
        "bspline3" => Box::new(BSplineCurve { control_points: shaped(kind, 6), knots: KnotVector::uniform_knot(3, 3), degree: 3 }),
        _ => Box::new(Polyline::new(shaped(kind, 4))),
    };
    let range = [(0.0, 1.0), (1.0, 0.0), (0.2, 0.7)][sub];
    sample_ok(cx, c, range, tol, false, 1, 1 << 14)
}
pub fn c08() -> Prop {
    Prop {
        id: "C08",
        scenarios: vec![
            Scenario { name: "circle", run: sample_circle },
            Scenario { name: "flat", run: sample_flat },
            Scenario { name: "parabola", run: sample_parabola },
            Scenario { name: "spline", run: sample_spline },
            Scenario { name: "fine", run: sample_fine },
        ],
        rule: "the explorer owns the random number generator: every sequence of draws over {min, max, 1/2, 1/4, 3/4} for the first k requests and every constant continuation; arcs in every sense, frame, sweep, radius and tolerance; for convex curves the chord deviation is checked between consecutive samples and the number of pieces against closed-form bounds; non-trivial: distinct numbers of pieces",
        bounds_quick: "k=2 draws (circle), 4 (parabola), 1 (flat, spline, fine) out of 5 values + 5 continuations; up to 8000 pieces; radii 5e-4 to 1e6, parameter units 1e-4 to 1e5",
        bounds_thorough: "k=4 (circle), 5 (parabola), 2 (spline)",
        assumptions: vec!["sampling deviation bound stated for convex curve pieces of at most one turn; tolerance slack 20% because the test point is up to 10% off the middle"],
    }
}

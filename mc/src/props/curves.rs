//! C03 Bezier curves, C04 B-spline curves.
use super::knots::*;
use super::Prop;
use crate::core::*;
use crate::geo::*;
use geom3d::curve::{BSplineCurve, BezierCurve, Curve};
use geom3d::{KnotVector, Point3, Point4};

/// control point alphabets: `unit k` makes point k the only non-zero one, so agreement for
/// every k is agreement for every control polygon (evaluation is linear in them)
#[derive(Clone, Debug)]
enum Ctrl {
    Unit(usize, f64),
    Generic(f64),
}
fn ctrl(cx: &mut Cx, n: usize) -> Vec<Point3> {
    let mut a: Vec<Ctrl> = (0..n).map(|k| Ctrl::Unit(k, 1.0)).collect();
    a.push(Ctrl::Generic(1.0));
    a.push(Ctrl::Generic(1.0e6));
    a.push(Ctrl::Generic(1.0e-6));
    match cx.of("control", &a) {
        Ctrl::Unit(k, s) => (0..n).map(|i| if i == k { Point3::new(s, -2.0 * s, 3.0 * s) } else { Point3::ZERO }).collect(),
        Ctrl::Generic(s) => generic_pts(n, s),
    }
}
fn weights(cx: &mut Cx, n: usize) -> Vec<f64> {
    let laws = ["equal", "ramp", "alternating", "spread", "scaled", "negated"];
    let l = cx.of("weights", &laws);
    (0..n)
        .map(|i| match l {
            "equal" => 1.0,
            "ramp" => 1.0 + i as f64 * 0.75,
            "alternating" => [0.5, 3.0][i % 2],
            "spread" => [1.0, 100.0, 0.01, 2.0][i % 4],
            "negated" => -0.5 - (i % 3) as f64,
            _ => 1.0e3 * (1.0 + (i % 3) as f64),
        })
        .collect()
}
fn homog(c: &[Point3], w: &[f64]) -> Vec<Point4> {
    c.iter().zip(w).map(|(p, w)| Point4::new(p.x * w, p.y * w, p.z * w, *w)).collect()
}

const US: [f64; 15] = [0.0, 1.0, 0.5, 0.25, 0.75, 0.1, 0.9, 1.0 / 3.0, 1.0e-9, 0.999999999, 0.6180339887, 0.0625, 0.4375, 0.875, 0.2];

fn scale_tol(c: &[Point3]) -> f64 {
    1e-10 * max_abs(c).max(1e-300)
}

fn bezier_eval(cx: &mut Cx) -> Res {
    let n = 1 + cx.num("degree", if cx.thorough() { 41 } else { 31 });
    let c = ctrl(cx, n);
    let b = BezierCurve { control_points: c.clone() };
    cx.check(b.degree() == n - 1, || format!("degree {}", b.degree()))?;
    let mut us = US.to_vec();
    // n distinct parameters in [0,1] decide the polynomial
    us.extend((0..n).map(|i| (i as f64 + 0.5) / n as f64));
    if n <= 8 {
        us.extend([-0.25, 1.25, -1.0, 2.0]);
    }
    for u in us {
        let got = b.get_point(u);
        let want = bezier3(&c, u);
        let tol = scale_tol(&c) * if (0.0..=1.0).contains(&u) { 1.0 } else { 1.0e4 };
        cx.observe_f(got.x);
        cx.check(near3(got, want, tol), || format!("at {}: {} instead of {}", u, got, want))?;
    }
    // interpolation of the end points is exact
    cx.check(near3(b.get_point(0.0), c[0], 1e-14 * max_abs(&c)) && near3(b.get_point(1.0), c[n - 1], 1e-14 * max_abs(&c)), || "end points not interpolated".into())
}
fn bezier_hull(cx: &mut Cx) -> Res {
    // every 0/1 control polygon: values stay within [0,1] (convex hull), for every coordinate
    let n = 2 + cx.num("degree-1", 7);
    let mut c = Vec::new();
    for _ in 0..n {
        let b = cx.num("bit", 2) as f64;
        c.push(Point3::new(b, 1.0 - b, 5.0));
    }
    let b = BezierCurve { control_points: c };
    for i in 0..=32 {
        let p = b.get_point(i as f64 / 32.0);
        cx.observe_f(p.x);
        let ok = |x: f64| x >= -1e-12 && x <= 1.0 + 1e-12;
        cx.check(ok(p.x) && ok(p.y) && near(p.z, 5.0, 1e-12), || format!("point {} leaves the hull at {}", p, i as f64 / 32.0))?;
    }
    Ok(())
}
fn bezier_deriv(cx: &mut Cx) -> Res {
    let n = 2 + cx.num("degree-1", if cx.thorough() { 24 } else { 16 });
    let c = ctrl(cx, n);
    let b = BezierCurve { control_points: c.clone() };
    let d = b.derivative();
    cx.check(d.control_points.len() == n - 1, || format!("derivative of degree {} has {} points", n - 1, d.control_points.len()))?;
    let deg = n - 1;
    let mut us = US.to_vec();
    us.extend((0..n).map(|i| (i as f64 + 0.25) / n as f64));
    for u in us {
        let got = d.get_point(u);
        // d/du B_{i,n} by the product rule on the closed form
        let mut want = Point3::ZERO;
        for i in 0..n {
            let (a, e) = (i as i32, (deg - i) as i32);
            let up = if a > 0 { a as f64 * u.powi(a - 1) * (1.0 - u).powi(e) } else { 0.0 };
            let dn = if e > 0 { e as f64 * u.powi(a) * (1.0 - u).powi(e - 1) } else { 0.0 };
            want += c[i] * (binom(deg, i) * (up - dn));
        }
        cx.observe_f(got.x);
        cx.check(near3(got, want, scale_tol(&c) * 100.0), || format!("derivative at {}: {} instead of {}", u, got, want))?;
    }
    if n >= 3 {
        let d2 = d.derivative();
        for u in [0.0, 0.25, 0.5, 1.0] {
            // second derivative against the symmetric second difference of the oracle (exact for
            // quadratics, otherwise against the derivative's own difference)
            let h = 1e-3;
            let want = (bezier3(&d.control_points, u + h) - bezier3(&d.control_points, u - h)) / (2.0 * h);
            let got = d2.get_point(u);
            let tol = max_abs(&c) * (deg * deg * deg) as f64 * 4.0e-6 * (deg * deg) as f64 * 10.0;
            cx.check(near3(got, want, tol), || format!("second derivative at {}: {} instead of {}", u, got, want))?;
        }
    }
    Ok(())
}
/// derivatives again and again, until nothing but zero is left
fn bezier_zero(cx: &mut Cx) -> Res {
    let n = 1 + cx.num("degree", 7);
    let c = ctrl(cx, n);
    let more = cx.num("more", 3);
    let mut b = BezierCurve { control_points: c.clone() };
    let mut f = 1.0;
    for k in 0..n - 1 {
        b = b.derivative();
        f *= (n - 1 - k) as f64;
    }
    // the last derivative before zero is the n-1st difference, times the factorial of the degree
    let last: Point3 = (0..n).map(|i| c[i] * (binom(n - 1, i) * if (n - 1 - i) % 2 == 0 { f } else { -f })).fold(Point3::ZERO, |a, b| a + b);
    let tol = scale_tol(&c) * f * 100.0;
    for u in US {
        let got = b.get_point(u);
        cx.check(near3(got, last, tol), || format!("derivative {} at {}: {} instead of {}", n - 1, u, got, last))?;
    }
    for k in 0..=more {
        b = b.derivative();
        for u in US {
            let got = b.get_point(u);
            cx.observe_f(got.x);
            cx.check(got == Point3::ZERO, || format!("derivative {} at {}: {} instead of zero", n + k, u, got))?;
        }
    }
    Ok(())
}
fn bezier_rational(cx: &mut Cx) -> Res {
    let n = 1 + cx.num("degree", if cx.thorough() { 16 } else { 10 });
    let c = ctrl(cx, n);
    let w = weights(cx, n);
    let b = BezierCurve { control_points: homog(&c, &w) };
    let mut us = US.to_vec();
    us.extend((0..2 * n).map(|i| (i as f64 + 0.5) / (2 * n) as f64));
    for u in us {
        let got = b.get_point(u);
        let mut s = Point3::ZERO;
        let mut ws = 0.0;
        for i in 0..n {
            s += c[i] * (w[i] * bern(n - 1, i, u));
            ws += w[i] * bern(n - 1, i, u);
        }
        let want = s / ws;
        cx.observe_f(got.x);
        cx.check(near3(got, want, scale_tol(&c)), || format!("rational point at {}: {} instead of {}", u, got, want))?;
    }
    // derivative of the homogeneous curve
    if n >= 2 {
        let d = b.derivative();
        cx.check(d.control_points.len() == n - 1, || "homogeneous derivative size".into())?;
        let h = homog(&c, &w);
        for i in 0..n - 1 {
            let want = (h[i + 1] - h[i]) * (n - 1) as f64;
            let e = (d.control_points[i] - want).abs();
            cx.check(e.max_element() <= 1e-9 * (1.0 + want.abs().max_element()), || format!("homogeneous derivative point {}", i))?;
        }
    }
    Ok(())
}
pub fn c03() -> Prop {
    Prop {
        id: "C03",
        scenarios: vec![
            Scenario { name: "evaluate", run: bezier_eval },
            Scenario { name: "hull", run: bezier_hull },
            Scenario { name: "derivative", run: bezier_deriv },
            Scenario { name: "vanishing", run: bezier_zero },
            Scenario { name: "rational", run: bezier_rational },
        ],
        rule: "every degree x every unit control polygon (linearity extends agreement to all polygons) plus generic polygons at three magnitudes; n distinct parameters decide a degree n-1 polynomial, so agreement there is agreement on the continuum; every 0/1 polygon for the hull; non-trivial: distinct coordinates observed",
        bounds_quick: "degree<=30 (derivative<=16, rational<=9, 6 weight laws), 15+n parameters incl. ends and outside [0,1] for degree<=7; all 0/1 polygons of degree<=7",
        bounds_thorough: "degree<=40 (derivative<=24, rational<=15)",
        assumptions: vec!["weights of one sign", "tolerance 1e-10 relative to the control polygon"],
    }
}

// ------------------------------------------------------------------ C04
fn bspline_eval(cx: &mut Cx) -> Res {
    let p = cx.num("degree", if cx.thorough() { 6 } else { 5 });
    let k = cx.num("spacing", SPACINGS.len());
    let max = match (cx.thorough(), p) {
        (false, 0..=2) => 3,
        (false, _) => 2,
        (true, 0..=3) => 3,
        (true, _) => 2,
    };
    let t = pick_knots(cx, p, max, Ends::Any, k);
    if t.len() < p + 2 {
        return cx.skip();
    }
    let n = t.len() - p - 1;
    let c = generic_pts(n, 1.0);
    let b = BSplineCurve { control_points: c.clone(), knots: KnotVector(t.clone()), degree: p as u8 };
    cx.check(b.degree() == p, || format!("degree {}", b.degree()))?;
    let us = probe_params(&t, p + 1);
    let d1 = if p >= 1 { Some(b.derivative()) } else { None };
    if let Some(d) = &d1 {
        cx.check(d.degree() == p - 1 && d.control_points.len() == n - 1 && d.knots.0 == t[1..t.len() - 1], || format!("derivative is {:?}", d))?;
    }
    let d2 = if p >= 2 { Some(d1.as_ref().unwrap().derivative()) } else { None };
    for &u in &us {
        let s = span_of(&t, u);
        let (mut w, mut w1, mut w2) = (Point3::ZERO, Point3::ZERO, Point3::ZERO);
        let (mut m1, mut m2) = (1.0f64, 1.0f64);
        for i in 0..n {
            let (a, e, f) = cdb_piece_dd(&t, i, p, s, u);
            w += c[i] * a;
            w1 += c[i] * e;
            w2 += c[i] * f;
            m1 = m1.max(e.abs());
            m2 = m2.max(f.abs());
        }
        let got = b.get_point(u);
        cx.observe_f(got.x);
        let m = max_abs(&c);
        cx.check(near3(got, w, 1e-9 * m), || format!("degree {} knots {:?} at {:e}: {} instead of {}", p, t, u, got, w))?;
        // the derivative is a curve over the domain [t_p, t_n] of the original
        if !(s >= p && s < n && u >= t[p] && u <= t[n]) {
            continue;
        }
        if let Some(d) = &d1 {
            let got = d.get_point(u);
            cx.check(near3(got, w1, 1e-8 * m * m1 + 1e-14 * max_abs(&d.control_points)), || format!("degree {} knots {:?} derivative at {:e}: {} instead of {}", p, t, u, got, w1))?;
        }
        if let Some(d) = &d2 {
            let got = d.get_point(u);
            cx.check(near3(got, w2, 1e-8 * m * m2 + 1e-14 * max_abs(&d.control_points)), || format!("degree {} knots {:?} second derivative at {:e}: {} instead of {}", p, t, u, got, w2))?;
        }
    }
    if t[0] == t[p] && t[n] == t[t.len() - 1] {
        let m = 1e-12 * max_abs(&c);
        cx.check(near3(b.get_point(t[0]), c[0], m) && near3(b.get_point(t[n]), c[n - 1], m), || format!("clamped curve {:?} misses its end control points", t))?;
    }
    Ok(())
}
/// derivatives again and again, until nothing but zero is left
fn bspline_zero(cx: &mut Cx) -> Res {
    let p = cx.num("degree", 5);
    let k = cx.num("spacing", SPACINGS.len());
    let t = pick_knots(cx, p, if cx.thorough() { 2 } else { 1 }, Ends::Any, k);
    if t.len() < 2 * p + 2 {
        return cx.skip();
    }
    let n = t.len() - p - 1;
    if t[p] >= t[n] {
        return cx.skip();
    }
    let more = cx.num("more", 3);
    let mut b = BSplineCurve { control_points: generic_pts(n, 1.0), knots: KnotVector(t.clone()), degree: p as u8 };
    for _ in 0..p {
        b = b.derivative();
    }
    let us = probe_params(&t, 2);
    // constant within every span
    for w in t[p..=n].windows(2).filter(|w| w[0] < w[1]) {
        let at = |f: f64| b.get_point(w[0] + (w[1] - w[0]) * f);
        let m = max_abs(&b.control_points);
        cx.check(near3(at(0.1), at(0.9), 1e-12 * m), || format!("degree {} knots {:?}: derivative {} is {} and {} on {:?}", p, t, p, at(0.1), at(0.9), w))?;
    }
    for k in 0..=more {
        b = b.derivative();
        for &u in us.iter().filter(|&&u| u >= t[p] && u <= t[n]) {
            let got = b.get_point(u);
            cx.observe_f(u);
            cx.check(got == Point3::ZERO, || format!("degree {} knots {:?} derivative {} at {:e}: {} instead of zero", p, t, p + 1 + k, u, got))?;
        }
    }
    Ok(())
}
/// many spans and high degrees
fn bspline_large(cx: &mut Cx) -> Res {
    let p = 1 + cx.num("degree-1", 9);
    let n = cx.of("spans", if cx.thorough() { &[1usize, 2, 3, 9, 17, 33, 65, 130, 257, 300, 1030] } else { &[1usize, 3, 9, 33, 65, 257, 300] });
    let law = cx.of("knots", &["even", "growing", "repeated", "shifted", "unclamped"]);
    let mut t: Vec<f64> = Vec::new();
    let at = |i: usize| match law {
        "growing" => (1.0 + 0.5 * i as f64) * i as f64,
        "shifted" => -700.0 + 0.3 * i as f64,
        _ => i as f64,
    };
    for i in 0..=n {
        let m = if i == 0 || i == n { if law == "unclamped" { 1 } else { p + 1 } } else if law == "repeated" { 1 + i % p } else { 1 };
        t.extend(std::iter::repeat(at(i)).take(m));
    }
    if t.len() < 2 * p + 2 {
        return cx.skip();
    }
    let m = t.len() - p - 1;
    let c = generic_pts(m, 1.0);
    let b = BSplineCurve { control_points: c.clone(), knots: KnotVector(t.clone()), degree: p as u8 };
    let d = b.derivative();
    cx.check(d.control_points.len() == m - 1 && d.degree() == p - 1, || "derivative size".into())?;
    let step = (n / 24).max(1);
    for (k, w) in t.windows(2).enumerate().filter(|x| x.1[0] < x.1[1] && x.0 >= p && x.0 < m).map(|x| (x.0, [x.1[0], x.1[1]])) {
        if (k - p) % step != 0 && k + 3 < m {
            continue;
        }
        for f in [0.0, 0.3, 0.8] {
            let u = w[0] + (w[1] - w[0]) * f;
            let (mut x, mut y, mut s) = (Point3::ZERO, Point3::ZERO, 1.0f64);
            for i in k - p..=k {
                let (a, e) = cdb_piece_d(&t, i, p, k, u);
                x += c[i] * a;
                y += c[i] * e;
                s = s.max(e.abs());
            }
            let tol = 1e-9 * max_abs(&c);
            let (g, h) = (b.get_point(u), d.get_point(u));
            cx.observe_f(g.x);
            cx.check(near3(g, x, tol), || format!("at {}: {} instead of {}", u, g, x))?;
            cx.check(near3(h, y, tol * 10.0 * s), || format!("derivative at {}: {} instead of {}", u, h, y))?;
        }
    }
    if law != "unclamped" {
        let m1 = 1e-12 * max_abs(&c);
        cx.check(near3(b.get_point(t[0]), c[0], m1) && near3(b.get_point(t[t.len() - 1]), c[m - 1], m1), || "end control points".into())?;
    }
    Ok(())
}
fn bspline_linear(cx: &mut Cx) -> Res {
    // every unit control polygon and magnitudes: locality and linearity
    let p = cx.num("degree", 6);
    let n = p + 1 + cx.num("extra points", if cx.thorough() { 12 } else { 7 });
    let t = KnotVector::uniform_knot(p, n - p).0;
    let c = ctrl(cx, n);
    let b = BSplineCurve { control_points: c.clone(), knots: KnotVector(t.clone()), degree: p as u8 };
    for &u in &probe_params(&t, p + 1) {
        let s = span_of(&t, u);
        let want = bspline3_piece(&t, p, &c, s, u);
        let got = b.get_point(u);
        cx.observe_f(got.x);
        cx.check(near3(got, want, 1e-10 * max_abs(&c)), || format!("degree {} at {:e}: {} instead of {}", p, u, got, want))?;
    }
    Ok(())
}
fn bspline_rational(cx: &mut Cx) -> Res {
    let p = 1 + cx.num("degree-1", if cx.thorough() { 4 } else { 3 });
    let k = cx.num("spacing", SPACINGS.len());
    let max = if cx.thorough() && p < 4 { 3 } else { 2 };
    let t = pick_knots(cx, p, max, Ends::Clamped, k);
    let n = t.len() - p - 1;
    let c = generic_pts(n, 1.0);
    let w = weights(cx, n);
    let h = homog(&c, &w);
    let b = BSplineCurve { control_points: h.clone(), knots: KnotVector(t.clone()), degree: p as u8 };
    for &u in &probe_params(&t, 2 * p + 1) {
        let s = span_of(&t, u);
        let mut q = Point3::ZERO;
        let mut ws = 0.0;
        for i in 0..n {
            let a = cdb_piece(&t, i, p, s, u);
            q += c[i] * (a * w[i]);
            ws += a * w[i];
        }
        let want = q / ws;
        let got = b.get_point(u);
        cx.observe_f(got.x);
        cx.check(near3(got, want, 1e-9 * max_abs(&c)), || format!("rational degree {} knots {:?} weights {:?} at {:e}: {} instead of {}", p, t, w, u, got, want))?;
    }
    let d = b.derivative();
    for i in 0..n - 1 {
        let span = t[i + p + 1] - t[i + 1];
        let want = if span > 0.0 { (h[i + 1] - h[i]) * (p as f64 / span) } else { Point4::ZERO };
        let e = (d.control_points[i] - want).abs();
        cx.check(e.max_element() <= 1e-9 * (1.0 + want.abs().max_element()), || format!("homogeneous derivative point {} of {:?}", i, t))?;
    }
    Ok(())
}
/// circles as rational quadratics: an independent ground truth for weights
fn conic(cx: &mut Cx) -> Res {
    let half = cx.of("half angle", &[0.1, 0.5, 0.7853981633974483, 1.0, 1.5]);
    let r = cx.of("radius", &[1.0, 0.001, 5000.0]);
    let (s, c) = f64::sin_cos(half);
    let pts = [Point3::new(r * c, -r * s, 0.0), Point3::new(r / c, 0.0, 0.0), Point3::new(r * c, r * s, 0.0)];
    let h = homog(&pts, &[1.0, c, 1.0]);
    let b = BezierCurve { control_points: h.clone() };
    let a = BSplineCurve { control_points: h, knots: KnotVector::bezier_knot(2), degree: 2 };
    for i in 0..=64 {
        let u = i as f64 / 64.0;
        for p in [b.get_point(u), a.get_point(u)] {
            cx.observe_f(p.y);
            cx.check(near(p.length(), r, 1e-11 * r) && near(p.z, 0.0, 1e-12 * r), || format!("conic arc point {} is not on the circle of radius {}", p, r))?;
        }
    }
    Ok(())
}
pub fn c04() -> Prop {
    Prop {
        id: "C04",
        scenarios: vec![
            Scenario { name: "evaluate", run: bspline_eval },
            Scenario { name: "vanishing", run: bspline_zero },
            Scenario { name: "linear", run: bspline_linear },
            Scenario { name: "large", run: bspline_large },
            Scenario { name: "rational", run: bspline_rational },
            Scenario { name: "conic", run: conic },
        ],
        rule: "every end/interior multiplicity pattern x spacing law x degree, every unit control polygon for uniform vectors; point, first and second derivative compared with the (differentiated) Cox-de Boor pieces at p+1 points of every span, every knot and adjacent floats; non-trivial: distinct coordinates observed",
        bounds_quick: "degree<=4, <=3 interior knots (2 for degree>=3), 6 spacings; rational clamped degree<=3, 6 weight laws; degree<=9 x up to 300 spans x 5 knot laws",
        bounds_thorough: "degree<=5, <=3 interior knots up to degree 3; rational degree<=4; up to 1030 spans",
        assumptions: vec!["weights of one sign", "derivatives compared on the curve's domain [t_p, t_n]"],
    }
}

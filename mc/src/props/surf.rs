//! C09 tensor-product surfaces, C10 analytic surfaces, C11 patch tessellation.
use super::knots::*;
use super::project::{frames, shaped};
use super::Prop;
use crate::core::*;
use crate::geo::*;
use geom3d::curve::*;
use geom3d::surface::*;
use geom3d::{Face, Grid, KnotVector, Point2, Point3, Point4, TriangleMesh};

pub fn net(n: usize, m: usize, scale: f64) -> Vec<Point3> {
    (0..n * m)
        .map(|k| {
            let (i, j) = (k / m, k % m);
            let g = generic(k * 3 + 1);
            Point3::new(i as f64 * 2.0 + 0.1 * g.x % 1.0, j as f64 * 3.0 + 0.05 * g.y, 0.4 * g.z + 0.3 * (i * j) as f64) * scale
        })
        .collect()
}
fn net_ctrl(cx: &mut Cx, n: usize, m: usize) -> Vec<Point3> {
    let k = cx.num("control", n * m + 3);
    if k < n * m {
        (0..n * m).map(|i| if i == k { Point3::new(1.0, -2.0, 3.0) } else { Point3::ZERO }).collect()
    } else {
        net(n, m, [1.0, 1.0e5, 1.0e-5][k - n * m])
    }
}
fn wts(cx: &mut Cx, n: usize) -> Vec<f64> {
    let l = cx.of("weights", &["equal", "ramp", "alternating", "spread", "negated"]);
    (0..n)
        .map(|i| match l {
            "equal" => 1.0,
            "ramp" => 1.0 + 0.5 * i as f64,
            "alternating" => [0.5, 3.0, 1.0][i % 3],
            "negated" => -0.5 - (i % 3) as f64,
            _ => [1.0, 50.0, 0.02, 2.0, 7.0][i % 5],
        })
        .collect()
}
fn homog(c: &[Point3], w: &[f64]) -> Vec<Point4> {
    c.iter().zip(w).map(|(p, w)| Point4::new(p.x * w, p.y * w, p.z * w, *w)).collect()
}
const UV: [f64; 8] = [0.0, 1.0, 0.5, 0.125, 0.8, 1.0 / 3.0, 0.999, 0.61];

fn bezier_surface(cx: &mut Cx) -> Res {
    let top = if cx.thorough() { 7 } else { 5 };
    let n = 2 + cx.num("rows-2", top);
    let m = 2 + cx.num("cols-2", top);
    let c = net_ctrl(cx, n, m);
    let tol = 1e-10 * max_abs(&c);
    let s = BezierSurface::new(Grid::from_vec(c.clone(), m));
    let w = wts(cx, n * m);
    let r = BezierSurface::new(Grid::from_vec(homog(&c, &w), m));
    let mut us = UV.to_vec();
    us.extend((0..n).map(|i| (i as f64 + 0.5) / n as f64));
    let mut vs = UV.to_vec();
    vs.extend((0..m).map(|i| (i as f64 + 0.5) / m as f64));
    for &u in &us {
        for &v in &vs {
            let (mut p, mut q, mut ws) = (Point3::ZERO, Point3::ZERO, 0.0);
            for i in 0..n {
                for j in 0..m {
                    let b = bern(n - 1, i, u) * bern(m - 1, j, v);
                    p += c[i * m + j] * b;
                    q += c[i * m + j] * (b * w[i * m + j]);
                    ws += b * w[i * m + j];
                }
            }
            let got = s.get_point(u, v);
            cx.observe_f(got.x);
            cx.check(near3(got, p, tol), || format!("Bezier surface at ({}, {}): {} instead of {}", u, v, got, p))?;
            let got = r.get_point(u, v);
            cx.check(near3(got, q / ws, tol * 10.0), || format!("rational Bezier surface at ({}, {}): {} instead of {}", u, v, got, q / ws))?;
        }
    }
    Ok(())
}
fn bspline_surface(cx: &mut Cx) -> Res {
    let p = cx.num("p", 4);
    let q = cx.num("q", 4);
    let deep = cx.thorough() && p + q <= 3;
    let su = cx.of("u spacing", &[0usize, 1, 4]);
    let sv = cx.of("v spacing", &[1usize, 0]);
    let tu = pick_knots(cx, p, if deep { 2 } else { 1 }, if p <= 1 || (cx.thorough() && p <= 2) { Ends::Any } else { Ends::Clamped }, su);
    let tv = pick_knots(cx, q, 1, if q <= 1 { Ends::Any } else { Ends::Clamped }, sv);
    if tu.len() < p + 2 || tv.len() < q + 2 {
        return cx.skip();
    }
    let (n, m) = (tu.len() - p - 1, tv.len() - q - 1);
    let c = net(n, m, 1.0);
    let s = BSplineSurface::new(Grid::from_vec(c.clone(), m), (KnotVector(tu.clone()), KnotVector(tv.clone())), (p, q));
    let w: Vec<f64> = (0..n * m).map(|i| [1.0, 2.5, 0.4, 3.0, 0.75, 1.0, 6.0][i % 7]).collect();
    let r = BSplineSurface::new(Grid::from_vec(homog(&c, &w), m), (KnotVector(tu.clone()), KnotVector(tv.clone())), (p, q));
    let du = if p > 0 && n > 1 { Some(s.derivative_u()) } else { None };
    let dv = if q > 0 && m > 1 { Some(s.derivative_v()) } else { None };
    let us = probe_params(&tu, p + 1);
    let vs = probe_params(&tv, q + 1);
    let b: Vec<Vec<(f64, f64)>> = us.iter().map(|&u| (0..n).map(|i| cdb_piece_d(&tu, i, p, span_of(&tu, u), u)).collect()).collect();
    let d: Vec<Vec<(f64, f64)>> = vs.iter().map(|&v| (0..m).map(|j| cdb_piece_d(&tv, j, q, span_of(&tv, v), v)).collect()).collect();
    let tol = 1e-9 * max_abs(&c);
    let clamped = |t: &[f64], p: usize, n: usize| t[0] == t[p] && t[n] == t[t.len() - 1];
    for (a, &u) in us.iter().enumerate() {
        for (e, &v) in vs.iter().enumerate() {
            let (mut w0, mut wu, mut wv, mut num, mut den) = (Point3::ZERO, Point3::ZERO, Point3::ZERO, Point3::ZERO, 0.0);
            let (mut mu, mut mv) = (1.0f64, 1.0f64);
            for i in 0..n {
                for j in 0..m {
                    let (x, dx) = b[a][i];
                    let (y, dy) = d[e][j];
                    let k = i * m + j;
                    w0 += c[k] * (x * y);
                    wu += c[k] * (dx * y);
                    wv += c[k] * (x * dy);
                    num += c[k] * (x * y * w[k]);
                    den += x * y * w[k];
                    mu = mu.max(dx.abs());
                    mv = mv.max(dy.abs());
                }
            }
            let got = s.get_point(u, v);
            cx.observe_f(got.z);
            cx.check(near3(got, w0, tol), || format!("({}, {}) degree {:?} knots {:?} {:?}: {} instead of {}", u, v, (p, q), tu, tv, got, w0))?;
            let inu = u >= tu[p] && u <= tu[n] && (p..n).contains(&span_of(&tu, u));
            let inv = v >= tv[q] && v <= tv[m] && (q..m).contains(&span_of(&tv, v));
            if inu && inv {
                let got = r.get_point(u, v);
                cx.check(near3(got, num / den, tol * 10.0), || format!("rational ({}, {}) degree {:?} knots {:?} {:?}: {} instead of {}", u, v, (p, q), tu, tv, got, num / den))?;
                if let Some(x) = &du {
                    let got = x.get_point(u, v);
                    cx.check(near3(got, wu, tol * 10.0 * mu), || format!("u-derivative at ({}, {}) degree {:?} knots {:?} {:?}: {} instead of {}", u, v, (p, q), tu, tv, got, wu))?;
                }
                if let Some(x) = &dv {
                    let got = x.get_point(u, v);
                    cx.check(near3(got, wv, tol * 10.0 * mv), || format!("v-derivative at ({}, {}) degree {:?} knots {:?} {:?}: {} instead of {}", u, v, (p, q), tu, tv, got, wv))?;
                }
                let un = wu.cross(wv);
                if p > 0 && q > 0 && clamped(&tu, p, n) && clamped(&tv, q, m) && un.length() > 1e-6 {
                    let ns = s.get_normals(&[Point2::new(u, v), Point2::new(us[0], vs[0]), Point2::new(u, v)]);
                    let want = un.normalize();
                    cx.check(ns.len() == 3 && near3(ns[0], want, 1e-6) && near3(ns[2], want, 1e-6), || format!("normals at ({}, {}): {:?} instead of {}", u, v, ns, want))?;
                }
            }
        }
    }
    if let Some(x) = &du {
        cx.check(x.degree == (p as u8 - 1, q as u8) && x.control_points.size() == (n - 1, m), || format!("u-derivative has degree {:?}, net {:?}", x.degree, x.control_points.size()))?;
    }
    if let Some(x) = &dv {
        cx.check(x.degree == (p as u8, q as u8 - 1) && x.control_points.size() == (n, m - 1), || format!("v-derivative has degree {:?}, net {:?}", x.degree, x.control_points.size()))?;
    }
    Ok(())
}
/// unit control nets on uniform clamped surfaces, second and mixed derivatives
fn uniform(cx: &mut Cx) -> Res {
    let p = cx.num("p", 4);
    let q = cx.num("q", 4);
    let n = p + 1 + cx.num("extra rows", 3);
    let m = q + 1 + cx.num("extra cols", 3);
    let c = net_ctrl(cx, n, m);
    let s = BSplineSurface::uniform_clamped(Grid::from_vec(c.clone(), m), (p, q));
    let tu = KnotVector::uniform_knot(p, n - p).0;
    let tv = KnotVector::uniform_knot(q, m - q).0;
    cx.check(s.degree == (p as u8, q as u8) && s.knots.0.len() == tu.len() && s.knots.1.len() == tv.len(), || format!("uniform clamped surface has knots {:?}", s.knots))?;
    for (x, y) in s.knots.0.iter().zip(&tu).chain(s.knots.1.iter().zip(&tv)) {
        cx.check(near(*x, *y, 1e-14), || format!("uniform clamped surface has knots {:?}", s.knots))?;
    }
    let (du, dv) = (s.derivative_u(), s.derivative_v());
    let (duu, dvv) = (du.derivative_u(), dv.derivative_v());
    let (duv, dvu) = (du.derivative_v(), dv.derivative_u());
    let tol = 1e-9 * max_abs(&c);
    let us = [0.0, 0.13, 0.5, 0.77, 1.0];
    for &u in &us {
        for &v in &us {
            let mut w = [Point3::ZERO; 6];
            for i in 0..n {
                let a = cdb_piece_dd(&tu, i, p, span_of(&tu, u), u);
                for j in 0..m {
                    let b = cdb_piece_dd(&tv, j, q, span_of(&tv, v), v);
                    let k = c[i * m + j];
                    w[0] += k * (a.0 * b.0);
                    w[1] += k * (a.1 * b.0);
                    w[2] += k * (a.0 * b.1);
                    w[3] += k * (a.2 * b.0);
                    w[4] += k * (a.0 * b.2);
                    w[5] += k * (a.1 * b.1);
                }
            }
            let got = [s.get_point(u, v), du.get_point(u, v), dv.get_point(u, v), duu.get_point(u, v), dvv.get_point(u, v), duv.get_point(u, v), dvu.get_point(u, v)];
            cx.observe_f(got[0].x);
            for k in 0..7 {
                let want = w[k.min(5)];
                cx.check(near3(got[k], want, tol * 1000.0), || {
                    format!("{} at ({}, {}), degree ({}, {}), net {}x{}: {} instead of {}", ["S", "Su", "Sv", "Suu", "Svv", "Suv", "Svu"][k], u, v, p, q, n, m, got[k], want)
                })?;
            }
        }
    }
    Ok(())
}
/// wide nets: every pairing of two sizes, and weights that differ by a common factor only
fn bezier_large(cx: &mut Cx) -> Res {
    let sizes: &[usize] = if cx.thorough() { &[2, 3, 6, 9, 12, 17, 25] } else { &[2, 5, 9, 12, 17] };
    let n = cx.of("rows", sizes);
    let m = cx.of("cols", sizes);
    let f = cx.of("common factor", &[1.0, 1.0e6, 1.0e-6]);
    let w: Vec<f64> = wts(cx, n * m).iter().map(|x| x * f).collect();
    let c = net(n, m, 1.0);
    let s = BezierSurface::new(Grid::from_vec(c.clone(), m));
    let r = BezierSurface::new(Grid::from_vec(homog(&c, &w), m));
    let tol = 1e-10 * max_abs(&c);
    let mut ts = UV.to_vec();
    ts.extend((0..5).map(|i| 0.07 + 0.2 * i as f64));
    for &u in &ts {
        let bu: Vec<f64> = (0..n).map(|i| bern(n - 1, i, u)).collect();
        for &v in &ts {
            let bv: Vec<f64> = (0..m).map(|j| bern(m - 1, j, v)).collect();
            let (mut p, mut q, mut ws) = (Point3::ZERO, Point3::ZERO, 0.0);
            for i in 0..n {
                for j in 0..m {
                    let b = bu[i] * bv[j];
                    p += c[i * m + j] * b;
                    q += c[i * m + j] * (b * w[i * m + j]);
                    ws += b * w[i * m + j];
                }
            }
            let (g, h) = (s.get_point(u, v), r.get_point(u, v));
            cx.observe_f(g.x);
            cx.check(near3(g, p, tol), || format!("Bezier surface at ({}, {}): {} instead of {}", u, v, g, p))?;
            cx.check(near3(h, q / ws, tol * 10.0), || format!("rational Bezier surface at ({}, {}): {} instead of {}", u, v, h, q / ws))?;
        }
    }
    let last = [c[0], c[m - 1], c[(n - 1) * m], c[n * m - 1]];
    for (k, (u, v)) in [(0.0, 0.0), (0.0, 1.0), (1.0, 0.0), (1.0, 1.0)].into_iter().enumerate() {
        cx.check(near3(s.get_point(u, v), last[k], tol) && near3(r.get_point(u, v), last[k], tol), || format!("corner ({}, {})", u, v))?;
    }
    Ok(())
}
/// knots over `spans` intervals
fn long_knots(law: &str, p: usize, spans: usize) -> Vec<f64> {
    let at = |i: usize| match law {
        "growing" => (1.0 + 0.5 * i as f64) * i as f64,
        "shifted" => -700.0 + 0.3 * i as f64,
        "tight" => i as f64 * 1.0e-7,
        _ => i as f64,
    };
    let mut t = Vec::new();
    for i in 0..=spans {
        let m = if i == 0 || i == spans { if law == "unclamped" { 1 } else { p + 1 } } else if law == "repeated" { 1 + i % p.max(1) } else if law == "broken" && i % 3 == 1 { p + 1 } else { 1 };
        t.extend(std::iter::repeat(at(i)).take(m));
    }
    t
}
/// non-zero basis functions of degree p at u, with first and second derivatives
fn pieces(t: &[f64], p: usize, u: f64) -> Option<(usize, Vec<(f64, f64, f64)>)> {
    let s = span_of(t, u);
    if s < p || s + p + 1 >= t.len() {
        return None;
    }
    Some((s - p, (s - p..=s).map(|i| cdb_piece_dd(t, i, p, s, u)).collect()))
}
fn bspline_large(cx: &mut Cx) -> Res {
    let degrees = [(1usize, 1usize), (3, 3), (5, 2), (2, 5), (7, 1), (1, 7), (6, 4), (4, 6), (7, 5), (0, 4), (3, 0), (9, 3)];
    let (p, q) = cx.of("degrees", &degrees);
    let spans: &[usize] = if cx.thorough() { &[1, 2, 5, 9, 14, 26] } else { &[1, 5, 13] };
    let laws = ["even", "growing", "repeated", "broken", "shifted", "tight", "unclamped"];
    let tu = long_knots(cx.of("u knots", &laws), p, cx.of("u spans", spans));
    let tv = long_knots(cx.of("v knots", &laws), q, cx.of("v spans", spans));
    if tu.len() < 2 * p + 2 || tv.len() < 2 * q + 2 {
        return cx.skip();
    }
    let (n, m) = (tu.len() - p - 1, tv.len() - q - 1);
    let c = net(n, m, 1.0);
    let f = [1.0, 1.0e5, 1.0e-5][(n + 2 * m) % 3];
    let w: Vec<f64> = (0..n * m).map(|i| f * [1.0, 2.5, 0.4, 3.0, 0.75, 1.0, 6.0][i % 7]).collect();
    let knots = || (KnotVector(tu.clone()), KnotVector(tv.clone()));
    let s = BSplineSurface::new(Grid::from_vec(c.clone(), m), knots(), (p, q));
    let r = BSplineSurface::new(Grid::from_vec(homog(&c, &w), m), knots(), (p, q));
    let (du, dv) = (s.derivative_u(), s.derivative_v());
    let (duu, duv, dvu, dvv) = (du.derivative_u(), du.derivative_v(), dv.derivative_u(), dv.derivative_v());
    let pick = |t: &[f64], p: usize, n: usize| {
        let ks: Vec<usize> = (p..n).filter(|&k| t[k] < t[k + 1]).collect();
        let step = (ks.len() / 6).max(1);
        let mut us: Vec<f64> = ks.iter().enumerate().filter(|(i, _)| i % step == 0 || i + 1 == ks.len()).flat_map(|(i, &k)| [0.0, 0.3 + 0.07 * (i % 5) as f64].map(|f| t[k] + (t[k + 1] - t[k]) * f)).collect();
        us.push(t[n]);
        us
    };
    let (us, vs) = (pick(&tu, p, n), pick(&tv, q, m));
    let tol = 1e-9 * max_abs(&c);
    let whole = |t: &[f64], p: usize, n: usize| t[0] == t[p] && t[n] == t[t.len() - 1];
    let (mut params, mut normals) = (Vec::new(), Vec::new());
    for &u in &us {
        let Some((i0, a)) = pieces(&tu, p, u) else { continue };
        for &v in &vs {
            let Some((j0, b)) = pieces(&tv, q, v) else { continue };
            let mut x = [Point3::ZERO; 6];
            let mut mag = [1.0f64; 6];
            let (mut num, mut den) = (Point3::ZERO, 0.0);
            for (i, a) in a.iter().enumerate() {
                for (j, b) in b.iter().enumerate() {
                    let k = (i0 + i) * m + j0 + j;
                    for (l, f) in [a.0 * b.0, a.1 * b.0, a.0 * b.1, a.2 * b.0, a.0 * b.2, a.1 * b.1].into_iter().enumerate() {
                        x[l] += c[k] * f;
                        mag[l] = mag[l].max(f.abs());
                    }
                    num += c[k] * (a.0 * b.0 * w[k]);
                    den += a.0 * b.0 * w[k];
                }
            }
            let at = || format!("({}, {}), degree {:?}, knots {:?} {:?}", u, v, (p, q), tu, tv);
            let g = s.get_point(u, v);
            cx.observe_f(g.z);
            cx.check(near3(g, x[0], tol), || format!("at {}: {} instead of {}", at(), g, x[0]))?;
            let h = r.get_point(u, v);
            cx.check(near3(h, num / den, tol * 10.0), || format!("rational at {}: {} instead of {}", at(), h, num / den))?;
            for (l, (name, d)) in [("Su", &du), ("Sv", &dv), ("Suu", &duu), ("Svv", &dvv), ("Suv", &duv), ("Svu", &dvu)].into_iter().enumerate() {
                let l = (l + 1).min(5);
                // second derivatives of degree 1 and derivatives of degree 0 vanish
                let g = d.get_point(u, v);
                cx.check(near3(g, x[l], tol * 100.0 * mag[l] + 1e-13 * max_abs(d.control_points.flatten())), || format!("{} at {}: {} instead of {}", name, at(), g, x[l]))?;
            }
            let un = x[1].cross(x[2]);
            if whole(&tu, p, n) && whole(&tv, q, m) && un.length() > 1e-3 * x[1].length() * x[2].length() && un.length() > 0.0 {
                params.push(Point2::new(u, v));
                normals.push(un.normalize());
            }
        }
    }
    let got = s.get_normals(&params);
    cx.check(got.len() == normals.len(), || format!("{} normals at {} parameters", got.len(), normals.len()))?;
    for (k, (g, w)) in got.iter().zip(&normals).enumerate() {
        cx.check(near3(*g, *w, 1e-5), || format!("normal at {} is {} instead of {}", params[k], g, w))?;
    }
    Ok(())
}
pub fn c09() -> Prop {
    Prop {
        id: "C09",
        scenarios: vec![
            Scenario { name: "bezier", run: bezier_surface },
            Scenario { name: "bspline", run: bspline_surface },
            Scenario { name: "uniform", run: uniform },
            Scenario { name: "bezier-large", run: bezier_large },
            Scenario { name: "bspline-large", run: bspline_large },
        ],
        rule: "every combination of degrees, net sizes (rows != columns included), end/interior multiplicity patterns, unit control nets (linearity) and weight laws; points, first, second and mixed derivatives and normals compared with products of (differentiated) Cox-de Boor / Bernstein polynomials at (p+1)x(q+1) points of every knot cell and all knot lines; non-trivial: distinct coordinates",
        bounds_quick: "Bezier nets 2..6 x 2..6, 4 weight laws; B-spline degrees 0..3 x 0..3, <=1 interior knot per direction of multiplicity<=degree+1; uniform nets up to degree+3; Bezier nets up to 17x17 with weights scaled by 1e6 and 1e-6; 12 degree pairs up to (9,3) x 7 knot laws per direction x up to 13x13 spans",
        bounds_thorough: "Bezier nets up to 25x25; B-splines up to 26x26 spans; <=2 interior u-knots for p+q<=3",
        assumptions: vec!["weights of one sign", "derivatives, rational points and normals on the domain [t_p, t_n]"],
    }
}

// ------------------------------------------------------------------ C10
fn plane(cx: &mut Cx) -> Res {
    let (n, u_axis) = cx.of("frame", &frames());
    let v_axis = n.cross(u_axis);
    let o = cx.of("origin", &[Point3::ZERO, Point3::new(5.0, -3.0, 2.0), Point3::new(1.0e4, 2.0e4, -3.0e4)]);
    let p = Plane { origin: o, normal: n, u_axis, v_axis };
    for u in [0.0, 1.0, -2.5, 1000.0, 0.001] {
        for v in [0.0, -1.0, 3.25, -4000.0] {
            let q = p.get_point(u, v);
            let w = o + u_axis * u + v_axis * v;
            let m = 1e-12 * (1.0 + o.length() + u.abs() + v.abs());
            cx.observe_f(q.x);
            cx.check(near3(q, w, m), || format!("plane point ({}, {}) is {} instead of {}", u, v, q, w))?;
            for h in [0.0, 2.0, -30.0] {
                let uv = p.project(q + n * h);
                cx.check(near2(uv, Point2::new(u, v), 1e-10 * (1.0 + o.length() + u.abs() + v.abs())), || format!("plane point ({}, {}) lifted by {} projects to {}", u, v, h, uv))?;
            }
        }
    }
    Ok(())
}
fn cylinder(cx: &mut Cx) -> Res {
    let (axis, ref_dir) = cx.of("frame", &frames());
    let o = cx.of("origin", &[Point3::ZERO, Point3::new(-1.9, -30.5, 54.6), Point3::new(2.0e3, 100.0, -5.0e3)]);
    let r = cx.of("radius", &[1.0, 3.0, 0.05, 700.0]);
    let c = Cylinder { origin: o, axis, ref_dir, radius: r };
    let tau = std::f64::consts::TAU;
    // the seam: in an axis-parallel frame at the origin nothing is rounded, and the angle is 0, not a full turn
    if o == Point3::ZERO && axis.abs().max_element() == 1.0 && ref_dir.abs().max_element() == 1.0 {
        for l in [0.0, 1.0, -7.5] {
            for q in [c.get_point(l, 0.0), o + axis * l + ref_dir * r, o + axis * l + ref_dir * (3.0 * r)] {
                let uv = c.project(q);
                cx.check(uv.x == l && uv.y == 0.0, || format!("cylinder point ({}, 0) projects to {}", l, uv))?;
            }
        }
    }
    // angles of other turns, and the axis itself
    for a in [-0.001, -3.0, -7.0, 6.5, 12.0, -40.0, 100.0] {
        for l in [0.0, -7.5, 250.0] {
            let q = c.get_point(l, a);
            let m = 1e-11 * (1.0 + o.length() + r + l.abs());
            let w = o + axis * l + rodrigues(ref_dir, axis, a) * r;
            cx.check(near3(q, w, m), || format!("cylinder point ({}, {}) is {} instead of {}", l, a, q, w))?;
            let uv = c.project(q);
            let t = a.rem_euclid(tau);
            cx.check(near(uv.x, l, m * 10.0) && near(uv.y, t, m * 100.0 / r) && uv.y >= 0.0, || format!("cylinder point ({}, {}) projects to {}", l, a, uv))?;
            let uv = c.project(o + axis * l);
            cx.check(near(uv.x, l, m * 10.0) && (0.0..=tau).contains(&uv.y), || format!("point {} of the axis projects to {}", l, uv))?;
        }
    }
    for i in 0..24 {
        let a = tau * i as f64 / 24.0 + 0.001;
        for l in [0.0, 1.0, -7.5, 250.0, -250.0] {
            let q = c.get_point(l, a);
            let w = o + axis * l + rodrigues(ref_dir, axis, a) * r;
            let m = 1e-11 * (1.0 + o.length() + r + l.abs());
            cx.observe_f(q.x);
            cx.check(near3(q, w, m), || format!("cylinder point ({}, {}) is {} instead of {}", l, a, q, w))?;
            let uv = c.project(q);
            cx.check(near(uv.x, l, m * 10.0) && near(uv.y, a, m * 100.0 / r), || format!("cylinder point ({}, {}) projects to {}", l, a, uv))?;
            let uv = c.project(o + axis * l + (w - o - axis * l) * 0.3);
            cx.check(near(uv.x, l, m * 10.0) && near(uv.y, a, m * 400.0 / r), || format!("point inside the cylinder at ({}, {}) projects to {}", l, a, uv))?;
            for d in [l + 1.0, l + 500.0, (l + 20.0) * 2.0, 0.3, 12.0] {
                if d <= l || d <= 0.0 {
                    continue;
                }
                // onto the z=0 ring and back
                let ring = c.project_to_ring(q, d);
                let k = d / (d - l);
                let wr = Point2::new((w - o).dot(ref_dir) * k, (w - o).dot(axis.cross(ref_dir)) * k);
                cx.check(near2(ring, wr, m * 100.0 * (1.0 + k)), || format!("cylinder point ({}, {}) goes to ring point {} instead of {} (d={})", l, a, ring, wr, d))?;
                let back = c.generate_point_from_ring(ring, d);
                cx.check(near3(back, q, m * 1000.0 * (1.0 + d / r.min(1.0))), || format!("cylinder point {} comes back from the ring as {} (d={})", q, back, d))?;
            }
        }
    }
    Ok(())
}
fn spin_sweep(cx: &mut Cx) -> Res {
    let (axis, side) = cx.of("frame", &frames());
    let o = cx.of("origin", &[Point3::ZERO, Point3::new(5.0, -3.0, 2.0), Point3::new(-800.0, 90.0, 1.0e3)]);
    let kind = cx.num("section", 6);
    let mk = |k: usize| -> Box<dyn Curve> {
        match k {
            0 => Box::new(Line { origin: o + side * 4.0, direction: axis * 0.5 + side }),
            1 => Box::new(BezierCurve { control_points: shaped(3, 4) }),
            2 => Box::new(Circle { center: o + side * 10.0, radius: 2.0, axis: axis.cross(side), ref_dir: side }),
            // from the axis outwards, hardly away from it
            3 => Box::new(Line { origin: o + axis * 2.0, direction: axis * 0.5 + side * 0.002 }),
            // around the axis, very small
            4 => Box::new(Circle { center: o - axis, radius: 1e-5, axis: axis.cross(side), ref_dir: side }),
            _ => Box::new(Polyline::new(shaped(1, 5))),
        }
    };
    let s = SpinSurface { origin: o, axis, section: mk(kind) };
    let path = cx.num("path", 6);
    let w = SweepSurface { path: mk(path), section: mk(kind) };
    for i in 0..=8 {
        let u = i as f64 / 8.0;
        let base = mk(kind).get_point(u);
        for a in [0.0, 0.3, 1.5707963267948966, 3.0, -2.0, 6.0, 9.0, -20.0, 100.0] {
            let got = s.get_point(u, a);
            let want = o + rodrigues(base - o, axis, a);
            cx.observe_f(got.x);
            cx.check(near3(got, want, 1e-10 * (1.0 + o.length() + (base - o).length())), || format!("spun point ({}, {}) is {} instead of {}", u, a, got, want))?;
        }
        for j in 0..=4 {
            let v = j as f64 / 4.0;
            let got = w.get_point(v, u);
            let want = mk(path).get_point(v) + base;
            cx.check(near3(got, want, 1e-10 * (1.0 + want.length())), || format!("swept point ({}, {}) is {} instead of {}", v, u, got, want))?;
        }
    }
    Ok(())
}
fn umbrella(cx: &mut Cx) -> Res {
    let pi = std::f64::consts::PI;
    let r = cx.of("radius", &[1.0, pi, 0.25, 1.0e4]);
    let s = Umbrella { radius: r };
    for i in -32..=96 {
        let th = pi * f64::from(i) / 32.0;
        for j in 0..=32 {
            let ph = 2.0 * pi * j as f64 / 32.0 - if i % 2 == 0 { 0.0 } else { 3.0 };
            let p = s.get_point(th, ph);
            let k = r / pi;
            let rho = k * (th - th.sin());
            let want = Point3::new(rho * ph.cos(), rho * ph.sin(), k * (1.0 + th.cos()));
            cx.observe_f(p.x);
            cx.check(near3(p, want, 1e-12 * (1.0 + r)), || format!("umbrella point ({}, {}) is {} instead of {}", th, ph, p, want))?;
        }
    }
    let rim = s.get_point(pi, 0.0);
    cx.check(near3(rim, Point3::new(r, 0.0, 0.0), 1e-12 * (1.0 + r)) && near3(s.get_point(0.0, 1.0), Point3::new(0.0, 0.0, 2.0 * r / pi), 1e-12 * (1.0 + r)), || format!("umbrella rim at {}", rim))
}
pub fn c10() -> Prop {
    Prop {
        id: "C10",
        scenarios: vec![
            Scenario { name: "plane", run: plane },
            Scenario { name: "cylinder", run: cylinder },
            Scenario { name: "spin-sweep", run: spin_sweep },
            Scenario { name: "umbrella", run: umbrella },
        ],
        rule: "every frame (7 axes x 2 reference directions) x origin x size x parameter grid; points compared with Rodrigues rotation / closed forms, projections must invert evaluation (also for lifted, inner points and through the ring unfolding); non-trivial: distinct coordinates",
        bounds_quick: "14 frames, 3 origins, 4 radii, 24 angles x 4 heights x 3 ring apexes; 6 section (also very close to the axis) x 6 path curves x 9 x 6 parameters",
        bounds_thorough: "same space (it is finite and fully covered)",
        assumptions: vec!["unit orthogonal frames", "ring apex above the point"],
    }
}

// ------------------------------------------------------------------ C11
/// combinatorics of a rows x cols grid triangulation, in grid coordinates
fn grid_triangulation(cx: &mut Cx, tri: &[u32], rows: usize, cols: usize) -> Res {
    cx.check(tri.len() == (rows - 1) * (cols - 1) * 6, || format!("{} indices for a {}x{} grid", tri.len(), rows, cols))?;
    let mut cell = vec![(0u8, 0i32); (rows - 1) * (cols - 1)];
    let mut edges: std::collections::HashMap<(u32, u32), i32> = Default::default();
    let small = rows * cols <= 4096;
    for t in tri.chunks(3) {
        let p: Vec<(i64, i64)> = t.iter().map(|&i| ((i as usize / cols) as i64, (i as usize % cols) as i64)).collect();
        cx.check(t.iter().all(|&i| (i as usize) < rows * cols), || format!("triangle {:?} has no such vertex", t))?;
        let (r0, r1) = (p.iter().map(|x| x.0).min().unwrap(), p.iter().map(|x| x.0).max().unwrap());
        let (c0, c1) = (p.iter().map(|x| x.1).min().unwrap(), p.iter().map(|x| x.1).max().unwrap());
        let area2 = (p[1].0 - p[0].0) * (p[2].1 - p[0].1) - (p[1].1 - p[0].1) * (p[2].0 - p[0].0);
        if !(r1 - r0 == 1 && c1 - c0 == 1 && area2 == 1) {
            return cx.fail(format!("triangle {:?} of a {}x{} grid is not a positively oriented half of a cell: {:?}", t, rows, cols, p));
        }
        let k = &mut cell[r0 as usize * (cols - 1) + c0 as usize];
        k.0 += 1;
        k.1 += area2 as i32;
        if small {
            for e in 0..3 {
                let (a, b) = (t[e], t[(e + 1) % 3]);
                if a < b {
                    *edges.entry((a, b)).or_default() += 1;
                } else {
                    *edges.entry((b, a)).or_default() -= 1;
                }
            }
        }
    }
    cx.check(cell.iter().all(|k| *k == (2, 2)), || "some grid cell is not covered by exactly two triangles".into())?;
    if small {
        // interior edges cancel, only the rim remains, once each
        let rim = edges.values().filter(|x| **x != 0).count();
        cx.check(rim == 2 * (rows - 1) + 2 * (cols - 1) && edges.values().all(|x| x.abs() <= 1), || format!("{} rim edges of a {}x{} grid", rim, rows, cols))?;
    }
    Ok(())
}
#[derive(Debug)]
struct Saddle;
impl Surface for Saddle {
    fn get_point(&self, u: f64, v: f64) -> Point3 {
        Point3::new(u, v, u * v + 0.5 * u)
    }
}
fn tess(cx: &mut Cx) -> Res {
    let top = if cx.thorough() { 12 } else { 8 };
    let ud = 1 + cx.num("u division-1", top);
    let vd = 1 + cx.num("v division-1", top);
    let ranges = [(0.0, 1.0), (1.0, 0.0), (-2.5, 7.25), (0.1, 0.7), (100.0, -3.0)];
    let ur = cx.of("u range", &ranges);
    let vr = cx.of("v range", &ranges);
    let p = SurfacePatch { surface: Saddle, parameter_range: (ur, vr), parameter_division: (ud, vd) };
    check_patch(cx, &p, &Saddle, ur, vr, ud, vd)
}
fn check_patch<S: Surface>(cx: &mut Cx, p: &SurfacePatch<S>, s: &dyn Surface, ur: (f64, f64), vr: (f64, f64), ud: usize, vd: usize) -> Res {
    let m = p.get_triangle_mesh();
    let (rows, cols) = (ud + 1, vd + 1);
    cx.observe(&(rows, cols));
    cx.check(m.vertices.len() == rows * cols, || format!("{} vertices for divisions ({}, {})", m.vertices.len(), ud, vd))?;
    let g = p.get_point_grid();
    cx.check(g.size() == (rows, cols), || format!("point grid {:?}", g.size()))?;
    let at = |(a, b): (f64, f64), i: usize, n: usize| a + (b - a) * i as f64 / n as f64;
    for i in 0..rows {
        for j in 0..cols {
            let (u, v) = (at(ur, i, ud), at(vr, j, vd));
            let want = s.get_point(u, v);
            let q = m.vertices[i * cols + j];
            let tol = 1e-9 * (1.0 + want.length());
            cx.check(near3(q, want, tol), || format!("vertex ({}, {}) is {} instead of {}", i, j, q, want))?;
            cx.check(near3(g[i][j], want, tol), || format!("grid point ({}, {}) is {} instead of {}", i, j, g[i][j], want))?;
        }
    }
    // the four corners are hit exactly
    for (i, j) in [(0, 0), (0, vd), (ud, 0), (ud, vd)] {
        let want = s.get_point(if i == 0 { ur.0 } else { ur.1 }, if j == 0 { vr.0 } else { vr.1 });
        cx.check(near3(m.vertices[i * cols + j], want, 1e-13 * (1.0 + want.length())), || format!("corner ({}, {}) is {} instead of {}", i, j, m.vertices[i * cols + j], want))?;
    }
    cx.check(m.triangle_count() == m.triangles.len() / 3, || "triangle count".into())?;
    grid_triangulation(cx, &m.triangles, rows, cols)?;
    let pts = p.get_points(&[Point2::new(0.25, 0.5), Point2::new(1.0, 0.0)]);
    cx.check(pts.len() == 2 && near3(pts[0], s.get_point(0.25, 0.5), 1e-12) && near3(pts[1], s.get_point(1.0, 0.0), 1e-12), || format!("points {:?}", pts))?;
    // a mesh is its own mesh; reversing flips every triangle and keeps everything else
    let c = m.get_triangle_mesh();
    cx.check(c.vertices == m.vertices && c.triangles == m.triangles && c.normals.len() == m.normals.len(), || "mesh of a mesh differs".into())?;
    let r = c.reverse_winding_direction();
    cx.check(r.vertices == m.vertices && r.normals.len() == m.normals.len() && r.triangles.len() == m.triangles.len(), || "reversing changed vertices".into())?;
    let canon = |t: &[u32]| {
        let k = (0..3).min_by_key(|&i| t[i]).unwrap();
        [t[k], t[(k + 1) % 3], t[(k + 2) % 3]]
    };
    let mut x: Vec<_> = m.triangles.chunks(3).map(|t| canon(&[t[0], t[2], t[1]])).collect();
    let mut y: Vec<_> = r.triangles.chunks(3).map(canon).collect();
    x.sort();
    y.sort();
    cx.check(x == y, || "reversed winding is not the mirrored triangle set".into())
}
fn big(cx: &mut Cx) -> Res {
    let (ud, vd) = cx.of("divisions", &[(1usize, 1usize), (1, 300), (300, 1), (255, 255), (256, 256), (300, 290), (1, 70000), (70000, 1)]);
    let p = SurfacePatch { surface: Saddle, parameter_range: ((0.0, 1.0), (-1.0, 1.0)), parameter_division: (ud, vd) };
    check_patch(cx, &p, &Saddle, (0.0, 1.0), (-1.0, 1.0), ud, vd)
}
fn create(cx: &mut Cx) -> Res {
    let rows = 2 + cx.num("rows-2", 20);
    let cols = 2 + cx.num("cols-2", 20);
    let g = Grid::from_vec(vec![Point3::ZERO; rows * cols], cols);
    let t = geom3d::mesh::create_triangles(&g);
    cx.observe(&t);
    grid_triangulation(cx, &t, rows, cols)
}
/// normals: unit, the true normal wherever it exists, healed where an edge collapses to a point
fn normals(cx: &mut Cx) -> Res {
    let (p, q) = (1 + cx.num("p-1", 3), 1 + cx.num("q-1", 3));
    let n = p + 1 + cx.num("extra rows", 2);
    let m = q + 1 + cx.num("extra cols", 2);
    let collapse = cx.of("collapsed", &["none", "first row", "last row", "first col", "last col", "both rows", "both cols", "corner"]);
    if (collapse == "both rows" && n < 3) || (collapse == "both cols" && m < 3) || (collapse == "corner" && (p < 2 || q < 2)) {
        return cx.skip();
    }
    let mut c: Vec<Point3> = (0..n * m)
        .map(|k| {
            let (i, j) = ((k / m) as f64, (k % m) as f64);
            Point3::new(i * 2.0 + 0.1 * j, j * 1.5 - 0.2 * i, 0.3 * (i - 1.0) * (j - 0.5))
        })
        .collect();
    let set_row = |c: &mut Vec<Point3>, i: usize, p: Point3| {
        for j in 0..m {
            c[i * m + j] = p;
        }
    };
    let set_col = |c: &mut Vec<Point3>, j: usize, p: Point3| {
        for i in 0..n {
            c[i * m + j] = p;
        }
    };
    let mid_row = |c: &Vec<Point3>, i: usize| c[i * m + m / 2];
    let mid_col = |c: &Vec<Point3>, j: usize| c[(n / 2) * m + j];
    match collapse {
        "first row" | "both rows" => {
            let x = mid_row(&c, 0);
            set_row(&mut c, 0, x);
        }
        "first col" | "both cols" => {
            let x = mid_col(&c, 0);
            set_col(&mut c, 0, x);
        }
        "last row" => {
            let x = mid_row(&c, n - 1);
            set_row(&mut c, n - 1, x);
        }
        "last col" => {
            let x = mid_col(&c, m - 1);
            set_col(&mut c, m - 1, x);
        }
        "corner" => {
            c[1] = c[0];
            c[m] = c[0];
        }
        _ => {}
    }
    if collapse == "both rows" {
        let x = mid_row(&c, n - 1);
        set_row(&mut c, n - 1, x);
    }
    if collapse == "both cols" {
        let x = mid_col(&c, m - 1);
        set_col(&mut c, m - 1, x);
    }
    let s = BSplineSurface::uniform_clamped(Grid::from_vec(c.clone(), m), (p, q));
    let ud = cx.of("u division", &[2usize, 1, 3, 5]);
    let vd = cx.of("v division", &[2usize, 1, 3, 6]);
    let boxed = cx.flag("boxed");
    let range = ((0.0, 1.0), (0.0, 1.0));
    let mesh: TriangleMesh = if boxed {
        SurfacePatch { surface: Box::new(s.clone()) as Box<dyn Surface>, parameter_range: range, parameter_division: (ud, vd) }.get_triangle_mesh()
    } else {
        SurfacePatch { surface: s.clone(), parameter_range: range, parameter_division: (ud, vd) }.get_triangle_mesh()
    };
    cx.check(mesh.normals.len() == mesh.vertices.len(), || format!("{} normals for {} vertices", mesh.normals.len(), mesh.vertices.len()))?;
    let tu = KnotVector::uniform_knot(p, n - p).0;
    let tv = KnotVector::uniform_knot(q, m - q).0;
    let truth = |i: usize, j: usize| -> Option<Point3> {
        let (u, v) = (i as f64 / ud as f64, j as f64 / vd as f64);
        let (mut a, mut b) = (Point3::ZERO, Point3::ZERO);
        for i in 0..n {
            let x = cdb_piece_d(&tu, i, p, span_of(&tu, u), u);
            for j in 0..m {
                let y = cdb_piece_d(&tv, j, q, span_of(&tv, v), v);
                a += c[i * m + j] * (x.1 * y.0);
                b += c[i * m + j] * (x.0 * y.1);
            }
        }
        let k = a.cross(b);
        if k.length() < 1e-9 { None } else { Some(k.normalize()) }
    };
    let mut holes = 0;
    for i in 0..=ud {
        for j in 0..=vd {
            let g = mesh.normals[i * (vd + 1) + j];
            match truth(i, j) {
                Some(w) => cx.check(near3(g, w, 1e-6), || format!("normal ({}, {}) is {} instead of {}", i, j, g, w))?,
                None => {
                    holes += 1;
                    // healed from a grid neighbour: unit and equal to some mesh normal next to it
                    let mut nb = Vec::new();
                    let mut any = false;
                    for (a, b) in [(i.wrapping_sub(1), j), (i + 1, j), (i, j.wrapping_sub(1)), (i, j + 1)] {
                        if a <= ud && b <= vd {
                            nb.push(mesh.normals[a * (vd + 1) + b]);
                            any |= truth(a, b).is_some();
                        }
                    }
                    if !any {
                        continue; // no neighbour has a normal
                    }
                    cx.check(near(g.length(), 1.0, 1e-9) && nb.iter().any(|x| near3(*x, g, 1e-9)), || format!("degenerate normal ({}, {}) is {} (neighbours {:?})", i, j, g, nb))?;
                }
            }
        }
    }
    cx.observe(&(holes, n, m, p, q, ud, vd));
    Ok(())
}
/// surfaces without their own normals give meshes without normals
fn no_normals(cx: &mut Cx) -> Res {
    let k = cx.num("surface", 4);
    let (ud, vd) = cx.of("divisions", &[(3usize, 5usize), (7, 2)]);
    let mk = || -> Box<dyn Surface> {
        match k {
            0 => Box::new(Umbrella { radius: 2.0 }),
            1 => Box::new(Plane { origin: Point3::new(1.0, 2.0, 3.0), normal: Point3::Z, u_axis: Point3::X, v_axis: Point3::Y }),
            2 => Box::new(Cylinder { origin: Point3::ZERO, axis: Point3::Z, ref_dir: Point3::X, radius: 2.0 }),
            _ => Box::new(BezierSurface::new(Grid::from_vec(net(3, 4, 1.0), 4))),
        }
    };
    let (ur, vr) = ((0.0, 1.0), (0.25, 1.0));
    let p = SurfacePatch { surface: mk(), parameter_range: (ur, vr), parameter_division: (ud, vd) };
    let m = p.get_triangle_mesh();
    cx.check(m.normals.is_empty(), || format!("{} normals", m.normals.len()))?;
    check_patch(cx, &p, mk().as_ref(), ur, vr, ud, vd)
}
pub fn c11() -> Prop {
    Prop {
        id: "C11",
        scenarios: vec![
            Scenario { name: "tessellate", run: tess },
            Scenario { name: "big", run: big },
            Scenario { name: "triangles", run: create },
            Scenario { name: "normals", run: normals },
            Scenario { name: "plain", run: no_normals },
        ],
        rule: "every division pair x parameter range (reversed ones too); the triangle list is decided combinatorially: each cell exactly two positively oriented halves, interior edges cancel in opposite pairs, the rim remains; vertices equal the surface at the uniform parameters; normals compared with the differentiated surface, at collapsed edges with the healed neighbour rule; non-trivial: distinct sizes",
        bounds_quick: "divisions 1..8 x 1..8 x 25 range pairs; grids to 21x21; 256x256, 300x290 and 70000x1 cases; B-spline patches degree<=3 with 8 kinds of collapsed edges, boxed or not",
        bounds_thorough: "divisions 1..12 x 1..12",
        assumptions: vec!["at least one division per direction", "finite parameter ranges"],
    }
}

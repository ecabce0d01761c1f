//! C20: parameters of points projected to a B-spline surface.
use super::Prop;
use crate::core::*;
use crate::geo::*;
use geom3d::surface::*;
use geom3d::{Grid, KnotVector, Point3};

fn knots(p: usize, laws: &str, range: (f64, f64)) -> Vec<f64> {
    let inner: Vec<f64> = match laws {
        "none" => vec![],
        "one" => vec![0.4],
        "three" => vec![0.2, 0.5, 0.8],
        "uneven" => vec![0.05, 0.1, 0.6],
        "double" => if p > 1 { vec![0.3, 0.3, 0.7] } else { vec![0.3, 0.7] },
        _ => (1..8).map(|i| i as f64 / 8.0).collect(),
    };
    let mut t = vec![0.0; p + 1];
    t.extend(inner);
    t.extend(vec![1.0; p + 1]);
    t.iter().map(|x| range.0 + x * (range.1 - range.0)).collect()
}
fn greville(t: &[f64], p: usize) -> Vec<f64> {
    let (a, b) = (t[0], t[t.len() - 1]);
    (0..t.len() - p - 1).map(|i| (t[i + 1..=i + p].iter().sum::<f64>() / p as f64 - a) / (b - a)).collect()
}
struct Srf {
    s: BSplineSurface<Point3>,
    t: (Vec<f64>, Vec<f64>),
    c: Vec<Point3>,
    deg: (usize, usize),
}
impl Srf {
    fn at(&self, u: f64, v: f64) -> Point3 {
        let (bu, bv) = (basis(&self.t.0, self.deg.0, u), basis(&self.t.1, self.deg.1, v));
        let mut q = Point3::ZERO;
        for i in 0..bu.len() {
            if bu[i] != 0.0 {
                for j in 0..bv.len() {
                    q += self.c[i * bv.len() + j] * (bu[i] * bv[j]);
                }
            }
        }
        q
    }
    fn normal(&self, u: f64, v: f64) -> Point3 {
        let h = 1e-6;
        let (a, b) = ((self.t.0[0], *self.t.0.last().unwrap()), (self.t.1[0], *self.t.1.last().unwrap()));
        let (hu, hv) = (h * (a.1 - a.0), h * (b.1 - b.0));
        let du = self.at((u + hu).min(a.1), v) - self.at((u - hu).max(a.0), v);
        let dv = self.at(u, (v + hv).min(b.1)) - self.at(u, (v - hv).max(b.0));
        du.cross(dv).normalize()
    }
    /// parameters: every knot, every knot span divided, both ends
    fn params(t: &[f64], div: usize) -> Vec<f64> {
        let mut r = vec![];
        for s in spans(t) {
            for k in 0..div {
                r.push(t[s] + (t[s + 1] - t[s]) * k as f64 / div as f64);
            }
        }
        r.push(t[t.len() - 1]);
        r
    }
}
fn surface(cx: &mut Cx, smooth: bool) -> Srf {
    let big = cx.thorough();
    let deg = if smooth { cx.of("degree", &[(3, 3), (3, 4), (4, 3)]) } else { cx.of("degree", &[(1, 1), (2, 2), (3, 3), (1, 3), (3, 2), (4, 5)]) };
    let ku = cx.of("u-knots", &["none", "one", "uneven", "double", "many"]);
    let kv = cx.of("v-knots", if big { &["none", "one", "three", "uneven", "double", "many"] } else { &["none", "three"] });
    let range: (f64, f64) = if big { cx.of("range", &[(0.0, 1.0), (2.0, 7.0), (-300.0, 500.0), (0.0, 1e-3)]) } else { cx.of("range", &[(0.0, 1.0), (-30.0, 50.0)]) };
    let shape = cx.of("shape", &["plane", "graph", "arch", "saddle", "tilted", "wavy", "tube", "u-turn"]);
    let size: f64 = if big { cx.of("size", &[1.0, 1000.0, 0.01]) } else { cx.of("size", &[1.0, 300.0]) };
    let (p, q) = deg;
    let t = (knots(p, ku, range), knots(q, kv, (range.0, range.0 + 2.0 * (range.1 - range.0))));
    // a fold is kept shallow: the walls of a steep one come closer than any sampling resolves
    let fold = if p == 1 || q == 1 { 0.3 } else { 1.0 };
    let (gu, gv) = (greville(&t.0, p), greville(&t.1, q));
    let mut c = vec![];
    for (i, &x) in gu.iter().enumerate() {
        for (j, &y) in gv.iter().enumerate() {
            let z = match shape {
                "graph" if smooth => 0.2 * (4.0 * x + 3.0 * y).sin(),
                "wavy" if smooth => 0.15 * (6.0 * x).sin() * (5.0 * y).cos(),
                "graph" => fold * 0.15 * ((i * 2 + j * 3) % 4) as f64 - 0.2,
                "saddle" => (x - 0.5) * (x - 0.5) - (y - 0.5) * (y - 0.5) + 0.3 * x * y,
                "wavy" => fold * 0.04 * ((i * i + 3 * j) % 5) as f64,
                _ => 0.0,
            };
            c.push(size * match shape {
                "arch" => Point3::new((2.2 * x).cos(), (2.2 * x).sin(), 1.5 * y),
                // the two arms of a U come back beside each other, and bend towards each other at the ends
                "u-turn" => Point3::new([0.0, 6.0, 9.0, 6.0, 0.0, -1.0][((y * 5.0) as usize).min(5)] * (1.0 - (y * 5.0).fract()) + [6.0, 9.0, 6.0, 0.0, -1.0, -1.0][((y * 5.0) as usize).min(5)] * (y * 5.0).fract(), [0.0, 0.0, 3.0, 6.0, 6.0, 2.0][((y * 5.0) as usize).min(5)] * (1.0 - (y * 5.0).fract()) + [0.0, 3.0, 6.0, 6.0, 2.0, 2.0][((y * 5.0) as usize).min(5)] * (y * 5.0).fract(), 4.0 * x) / 9.0,
                "tube" => Point3::new((4.5 * x).cos() * (1.0 + 0.4 * y), (4.5 * x).sin() * (1.0 + 0.4 * y), 1.5 * y),
                "tilted" => Point3::new(x + 0.3 * y, y - 0.2 * x + 0.3 * x * x, x + y + 0.4 * x * y) + Point3::new(7.0, -3.0, 5.0),
                _ => Point3::new(x, y, z),
            });
        }
    }
    let s = BSplineSurface::new(Grid::from_vec(c.clone(), gv.len()), (KnotVector(t.0.clone()), KnotVector(t.1.clone())), deg);
    Srf { s, t, c, deg }
}
fn on_surface(cx: &mut Cx) -> Res {
    let s = surface(cx, false);
    let div = if cx.thorough() { 5 } else { 3 };
    let (pu, pv) = (Srf::params(&s.t.0, div), Srf::params(&s.t.1, div));
    let mut at = vec![];
    let mut pts = vec![];
    for &u in &pu {
        for &v in &pv {
            at.push((u, v));
            pts.push(s.at(u, v));
        }
    }
    let size = max_abs(&s.c);
    let r = s.s.project_points(&pts);
    cx.check(r.len() == pts.len(), || format!("{} results for {} points", r.len(), pts.len()))?;
    let mut far = 0.0f64;
    for i in 0..r.len() {
        inside(cx, &s, r[i].x, r[i].y)?;
        let d = (s.at(r[i].x, r[i].y) - pts[i]).length();
        far = far.max(d);
        cx.check(d <= 1e-5 * size + 1e-6, || format!("S{:?} = {:?} was projected to {:?}, {} away", at[i], pts[i], r[i], d))?;
    }
    cx.observe(&r.iter().map(|p| (p.x.to_bits(), p.y.to_bits())).collect::<Vec<_>>());
    // one at a time and in reverse order: every answer depends on its own point only
    let mut back = pts.clone();
    back.reverse();
    let rb = s.s.project_points(&back);
    for i in 0..r.len() {
        cx.check(rb[r.len() - 1 - i] == r[i], || format!("point {:?} projects to {:?} or {:?} depending on its neighbours", pts[i], r[i], rb[r.len() - 1 - i]))?;
    }
    Ok(())
}
fn inside(cx: &mut Cx, s: &Srf, u: f64, v: f64) -> Res {
    let domain = |t: &[f64], p: usize| (t[p], t[t.len() - 1 - p]);
    let (a, b) = (domain(&s.t.0, s.deg.0), domain(&s.t.1, s.deg.1));
    cx.check(u >= a.0 && u <= a.1 && v >= b.0 && v <= b.1, || format!("parameters ({}, {}) outside {:?} x {:?}", u, v, a, b))
}
fn off_surface(cx: &mut Cx) -> Res {
    let s = surface(cx, true);
    let size = max_abs(&s.c);
    let (pu, pv) = (Srf::params(&s.t.0, 3), Srf::params(&s.t.1, 3));
    let h: f64 = cx.of("offset", &[1e-4, 0.02, -0.02, -0.2, 1.0, -10.0]);
    // within 0.02 of these surfaces the nearest point is unique; farther away only a point not
    // much farther than the nearest one is demanded
    let slack = if h.abs() < 0.1 { 1e-5 } else { 0.1 } * size + 1e-6;
    let mut pts = vec![];
    for &u in &pu {
        for &v in &pv {
            let n = s.normal(u, v);
            if finite3(n) {
                pts.push(s.at(u, v) + n * (h * size));
            }
        }
    }
    // beyond the edges and corners
    for k in 0..8 {
        let a = k as f64 * 0.7;
        pts.push(s.c[0] + Point3::new(a.cos(), a.sin(), 0.3) * (h.abs() * size));
        pts.push(*s.c.last().unwrap() + Point3::new(a.sin(), 0.2, a.cos()) * (h.abs() * size));
    }
    let r = s.s.project_points(&pts);
    cx.check(r.len() == pts.len(), || format!("{} results for {} points", r.len(), pts.len()))?;
    let (su, sv) = (Srf::params(&s.t.0, 6), Srf::params(&s.t.1, 6));
    let samples: Vec<(f64, f64, Point3)> = su.iter().flat_map(|&u| sv.iter().map(move |&v| (u, v))).map(|(u, v)| (u, v, s.at(u, v))).collect();
    for i in 0..r.len() {
        inside(cx, &s, r[i].x, r[i].y)?;
        let d = (s.at(r[i].x, r[i].y) - pts[i]).length();
        for q in &samples {
            let e = (q.2 - pts[i]).length();
            cx.check(d <= e * (1.0 + 1e-6) + slack, || format!("{:?} was projected to {:?} at distance {}, but S({}, {}) is at distance {}", pts[i], r[i], d, q.0, q.1, e))?;
        }
    }
    Ok(())
}
/// large nets, high degrees, unclamped knots; points everywhere
fn large(cx: &mut Cx) -> Res {
    let deg = cx.of("degree", &[(2usize, 3usize), (3, 3), (5, 2), (3, 7), (6, 6), (1, 4)]);
    let spans: &[usize] = if cx.thorough() { &[1, 3, 6, 10, 24] } else { &[3, 10] };
    let (nu, nv) = (cx.of("u-spans", spans), cx.of("v-spans", spans));
    let law = cx.of("knots", &["even", "growing", "repeated", "unclamped", "short spans"]);
    let size: f64 = cx.of("size", &[1.0, 5000.0, 0.01]);
    let shape = cx.of("shape", &["dome", "roll", "ruffle", "twist"]);
    let mk = |p: usize, n: usize| {
        let mut t = vec![];
        for i in 0..=n {
            let m = if i == 0 || i == n { if law == "unclamped" { 1 } else { p + 1 } } else if law == "repeated" && i % 3 == 1 { p.min(2) } else { 1 };
            let x = match law {
                "growing" => i as f64 * (1.0 + 0.2 * i as f64),
                "short spans" => i as f64 + if i % 3 == 2 { -0.999 } else { 0.0 },
                _ => i as f64,
            };
            t.extend(std::iter::repeat(x).take(m));
        }
        t
    };
    let (p, q) = deg;
    let t = (mk(p, nu), mk(q, nv));
    if t.0.len() < 2 * p + 2 || t.1.len() < 2 * q + 2 {
        return cx.skip();
    }
    let (gu, gv) = (greville(&t.0, p), greville(&t.1, q));
    let mut c = vec![];
    for &x in &gu {
        for &y in &gv {
            c.push(size * match shape {
                "dome" => Point3::new(x, 0.7 * y, 0.3 - 0.4 * (x - 0.5) * (x - 0.5) - 0.5 * (y - 0.4) * (y - 0.4)),
                "roll" => Point3::new((0.3 + 0.1 * x) * (5.0 * x).cos(), (0.3 + 0.1 * x) * (5.0 * x).sin(), y),
                "ruffle" => Point3::new(x, y, 0.05 * (7.0 * x).sin() * (6.0 * y).cos()),
                _ => Point3::new(x, (y - 0.5) * (1.5 * x).cos(), (y - 0.5) * (1.5 * x).sin()),
            });
        }
    }
    let s = BSplineSurface::new(Grid::from_vec(c.clone(), gv.len()), (KnotVector(t.0.clone()), KnotVector(t.1.clone())), deg);
    let s = Srf { s, t, c, deg };
    // every knot line of the domain, and between them
    let domain = |t: &[f64], p: usize| {
        let d = distinct(&t[p..t.len() - p]);
        let mut r: Vec<f64> = d.windows(2).flat_map(|w| [w[0], w[0] + 0.37 * (w[1] - w[0])]).collect();
        r.push(d[d.len() - 1]);
        let step = (r.len() / 12).max(1);
        let last = r.len() - 1;
        r.into_iter().enumerate().filter(|(i, _)| i % step == 0 || *i == last).map(|(_, u)| u).collect::<Vec<_>>()
    };
    let (pu, pv) = (domain(&s.t.0, p), domain(&s.t.1, q));
    let mut at = vec![];
    for &u in &pu {
        for &v in &pv {
            at.push((u, v));
        }
    }
    let pts: Vec<Point3> = at.iter().map(|x| s.at(x.0, x.1)).collect();
    let r = s.s.project_points(&pts);
    cx.check(r.len() == pts.len(), || format!("{} results for {} points", r.len(), pts.len()))?;
    cx.observe(&r.iter().map(|p| (p.x.to_bits(), p.y.to_bits())).collect::<Vec<_>>());
    let scale = max_abs(&s.c);
    for i in 0..r.len() {
        inside(cx, &s, r[i].x, r[i].y)?;
        let d = (s.at(r[i].x, r[i].y) - pts[i]).length();
        cx.check(d <= 1e-5 * scale + 1e-6, || format!("S{:?} = {:?} was projected to {:?}, {} away", at[i], pts[i], r[i], d))?;
    }
    // beyond the edges, and at the origin
    let (eu, ev) = ((pu[0], pu[pu.len() - 1]), (pv[0], pv[pv.len() - 1]));
    let mid = s.at((eu.0 + eu.1) / 2.0, (ev.0 + ev.1) / 2.0);
    let mut qs = vec![Point3::ZERO];
    for &u in [eu.0, eu.1].iter() {
        for &v in &pv {
            let e = s.at(u, v);
            qs.push(e + (e - mid) * 0.02);
            qs.push(e + (e - mid) * 0.5);
        }
    }
    for &v in [ev.0, ev.1].iter() {
        for &u in &pu {
            let e = s.at(u, v);
            qs.push(e + (e - mid) * 0.02);
            qs.push(e + (e - mid) * 0.5);
        }
    }
    let r = s.s.project_points(&qs);
    for i in 0..qs.len() {
        inside(cx, &s, r[i].x, r[i].y)?;
        let d = (s.at(r[i].x, r[i].y) - qs[i]).length();
        let best = pts.iter().map(|p| (*p - qs[i]).length()).fold(f64::MAX, f64::min);
        cx.check(d <= best + 0.1 * scale + 1e-6, || format!("{:?} was projected to {:?} at distance {}, a point at distance {} exists", qs[i], r[i], d, best))?;
    }
    Ok(())
}
/// uneven speeds: parametrisations which stop at an end, edges which are single points
fn speeds(cx: &mut Cx) -> Res {
    let laws: [(&str, &[f64]); 6] = [
        ("even", &[0.0, 1.0 / 3.0, 2.0 / 3.0, 1.0]),
        ("stops at the start", &[0.0, 0.0, 1.0 / 3.0, 1.0]),
        ("stops at the end", &[0.0, 0.6, 1.0, 1.0]),
        ("stops at both ends", &[0.0, 0.0, 1.0, 1.0]),
        ("fast start", &[0.0, 0.9, 0.95, 1.0]),
        ("degree five", &[0.0, 0.0, 0.05, 0.1, 0.9, 1.0]),
    ];
    let (lu, lv) = (cx.of("u-speed", &laws), cx.of("v-speed", &laws));
    let shape = cx.of("shape", &["flat", "bent", "fan", "dome"]);
    let size: f64 = cx.of("size", &[1.0, 300.0]);
    let (gu, gv) = (lu.1, lv.1);
    // not a line which stops where the surface runs into a point
    if ["fan", "dome"].contains(&shape) && (gv[0] == gv[1] || gv[gv.len() - 1] == gv[gv.len() - 2]) {
        return cx.skip();
    }
    let deg = (gu.len() - 1, gv.len() - 1);
    let mut c = vec![];
    for &x in gu {
        for &y in gv {
            c.push(size * match shape {
                "flat" => Point3::new(x, y, 0.0),
                "bent" => Point3::new(x, y, 0.4 * x * x - 0.3 * y * x),
                // an edge is a single point
                "fan" => Point3::new(x, x * (y - 0.4), 0.2 * x * y),
                _ => Point3::new(x * (1.4 * y).cos(), x * (1.4 * y).sin(), 0.5 - 0.4 * x * x),
            });
        }
    }
    let t = (knots(deg.0, "none", (0.0, 1.0)), knots(deg.1, "none", (0.0, 1.0)));
    let s = BSplineSurface::new(Grid::from_vec(c.clone(), gv.len()), (KnotVector(t.0.clone()), KnotVector(t.1.clone())), deg);
    let s = Srf { s, t, c, deg };
    let us: Vec<f64> = (0..=if cx.thorough() { 40 } else { 20 }).map(|i| i as f64 / if cx.thorough() { 40.0 } else { 20.0 }).chain([1e-3, 0.999, 0.013]).collect();
    let mut at = vec![];
    for &u in &us {
        for &v in &us {
            at.push((u, v));
        }
    }
    let pts: Vec<Point3> = at.iter().map(|x| s.at(x.0, x.1)).collect();
    let r = s.s.project_points(&pts);
    cx.check(r.len() == pts.len(), || format!("{} results for {} points", r.len(), pts.len()))?;
    cx.observe(&r.iter().map(|p| (p.x.to_bits(), p.y.to_bits())).collect::<Vec<_>>());
    let mut far = 0.0f64;
    let mut worst = 0;
    for i in 0..r.len() {
        inside(cx, &s, r[i].x, r[i].y)?;
        let d = (s.at(r[i].x, r[i].y) - pts[i]).length();
        if d > far { far = d; worst = i; }
    }
    cx.check(far <= 1e-5 * size + 1e-6, || format!("S{:?} = {:?} was projected to {:?}, {} away", at[worst], pts[worst], r[worst], far))
}
pub fn c20() -> Prop {
    Prop {
        id: "C20",
        scenarios: vec![Scenario { name: "on-surface", run: on_surface }, Scenario { name: "off-surface", run: off_surface }, Scenario { name: "large", run: large }, Scenario { name: "speeds", run: speeds }],
        rule: "every combination of degrees, knot patterns in u and v (uneven and repeated knots), parameter range, shape and size; queries at every knot and at the divisions of every knot span, forwards and backwards, and at those points moved along the normal by six signed distances and beyond the corners; the surface is evaluated by the textbook basis; non-trivial: distinct parameter lists",
        bounds_quick: "6 degrees x 5 x 2 knot patterns x 2 ranges x 7 shapes x 2 sizes; off the surface 3 degrees; nets of 3 and 10 spans per direction, 6 degree pairs up to (6,6) and (3,7), 5 knot laws (unclamped included), 3 sizes, 4 shapes, also queried beyond their edges; 6 x 6 uneven speeds x 4 shapes (two with an edge that is a single point) x 2 sizes",
        bounds_thorough: "5 x 6 knot patterns x 4 ranges x 3 sizes; nets up to 24 spans per direction",
        assumptions: vec!["surfaces that do not touch themselves and whose degree 1 folds are shallow, regular but for edges which are a single point and for a speed which falls linearly to zero at an edge", "points farther than the smallest radius of curvature need not get the nearest point, only one at most a tenth of the surface's size farther"],
    }
}

//! Reference definitions (oracles): deliberately boring, written from textbook definitions.
#![allow(dead_code)]
use geom3d::{Point2, Point3, Point4};

pub type F = f64;

/// Cox-de Boor basis function N_{i,p}(u) by its recursive definition (0/0 = 0).  Spans are
/// half open, except that the last non-empty span of the knot vector is closed.
pub fn cdb(t: &[F], i: usize, p: usize, u: F) -> F {
    if p == 0 {
        let last = t[t.len() - 1];
        let inside = t[i] <= u && u < t[i + 1];
        let closing = u == last && t[i] < t[i + 1] && t[i + 1] == last;
        return if inside || closing { 1.0 } else { 0.0 };
    }
    let mut s = 0.0;
    if t[i + p] > t[i] {
        s += (u - t[i]) / (t[i + p] - t[i]) * cdb(t, i, p - 1, u);
    }
    if t[i + p + 1] > t[i + 1] {
        s += (t[i + p + 1] - u) / (t[i + p + 1] - t[i + 1]) * cdb(t, i + 1, p - 1, u);
    }
    s
}
pub fn basis(t: &[F], p: usize, u: F) -> Vec<F> {
    (0..t.len() - 1 - p).map(|i| cdb(t, i, p, u)).collect()
}
/// The polynomial piece of N_{i,p} on span `s` (t[s] < t[s+1]), evaluated at any u.
pub fn cdb_piece(t: &[F], i: usize, p: usize, s: usize, u: F) -> F {
    if p == 0 {
        return if i == s { 1.0 } else { 0.0 };
    }
    let mut r = 0.0;
    if t[i + p] > t[i] {
        r += (u - t[i]) / (t[i + p] - t[i]) * cdb_piece(t, i, p - 1, s, u);
    }
    if t[i + p + 1] > t[i + 1] {
        r += (t[i + p + 1] - u) / (t[i + p + 1] - t[i + 1]) * cdb_piece(t, i + 1, p - 1, s, u);
    }
    r
}
pub fn binom(n: usize, k: usize) -> F {
    let mut r = 1.0;
    for i in 0..k {
        r = r * (n - i) as F / (i + 1) as F;
    }
    r
}
pub fn bern(n: usize, i: usize, u: F) -> F {
    binom(n, i) * u.powi(i as i32) * (1.0 - u).powi((n - i) as i32)
}
pub fn bspline3(t: &[F], p: usize, c: &[Point3], u: F) -> Point3 {
    let mut s = Point3::ZERO;
    for (i, q) in c.iter().enumerate() {
        s += *q * cdb(t, i, p, u);
    }
    s
}
pub fn bspline3_piece(t: &[F], p: usize, c: &[Point3], span: usize, u: F) -> Point3 {
    let mut s = Point3::ZERO;
    for (i, q) in c.iter().enumerate() {
        s += *q * cdb_piece(t, i, p, span, u);
    }
    s
}
pub fn bezier3(c: &[Point3], u: F) -> Point3 {
    let n = c.len() - 1;
    let mut s = Point3::ZERO;
    for (i, q) in c.iter().enumerate() {
        s += *q * bern(n, i, u);
    }
    s
}
pub fn proj4(p: Point4) -> Point3 {
    Point3::new(p.x / p.w, p.y / p.w, p.z / p.w)
}
pub fn near(a: F, b: F, tol: F) -> bool {
    // NaN is never near anything
    (a - b).abs() <= tol
}
pub fn near3(a: Point3, b: Point3, tol: F) -> bool {
    near(a.x, b.x, tol) && near(a.y, b.y, tol) && near(a.z, b.z, tol)
}
pub fn near2(a: Point2, b: Point2, tol: F) -> bool {
    near(a.x, b.x, tol) && near(a.y, b.y, tol)
}
pub fn max_abs(ps: &[Point3]) -> F {
    ps.iter().fold(0.0f64, |m, p| m.max(p.x.abs()).max(p.y.abs()).max(p.z.abs()))
}
pub fn finite3(p: Point3) -> bool {
    p.x.is_finite() && p.y.is_finite() && p.z.is_finite()
}
/// generic-position control points (no symmetry a wrong coefficient could hide behind)
pub fn generic(k: usize) -> Point3 {
    let k = k as i64;
    Point3::new(
        (1 + 3 * k + ((k * k * 7) % 5)) as F,
        ((k * k * 11 + 5 * k + 2) % 13) as F - 6.0,
        ((k * k * k * 3 + 7) % 11) as F * 0.5 - 2.0,
    )
}
pub fn generic_pts(n: usize, scale: F) -> Vec<Point3> {
    (0..n).map(|k| generic(k) * scale).collect()
}
/// distinct values
pub fn distinct(t: &[F]) -> Vec<F> {
    let mut v = t.to_vec();
    v.dedup();
    v
}
/// rotate p about unit axis through the origin by Rodrigues' formula
pub fn rodrigues(p: Point3, k: Point3, a: F) -> Point3 {
    p * a.cos() + k.cross(p) * a.sin() + k * (k.dot(p) * (1.0 - a.cos()))
}
/// value and derivative of the polynomial piece of N_{i,p} on span `s` (product rule on the
/// recursive definition)
pub fn cdb_piece_d(t: &[F], i: usize, p: usize, s: usize, u: F) -> (F, F) {
    if p == 0 {
        return (if i == s { 1.0 } else { 0.0 }, 0.0);
    }
    let (mut r, mut d) = (0.0, 0.0);
    if t[i + p] > t[i] {
        let w = t[i + p] - t[i];
        let (v, dv) = cdb_piece_d(t, i, p - 1, s, u);
        r += (u - t[i]) / w * v;
        d += v / w + (u - t[i]) / w * dv;
    }
    if t[i + p + 1] > t[i + 1] {
        let w = t[i + p + 1] - t[i + 1];
        let (v, dv) = cdb_piece_d(t, i + 1, p - 1, s, u);
        r += (t[i + p + 1] - u) / w * v;
        d += -v / w + (t[i + p + 1] - u) / w * dv;
    }
    (r, d)
}
/// same with second derivative
pub fn cdb_piece_dd(t: &[F], i: usize, p: usize, s: usize, u: F) -> (F, F, F) {
    if p == 0 {
        return (if i == s { 1.0 } else { 0.0 }, 0.0, 0.0);
    }
    let (mut r, mut d, mut e) = (0.0, 0.0, 0.0);
    if t[i + p] > t[i] {
        let w = t[i + p] - t[i];
        let (v, dv, ddv) = cdb_piece_dd(t, i, p - 1, s, u);
        let a = (u - t[i]) / w;
        r += a * v;
        d += v / w + a * dv;
        e += 2.0 * dv / w + a * ddv;
    }
    if t[i + p + 1] > t[i + 1] {
        let w = t[i + p + 1] - t[i + 1];
        let (v, dv, ddv) = cdb_piece_dd(t, i + 1, p - 1, s, u);
        let a = (t[i + p + 1] - u) / w;
        r += a * v;
        d += -v / w + a * dv;
        e += -2.0 * dv / w + a * ddv;
    }
    (r, d, e)
}
/// indices s of the non-empty spans [t_s, t_{s+1}]
pub fn spans(t: &[F]) -> Vec<usize> {
    (0..t.len() - 1).filter(|&i| t[i] < t[i + 1]).collect()
}
/// the span a parameter belongs to: half-open, the last non-empty one closed; parameters
/// outside the knot range belong to the first/last non-empty span
pub fn span_of(t: &[F], u: F) -> usize {
    let s = spans(t);
    for &i in &s {
        if u < t[i + 1] {
            return i;
        }
    }
    *s.last().unwrap()
}
pub fn up(x: F) -> F {
    f64::from_bits(if x >= 0.0 { x.to_bits() + 1 } else { x.to_bits() - 1 })
}
pub fn down(x: F) -> F {
    -up(-x)
}

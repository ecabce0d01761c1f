//! C05: every history of knot insertion / split / clamp / Bezier decomposition keeps the curve.
use super::knots::*;
use super::Prop;
use crate::core::*;
use crate::geo::*;
use geom3d::curve::{BSplineCurve, Curve};
use geom3d::{KnotVector, Point3};

type Cv = BSplineCurve<Point3>;

fn valid(b: &Cv) -> Result<(), String> {
    let p = b.degree as usize;
    if b.control_points.len() + p + 1 != b.knots.len() {
        return Err(format!("{} control points, degree {}, {} knots", b.control_points.len(), p, b.knots.len()));
    }
    if b.knots.windows(2).any(|w| !(w[0] <= w[1])) {
        return Err(format!("knots not sorted: {:?}", b.knots.0));
    }
    Ok(())
}

/// b is the original `a` restricted to b's knot range: agreement at p+1 points inside every span
/// of the union of both knot vectors (polynomial identity) and of the limits at both ends
fn same(cx: &mut Cx, a: &Cv, b: &Cv) -> Result<(), String> {
    valid(b)?;
    if a.degree != b.degree {
        return Err(format!("degree became {}", b.degree));
    }
    let p = a.degree as usize;
    let (lo, hi) = b.knots.range();
    let mut k: Vec<f64> = a.knots.iter().chain(b.knots.iter()).cloned().filter(|x| *x >= lo && *x <= hi).collect();
    k.sort_by(|a, b| a.partial_cmp(b).unwrap());
    k.dedup();
    let tol = 1e-8 * (1.0 + max_abs(&a.control_points));
    let n = k.len();
    for (i, w) in k.windows(2).enumerate() {
        if w[1] - w[0] < 1e-12 * (1.0 + w[1].abs()) {
            continue;
        }
        let m = 0.5 * (w[0] + w[1]);
        let tol = tol * (1.0 + 1e-6 * w[1].abs() / (w[1] - w[0]));
        let sa = span_of(&a.knots, m);
        let mut us: Vec<f64> = (0..=p).map(|j| w[0] + (w[1] - w[0]) * (j as f64 + 0.5) / (p as f64 + 1.0)).collect();
        if i == 0 {
            us.push(w[0]);
        }
        if i + 2 == n {
            us.push(w[1]);
        }
        for u in us {
            let x = bspline3_piece(&a.knots, p, &a.control_points, sa, u);
            let z = b.get_point(u);
            cx.checks += 1;
            if !near3(x, z, tol) {
                return Err(format!("curve over [{}, {}] moved at u={}: {} instead of {} (knots {:?})", lo, hi, u, z, x, b.knots.0));
            }
        }
    }
    Ok(())
}
/// Bezier pieces tile the curve span by span
fn bezier_ok(cx: &mut Cx, a: &Cv, b: &Cv) -> Result<(), String> {
    let p = a.degree as usize;
    let d = distinct(&b.knots);
    let z = b.to_piecewise_bezier();
    if z.len() != d.len() - 1 {
        return Err(format!("{} Bezier pieces for {} spans of {:?}", z.len(), d.len() - 1, b.knots.0));
    }
    let tol = 1e-8 * (1.0 + max_abs(&a.control_points));
    for (i, w) in d.windows(2).enumerate() {
        if z[i].control_points.len() != p + 1 {
            return Err(format!("Bezier piece {} has {} control points", i, z[i].control_points.len()));
        }
        let s = span_of(&a.knots, 0.5 * (w[0] + w[1]));
        // parameters of a short span are rounded
        let tol = tol * (1.0 + 1e-6 * w[1].abs() / (w[1] - w[0]));
        for j in 0..=p + 2 {
            let f = j as f64 / (p as f64 + 2.0);
            let x = bspline3_piece(&a.knots, p, &a.control_points, s, w[0] + (w[1] - w[0]) * f);
            let y = bezier3(&z[i].control_points, f);
            cx.checks += 1;
            if !near3(x, y, tol) {
                return Err(format!("Bezier piece {} of {:?} at {}: {} instead of {}", i, b.knots.0, f, y, x));
            }
        }
    }
    Ok(())
}

fn history(cx: &mut Cx, orig: &Cv, depth: usize, fine: bool) -> Res {
    let p = orig.degree as usize;
    let mut pieces = vec![orig.clone()];
    let mut log = String::new();
    for step in 0..=depth {
        // stopping early is covered by the invariant checked after every step
        if step == depth {
            break;
        }
        let which = if pieces.len() > 1 { cx.num("piece", pieces.len()) } else { 0 };
        let b = &pieces[which];
        let d = distinct(&b.knots);
        let mut ops: Vec<(u8, f64)> = vec![(2, 0.0)];
        for (i, &x) in d.iter().enumerate() {
            let m = b.knots.iter().filter(|k| **k == x).count();
            if m <= p {
                ops.push((0, x));
            }
            if i > 0 && i + 1 < d.len() && x - d[0] > 1e-6 && d[d.len() - 1] - x > 1e-6 {
                ops.push((1, x));
                if fine {
                    ops.push((1, x + 4.0e-8));
                    ops.push((1, x - 4.0e-8));
                }
            }
        }
        for w in d.windows(2) {
            if w[1] - w[0] < 1e-3 {
                continue;
            }
            let m = w[0] + (w[1] - w[0]) * 0.5;
            ops.push((0, m));
            ops.push((1, m));
            if fine {
                ops.push((0, w[0] + (w[1] - w[0]) * 0.2));
                ops.push((1, w[0] + (w[1] - w[0]) * 0.9));
            }
        }
        let (op, u) = ops[cx.pick(ops.len())];
        let mut c = b.clone();
        match op {
            0 => {
                log.push_str(&format!(" #{}.add_knot({})", which, u));
                cx.say(format!("#{}.add_knot({})", which, u));
                let before: Vec<f64> = c.knots.0.clone();
                c.add_knot(u);
                let mut want = before;
                want.push(u);
                want.sort_by(|a, b| a.partial_cmp(b).unwrap());
                if c.knots.0 != want {
                    return cx.fail(format!("knots after insertion of {}: {:?}", u, c.knots.0));
                }
                if let Err(e) = same(cx, orig, &c) {
                    return cx.fail(e);
                }
                pieces[which] = c;
            }
            1 => {
                log.push_str(&format!(" #{}.split({})", which, u));
                cx.say(format!("#{}.split({})", which, u));
                let (lo, hi) = c.knots.range();
                let e = c.split(u);
                for x in [&c, &e] {
                    if let Err(e) = same(cx, orig, x) {
                        return cx.fail(e);
                    }
                }
                let (a0, a1) = c.knots.range();
                let (b0, b1) = e.knots.range();
                if !(a0 == lo && b1 == hi && a1 == b0 && near(a1, u, 1.01e-7)) {
                    return cx.fail(format!("split at {} of [{}, {}] gives [{}, {}] and [{}, {}]", u, lo, hi, a0, a1, b0, b1));
                }
                pieces[which] = c;
                pieces.insert(which + 1, e);
            }
            _ => {
                cx.say(format!("#{}.clamp", which));
                let (lo, hi) = c.knots.range();
                c.clamp();
                if let Err(e) = same(cx, orig, &c) {
                    return cx.fail(e);
                }
                let (f, l) = (c.knots.iter().filter(|x| **x == lo).count(), c.knots.iter().filter(|x| **x == hi).count());
                if c.knots.range() != (lo, hi) || f != p + 1 || l != p + 1 {
                    return cx.fail(format!("clamped knots are {:?}", c.knots.0));
                }
                pieces[which] = c;
            }
        }
        cx.observe(&pieces.iter().map(|b| (b.knots.len(), b.control_points.iter().map(|c| ((c.x * 1e5).round() as i64, (c.y * 1e5).round() as i64)).collect::<Vec<_>>())).collect::<Vec<_>>());
    }
    for b in &pieces {
        if let Err(e) = bezier_ok(cx, orig, b) {
            return cx.fail(e);
        }
    }
    Ok(())
}
fn patterns(cx: &mut Cx) -> Res {
    let p = 1 + cx.num("degree-1", 4);
    let k = cx.of("spacing", &[0usize, 1, 4, 3]);
    let max = match (cx.thorough(), p) {
        (_, 1) => 3,
        (true, _) => 2,
        (false, 2) => 2,
        _ => 1,
    };
    let t = pick_knots(cx, p, max, Ends::Any, k);
    if t.len() < 2 * p + 2 {
        return cx.skip();
    }
    let depth = 1 + cx.num("depth-1", if cx.thorough() && p <= 2 { 3 } else { 2 });
    let n = t.len() - p - 1;
    let b = Cv { control_points: generic_pts(n, 1.0), knots: KnotVector(t), degree: p as u8 };
    history(cx, &b, depth, false)
}
fn clamped_deep(cx: &mut Cx) -> Res {
    let p = 1 + cx.num("degree-1", 4);
    let n = 1 + cx.num("spans-1", 2);
    let t = KnotVector::uniform_knot(p, n).0;
    let depth = match (cx.thorough(), p) {
        (false, 1 | 2) => 4,
        (false, _) => 3,
        (true, 1 | 2) => 5,
        (true, _) => 4,
    };
    let m = t.len() - p - 1;
    let b = Cv { control_points: generic_pts(m, 1.0), knots: KnotVector(t), degree: p as u8 };
    history(cx, &b, depth, false)
}
fn fine(cx: &mut Cx) -> Res {
    let p = 1 + cx.num("degree-1", 3);
    let k = cx.of("spacing", &[0usize, 4, 5]);
    let t = pick_knots(cx, p, if cx.thorough() { 2 } else { 1 }, Ends::Clamped, k);
    let n = t.len() - p - 1;
    let scale = cx.of("scale", &[1.0, 1.0e4]);
    let b = Cv { control_points: generic_pts(n, scale), knots: KnotVector(t), degree: p as u8 };
    history(cx, &b, 2, true)
}
/// decomposition of long curves: every number of spans
fn long(cx: &mut Cx) -> Res {
    let p = 1 + cx.num("degree-1", 5);
    let n = 1 + cx.num("spans-1", if cx.thorough() { 40 } else { 16 });
    let mult = cx.of("interior multiplicity", &[1usize, 2, 3]);
    if mult > p {
        return cx.skip();
    }
    let mut t = vec![0.0; p + 1];
    for i in 1..n {
        t.extend(std::iter::repeat(i as f64 * 0.3).take(mult));
    }
    t.extend(std::iter::repeat(n as f64 * 0.3).take(p + 1));
    let m = t.len() - p - 1;
    let b = Cv { control_points: generic_pts(m, 1.0), knots: KnotVector(t), degree: p as u8 };
    cx.observe(&(p, n, mult));
    let keep = (b.knots.clone(), b.control_points.clone());
    if let Err(e) = bezier_ok(cx, &b, &b) {
        return cx.fail(e);
    }
    cx.check(keep == (b.knots.clone(), b.control_points.clone()), || "decomposition changed the curve object".into())?;
    let mut c = b.clone();
    c.clamp();
    cx.check(keep == (c.knots.clone(), c.control_points.clone()), || "clamping a clamped curve changed it".into())
}
/// every single operation on long curves
fn long_ops(cx: &mut Cx) -> Res {
    let p = 1 + cx.num("degree-1", 5);
    let n = cx.of("spans", if cx.thorough() { &[5usize, 9, 20, 40, 70, 130] } else { &[5usize, 20, 70] });
    let law = cx.of("knots", &["clamped", "unclamped", "repeated"]);
    let mut t: Vec<f64> = vec![];
    for i in 0..=n {
        let m = if i == 0 || i == n { if law == "unclamped" { 1 } else { p + 1 } } else if law == "repeated" { 1 + (i + i / 3) % p } else { 1 };
        t.extend(std::iter::repeat(i as f64 * 0.4 + (i % 3) as f64 * 0.1).take(m));
    }
    if t.len() < 2 * p + 2 {
        return cx.skip();
    }
    let m = t.len() - p - 1;
    let b = Cv { control_points: generic_pts(m, 1.0), knots: KnotVector(t), degree: p as u8 };
    history(cx, &b, 1, false)
}
/// knots which are (almost) the same: rounding, less than the tolerance and little more apart
fn close(cx: &mut Cx) -> Res {
    let p = 1 + cx.num("degree-1", 4);
    let gaps = [0.0, 1.0, 3.0, -1.0, 1.0e-12, 1.0e-9, 4.0e-8, 9.0e-8, 1.5e-7, 1.0e-5, -1.0e-9, -4.0e-8];
    let base = cx.of("knot", &[0.3, 0.5, 1.0 / 3.0]);
    let at = |x: f64, g: f64| if g == g.trunc() { (0..g.abs() as usize).fold(x, |x, _| if g > 0.0 { up(x) } else { down(x) }) } else { x + g };
    let scale = cx.of("scale", &[1.0, 1.0e3, 1.0e-6]);
    let mut t = vec![0.0; p + 1];
    t.extend([0.8 * scale, 0.9 * scale].iter().filter(|_| p > 1));
    t.extend(vec![scale; p + 1]);
    let n = t.len() - p - 1;
    let mut b = Cv { control_points: generic_pts(n, 1.0), knots: KnotVector(t), degree: p as u8 };
    let orig = b.clone();
    let more = cx.num("insertions-1", if cx.thorough() { 3 } else { 2 });
    b.add_knot(base * scale);
    for _ in 0..=more {
        let g = cx.of("gap", &gaps);
        let u = at(base * scale, g);
        if u < 0.25 * scale || u > 0.75 * scale || b.knots.iter().filter(|k| (**k - u).abs() <= 4.0 * f64::EPSILON * u.abs().max(0.25)).count() > p {
            return cx.skip();
        }
        b.add_knot(u);
    }
    let which = cx.num("then", 4);
    let mut parts = vec![];
    match which {
        0 => {}
        1 => b.clamp(),
        k => {
            // split beside or at one of them
            let u = if k == 2 { base * scale } else { let l = b.knots.0[p + 1 + more]; if l < 0.7 * scale { l } else { base * scale } };
            if u - b.knots[0] < 1e-6 || b.knots[b.knots.len() - 1] - u < 1e-6 {
                return cx.skip();
            }
            let e = b.split(u);
            parts.push(e);
        }
    }
    parts.insert(0, b);
    cx.observe(&parts.iter().map(|b| b.knots.iter().map(|k| k.to_bits()).collect::<Vec<_>>()).collect::<Vec<_>>());
    for b in &parts {
        if let Err(e) = same(cx, &orig, b) {
            return cx.fail(e);
        }
        // the pieces in order are the curve: one for every span that can be told from a point
        let z = b.to_piecewise_bezier();
        let mut d = distinct(&b.knots);
        d.dedup_by(|a, b| (*a - *b).abs() <= 8.0 * f64::EPSILON * b.abs().max(0.25));
        if z.len() != d.len() - 1 {
            return cx.fail(format!("{} Bezier pieces for {} spans of {:?}", z.len(), d.len() - 1, b.knots.0));
        }
        for (i, w) in d.windows(2).enumerate() {
            let s = span_of(&orig.knots, 0.5 * (w[0] + w[1]));
            if z[i].control_points.len() != p + 1 {
                return cx.fail(format!("Bezier piece {} of {:?} has {} control points", i, b.knots.0, z[i].control_points.len()));
            }
            for j in 0..=4 {
                let f = j as f64 / 4.0;
                let x = bspline3_piece(&orig.knots, p, &orig.control_points, s, w[0] + (w[1] - w[0]) * f);
                let y = bezier3(&z[i].control_points, f);
                cx.check(near3(x, y, 1e-7), || format!("Bezier piece {} of {:?} at {}: {} instead of {}", i, b.knots.0, f, y, x))?;
            }
        }
        // and a point of the curve is found on it
        for (i, w) in d.windows(2).enumerate() {
            let u = 0.5 * (w[0] + w[1]);
            let q = b.get_point(u);
            let v = b.project(q);
            cx.check(near3(b.get_point(v), q, 1e-5), || format!("point {} at {} in span {} of {:?} projects to {} at {}", q, u, i, b.knots.0, v, b.get_point(v)))?;
        }
    }
    Ok(())
}
pub fn c05() -> Prop {
    Prop {
        id: "C05",
        scenarios: vec![
            Scenario { name: "patterns", run: patterns },
            Scenario { name: "deep", run: clamped_deep },
            Scenario { name: "fine", run: fine },
            Scenario { name: "long", run: long },
            Scenario { name: "long-ops", run: long_ops },
            Scenario { name: "close", run: close },
        ],
        rule: "explicit exploration of every operation history over {insert knot at every knot / span midpoint, split at every interior knot / midpoint / just beside a knot, clamp} on any piece so far, ending in a Bezier decomposition of every piece; the invariant (polynomial identity with the original curve on every span, adjacency of the pieces, consistent sizes) is checked in every state; non-trivial: distinct resulting control polygons",
        bounds_quick: "degree<=4; all multiplicity patterns with <=3/2/1/1 interior knots (degree 1/2/3/4), clamped or not, histories of depth<=2; clamped 1-2 span curves: depth 4 (degree<=2) / 3; beside-a-knot splits: depth 2; decompositions up to 16 spans, degree<=5; every operation on curves of 5, 20, 70 spans, degree<=5; up to 3 knots at 12 distances from 1 ulp to 1e-5, split, clamped, decomposed and projected on",
        bounds_thorough: "<=2 interior knots for degree 3,4; depth 3 for degree<=2; deep: depth 5 / 4; 40 spans; operations on up to 130 spans; up to 4 close knots",
        assumptions: vec!["insertions keep multiplicity<=degree+1; splits strictly inside the knot range (more than 1e-6 from its ends); degree>=1", "an unclamped curve is the spline function over its whole knot range"],
    }
}

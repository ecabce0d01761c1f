//! C24: edge loops become closed polygons.
use super::project::{adversary, frames};
use super::trim::*;
use super::Prop;
use crate::core::*;
use geom3d::curve::*;
use geom3d::surface::*;
use geom3d::{Face, KnotVector, Point3};

pub type Edge = CurveSegment<Box<dyn Curve>>;
pub const KINDS: [&str; 13] = [
    "line", "line-back", "line-far", "polyline", "polyline-back", "arc-out", "arc-out-back", "arc-in", "bezier", "bezier-back", "bspline", "bspline-inner", "bezier-line",
];
fn seg(curve: Box<dyn Curve>, range: (f64, f64), tol: f64) -> Edge {
    CurveSegment { curve, parameter_range: range, tolerance: tol, parameter_division: 16 }
}
/// an edge from a to b in the plane with the given normal; `h`: height of the bulge over the
/// chord (to the right of the direction of travel), relative to the chord
pub fn edge(kind: &str, a: Point3, b: Point3, normal: Point3, h: f64, tol: f64) -> Edge {
    let d = b - a;
    let right = d.cross(normal);
    let arc = |h: f64, back: bool| -> Edge {
        // circle through a, the top of the bulge, and b
        let l = d.length();
        let s = h.abs() * l;
        let r = (l * l / 4.0 + s * s) / (2.0 * s);
        let side = right.normalize() * h.signum();
        let c = (a + b) * 0.5 + side * (s - r);
        // travelled counter-clockwise seen along +axis when the bulge is to the right
        let ax = normal * h.signum();
        let (axis, reference) = if back { (-ax, (b - c).normalize()) } else { (ax, (a - c).normalize()) };
        let circle = Circle { center: c, radius: r, axis, ref_dir: reference };
        let mut sweep = 2.0 * (l / 2.0 / r).min(1.0).asin();
        if s > r {
            sweep = std::f64::consts::TAU - sweep;
        }
        seg(Box::new(circle), if back { (sweep, 0.0) } else { (0.0, sweep) }, tol)
    };
    let bez = |back: bool| -> Edge {
        let mut p = vec![a, a + d * 0.2 + right * h, b - d * 0.2 + right * h, b];
        if back {
            p.reverse();
        }
        seg(Box::new(BezierCurve { control_points: p }), if back { (1.0, 0.0) } else { (0.0, 1.0) }, tol)
    };
    match kind {
        "line" => seg(Box::new(Line { origin: a, direction: d }), (0.0, 1.0), tol),
        "line-back" => seg(Box::new(Line { origin: b, direction: a - b }), (1.0, 0.0), tol),
        "line-far" => seg(Box::new(Line { origin: a - d * 2.0, direction: d / 4.0 }), (8.0, 12.0), tol),
        "polyline" => seg(Box::new(Polyline::new(vec![a, (a + b) * 0.5 + right * h, b])), (0.0, 1.0), tol),
        "polyline-back" => seg(Box::new(Polyline::new(vec![b, (a + b) * 0.5 + right * h, a])), (1.0, 0.0), tol),
        "arc-out" => arc(h, false),
        "arc-out-back" => arc(h, true),
        "arc-in" => arc(-h * 0.5, false),
        "bezier" => bez(false),
        "bezier-back" => bez(true),
        "bspline" => seg(
            Box::new(BSplineCurve {
                control_points: vec![a, a + d * 0.1 + right * h, (a + b) * 0.5 + right * (1.2 * h), b - d * 0.1 + right * h, b],
                knots: KnotVector(vec![0.0, 0.0, 0.0, 0.3, 0.6, 1.0, 1.0, 1.0]),
                degree: 2,
            }),
            (0.0, 1.0),
            tol,
        ),
        "bspline-inner" => {
            // a piece of a longer parabola: uniform knots over [0, 4], the edge is [1, 3]
            let f = |t: f64| a + d * ((t - 1.0) / 2.0) + right * (h * (t - 1.0) * (3.0 - t));
            let blossom = |s: f64, t: f64| a + d * (((s + t) / 2.0 - 1.0) / 2.0) + right * (h * (4.0 * (s + t) / 2.0 - s * t - 3.0));
            debug_assert!(f(2.0).distance(blossom(2.0, 2.0)) < 1e-9);
            let k = [0.0, 0.0, 0.0, 2.0, 4.0, 4.0, 4.0];
            let cp = (0..4).map(|i| blossom(k[i + 1], k[i + 2])).collect();
            seg(Box::new(BSplineCurve { control_points: cp, knots: KnotVector(k.to_vec()), degree: 2 }), (1.0, 3.0), tol)
        }
        "bezier-line" => seg(Box::new(BezierCurve { control_points: vec![a, a + d / 3.0, a + d * (2.0 / 3.0), b] }), (0.0, 1.0), tol),
        _ => unreachable!(),
    }
}
fn at(e: &Edge, s: f64) -> Point3 {
    let (a, b) = e.parameter_range;
    e.curve.get_point(if s == 1.0 { b } else { a + (b - a) * s })
}
const JOIN: f64 = 3.2e-4;
/// Decide the polygon of a loop of edges that are simple and meet only in their common ends.
pub fn polygon_ok(cx: &mut Cx, edges: &[Edge], convex: &[bool], flat: &[bool], poly: &[Point3]) -> Res {
    let n = poly.len();
    cx.observe(&n);
    cx.check(poly.iter().all(|p| p.is_finite()), || "non-finite vertex".into())?;
    for i in 0..n {
        let d = poly[i].distance(poly[(i + 1) % n]);
        cx.check(d > 3.0e-4 || n == 1, || format!("vertices {} and {} of {} are the same point {}", i, (i + 1) % n, n, poly[i]))?;
    }
    // the start of each edge is a vertex, in order
    let live: Vec<usize> = (0..edges.len()).filter(|&k| (1..32).any(|j| at(&edges[k], j as f64 / 32.0).distance(at(&edges[k], 0.0)) > JOIN)).collect();
    let mut idx = Vec::new();
    for &k in &live {
        let p = at(&edges[k], 0.0);
        let near: Vec<usize> = (0..n).filter(|&i| poly[i].distance(p) <= JOIN).collect();
        cx.check(near.len() == 1, || format!("the start {} of edge {} is {} times in the polygon {:?}", p, k, near.len(), poly))?;
        idx.push(near[0]);
    }
    let total: usize = (0..idx.len()).map(|i| { let d = (idx[(i + 1) % idx.len()] + n - idx[i]) % n; if d == 0 { n } else { d } }).sum();
    cx.check(total == n, || format!("edge ends appear at positions {:?} of {}, not in loop order", idx, n))?;
    // the vertices between them are on the edge, in order, and near enough
    for (i, &k) in live.iter().enumerate() {
        let e = &edges[k];
        let m = { let d = (idx[(i + 1) % idx.len()] + n - idx[i]) % n; if d == 0 { n } else { d } };
        cx.check(!flat[k] || m == 1, || format!("straight edge {} is cut into {} pieces", k, m))?;
        let dense = 4096;
        let pts: Vec<Point3> = (0..=dense).map(|j| at(e, j as f64 / dense as f64)).collect();
        let mut s = 0usize;
        let mut cuts = vec![0usize];
        for j in 1..m {
            let q = poly[(idx[i] + j) % n];
            // nearest sample ahead
            let (mut best, mut arg) = (f64::MAX, s);
            for (t, p) in pts.iter().enumerate().skip(s) {
                let d = p.distance(q);
                if d < best {
                    best = d;
                    arg = t;
                }
            }
            let step = pts[arg].distance(pts[arg.saturating_sub(1)]).max(pts[arg].distance(pts[(arg + 1).min(dense)]));
            cx.check(best <= step + 1e-9, || format!("vertex {} {} is not on the rest of edge {} ({} away)", (idx[i] + j) % n, q, k, best))?;
            s = arg;
            cuts.push(arg);
        }
        cuts.push(dense);
        if convex[k] {
            for w in cuts.windows(2) {
                let (a, b) = (pts[w[0]], pts[w[1]]);
                let far = (w[0]..w[1]).step_by(((w[1] - w[0]) / 16).max(1)).map(|j| geom3d::utils::distance_to_line_segment(a, b, pts[j])).fold(0.0, f64::max);
                cx.check(far <= 1.3 * e.tolerance + 1e-6, || format!("edge {} is {} away from the polygon, tolerance {}", k, far, e.tolerance))?;
            }
        }
    }
    Ok(())
}
pub fn corners(shape: &str) -> Vec<P2> {
    match shape {
        "triangle" => vec![(0.0, 0.0), (8.0, 1.0), (3.0, 7.0)],
        "lens" => vec![(0.0, 0.0), (6.0, 2.0)],
        "square" => vec![(0.0, 0.0), (10.0, 0.0), (10.0, 10.0), (0.0, 10.0)],
        _ => vec![(0.0, 0.0), (12.0, 0.0), (12.0, 5.0), (5.0, 5.0), (5.0, 12.0), (0.0, 12.0)],
    }
}
pub fn is_convex(k: &str) -> bool {
    !k.starts_with("polyline")
}
pub fn is_flat(k: &str) -> bool {
    k.starts_with("line") || k == "bezier-line"
}
fn all_kinds(cx: &mut Cx) -> Res {
    let shape = cx.of("shape", &["triangle", "lens"]);
    let c = corners(shape);
    let ks: Vec<&str> = (0..c.len()).map(|_| cx.of("edge", &KINDS)).collect();
    if shape == "lens" && (ks[0] == "arc-in" || ks[1] == "arc-in") {
        return cx.skip();
    }
    let cw = cx.flag("clockwise");
    let tol = cx.of("tolerance", if cx.thorough() { &[0.1, 1e-3] } else { &[0.02] });
    let (normal, u) = frames()[cx.of("frame", if cx.thorough() { &[0usize, 5, 13] } else { &[11usize] })];
    if cx.thorough() {
        adversary(cx, 1);
    } else {
        adversary(cx, 0);
    }
    let v = normal.cross(u);
    let o = Point3::new(3.0, -20.0, 5.0);
    let mut p: Vec<Point3> = c.iter().map(|c| o + u * c.0 + v * c.1).collect();
    if cw {
        p.reverse();
    }
    // outward bulges: to the right of a counter-clockwise, to the left of a clockwise loop
    let h = if cw { -0.25 } else { 0.25 };
    let edges: Vec<Edge> = (0..p.len()).map(|i| edge(ks[i], p[i], p[(i + 1) % p.len()], normal, h, tol)).collect();
    let poly = EdgeLoop { edges: (0..p.len()).map(|i| edge(ks[i], p[i], p[(i + 1) % p.len()], normal, h, tol)).collect() }.to_polygon();
    let (cv, fl): (Vec<bool>, Vec<bool>) = (ks.iter().map(|k| is_convex(k)).collect(), ks.iter().map(|k| is_flat(k)).collect());
    polygon_ok(cx, &edges, &cv, &fl, &poly)
}
/// edges of length zero between, before and after the others; ends that miss each other a little
fn joints(cx: &mut Cx) -> Res {
    let shape = cx.of("shape", &["square", "ell"]);
    let c = corners(shape);
    let n = c.len();
    let base = cx.num("kinds", KINDS.len());
    let gap = cx.of("gap", &[0.0, 1e-6, 1e-4]);
    let at_corner = cx.num("null-edge-at", n + 1);
    let count = 1 + cx.num("null-edges-1", 2);
    let null = cx.of("null-edge", &["line", "polyline", "bezier", "arc"]);
    adversary(cx, 0);
    let p: Vec<Point3> = c.iter().map(|c| Point3::new(c.0, c.1, 2.0)).collect();
    let make = || {
        let mut e: Vec<(Edge, &str)> = Vec::new();
        for i in 0..n {
            if i == at_corner {
                for _ in 0..count {
                    let q = p[i];
                    e.push((
                        match null {
                            "line" => seg(Box::new(Line { origin: q, direction: Point3::X }), (0.0, 0.0), 0.01),
                            "polyline" => seg(Box::new(Polyline::new(vec![q, q])), (0.0, 1.0), 0.01),
                            "bezier" => seg(Box::new(BezierCurve { control_points: vec![q, q, q, q] }), (0.0, 1.0), 0.01),
                            _ => seg(Box::new(Circle { center: q - Point3::X * 3.0, radius: 3.0, axis: Point3::Z, ref_dir: Point3::X }), (0.0, 1e-5), 0.01),
                        },
                        "line",
                    ));
                }
            }
            let k = if i % 2 == 0 { KINDS[base] } else { KINDS[(base + 5) % KINDS.len()] };
            let off = Point3::new(gap, -gap, 0.0);
            e.push((edge(k, p[i] + off, p[(i + 1) % n], Point3::Z, 0.1, 0.01), k));
        }
        e
    };
    let (edges, ks): (Vec<Edge>, Vec<&str>) = make().into_iter().unzip();
    let poly = EdgeLoop { edges: make().into_iter().map(|e| e.0).collect() }.to_polygon();
    let (cv, fl): (Vec<bool>, Vec<bool>) = (ks.iter().map(|k| is_convex(k)).collect(), ks.iter().map(|k| is_flat(k)).collect());
    polygon_ok(cx, &edges, &cv, &fl, &poly)
}
/// one closed edge, or a closed curve in two or three pieces
pub fn closed_edges(what: &str, start: f64, pieces: usize, back: bool, tol: f64) -> Vec<Edge> {
    let tau = std::f64::consts::TAU;
    let make = || -> (Box<dyn Curve>, f64) {
        match what {
            "circle" => (Box::new(Circle { center: Point3::new(1.0, 2.0, 3.0), radius: 2.0, axis: Point3::Z, ref_dir: Point3::Y }), tau),
            "small-circle" => (Box::new(Circle { center: Point3::ZERO, radius: 0.25, axis: Point3::Z, ref_dir: Point3::X }), tau),
            "bezier" => (Box::new(BezierCurve { control_points: vec![Point3::ZERO, Point3::new(8.0, 0.0, 0.0), Point3::new(0.0, 8.0, 0.0), Point3::ZERO] }), 1.0),
            "polyline" => (Box::new(Polyline::new(vec![Point3::ZERO, Point3::new(3.0, 0.0, 0.0), Point3::new(3.0, 4.0, 0.0), Point3::ZERO])), 1.0),
            _ => (
                Box::new(BSplineCurve {
                    control_points: vec![Point3::new(4.0, 0.0, 0.0), Point3::new(4.0, 4.0, 0.0), Point3::new(-4.0, 4.0, 0.0), Point3::new(-4.0, -4.0, 0.0), Point3::new(4.0, -4.0, 0.0), Point3::new(4.0, 0.0, 0.0)],
                    knots: KnotVector(vec![0.0, 0.0, 0.0, 1.0, 2.0, 3.0, 4.0, 4.0, 4.0]),
                    degree: 2,
                }),
                4.0,
            ),
        }
    };
    (0..pieces)
        .map(|i| {
            let (c, w) = make();
            let s = if what.ends_with("circle") { start } else { 0.0 };
            let f = |j: usize| s + w * if back { 1.0 - j as f64 / pieces as f64 } else { j as f64 / pieces as f64 };
            seg(c, (f(i), f(i + 1)), tol)
        })
        .collect()
}
fn closed(cx: &mut Cx) -> Res {
    let what = cx.of("curve", &["circle", "small-circle", "bezier", "bspline", "polyline"]);
    let start = cx.of("start", &[0.0, 2.0, -1.0, 6.283185307179586]);
    let pieces = 1 + cx.num("pieces-1", 4);
    let back = cx.flag("backwards");
    let tol = cx.of("tolerance", &[0.1, 0.01, 1e-4]);
    adversary(cx, if cx.thorough() { 2 } else { 1 });
    let edges = closed_edges(what, start, pieces, back, tol);
    let poly = EdgeLoop { edges: closed_edges(what, start, pieces, back, tol) }.to_polygon();
    let round = what.ends_with("circle");
    polygon_ok(cx, &edges, &vec![round; pieces], &vec![false; pieces], &poly)?;
    if round {
        let r = if what == "circle" { 2.0 } else { 0.25 };
        let c = if what == "circle" { Point3::new(1.0, 2.0, 3.0) } else { Point3::ZERO };
        for p in &poly {
            cx.check(((*p - c).length() - r).abs() < 1e-9, || format!("vertex {} is off the circle", p))?;
        }
        let a = area2(&poly.iter().map(|p| (p.x, p.y)).collect::<Vec<_>>()) / 2.0;
        let full = std::f64::consts::PI * r * r * if back { -1.0 } else { 1.0 };
        cx.check((a - full).abs() <= std::f64::consts::TAU * r * 1.3 * tol && a * full > 0.0, || format!("polygon area {} of {}", a, full))?;
    }
    Ok(())
}
/// loops of many edges
fn many(cx: &mut Cx) -> Res {
    let n = cx.of("edges", &[7usize, 12, 33, 70, 150]);
    let a = cx.num("kind", KINDS.len());
    let step = cx.num("step", 5);
    let tol = cx.of("tolerance", &[0.1, 0.005]);
    adversary(cx, 0);
    let p: Vec<Point3> = (0..n).map(|i| { let x = i as f64 / n as f64 * std::f64::consts::TAU; Point3::new(50.0 * x.cos(), 50.0 * x.sin(), 2.0) }).collect();
    let ks: Vec<&str> = (0..n).map(|i| KINDS[(a + i * step) % KINDS.len()]).collect();
    let make = || (0..n).map(|i| edge(ks[i], p[i], p[(i + 1) % n], Point3::Z, 0.2, tol)).collect::<Vec<Edge>>();
    let poly = EdgeLoop { edges: make() }.to_polygon();
    let (cv, fl): (Vec<bool>, Vec<bool>) = (ks.iter().map(|k| is_convex(k)).collect(), ks.iter().map(|k| is_flat(k)).collect());
    polygon_ok(cx, &make(), &cv, &fl, &poly)
}
/// straight edges which run there and back, meet again in a vertex or lie in a line: the polygon is
/// the walk
fn walks(cx: &mut Cx) -> Res {
    let pts = [Point3::new(0.0, 0.0, 1.0), Point3::new(4.0, 0.0, 1.0), Point3::new(8.0, 0.0, 1.0), Point3::new(3.0, 5.0, -2.0)];
    let n = 2 + cx.num("edges-2", if cx.thorough() { 7 } else { 5 });
    let mut w = vec![0usize];
    for _ in 1..n {
        // any other point
        let next = (w[w.len() - 1] + 1 + cx.pick(3)) % 4;
        w.push(next);
    }
    if w[n - 1] == 0 {
        return cx.skip();
    }
    cx.say(format!("walk {:?}", w));
    let kind = cx.of("edges", &["line", "line-back", "bezier-line", "mixed"]);
    let flats = ["line", "line-back", "line-far", "bezier-line"];
    adversary(cx, 0);
    let want: Vec<Point3> = w.iter().map(|&i| pts[i]).collect();
    let edges = (0..n).map(|i| edge(if kind == "mixed" { flats[i % 4] } else { kind }, want[i], want[(i + 1) % n], Point3::Z, 0.1, 0.01)).collect();
    let poly = EdgeLoop { edges }.to_polygon();
    cx.observe(&n);
    let ok = poly.len() == n && poly.iter().zip(&want).all(|(a, b)| a.distance(*b) < 1e-9);
    cx.check(ok, || format!("the polygon is {:?}", poly))
}
fn empty(cx: &mut Cx) -> Res {
    let k = cx.num("null-edges", 4);
    adversary(cx, 0);
    let q = Point3::new(1.0, 2.0, 3.0);
    let poly = EdgeLoop { edges: (0..k).map(|_| seg(Box::new(Line { origin: q, direction: Point3::X }), (0.0, 0.0), 0.01)).collect() }.to_polygon();
    cx.observe(&k);
    cx.check(poly.len() <= k.min(1), || format!("{} edges of length zero make {} vertices", k, poly.len()))
}
pub fn c24() -> Prop {
    Prop {
        id: "C24",
        scenarios: vec![
            Scenario { name: "all-kinds", run: all_kinds },
            Scenario { name: "joints", run: joints },
            Scenario { name: "closed", run: closed },
            Scenario { name: "empty", run: empty },
            Scenario { name: "walks", run: walks },
            Scenario { name: "many", run: many },
        ],
        rule: "every assignment of 13 edge kinds (lines, polylines, arcs, Bezier and B-spline pieces, each also traversed backwards or over an inner range) to the edges of loops of 2 and 3 edges in both directions; null edges and small gaps at every corner of loops of 4 and 6 edges; every closed walk over 4 points along straight edges (there and back, in a line, a vertex met again); closed curves in 1 to 4 pieces, every start and both directions, for every sequence of random draws; non-trivial: distinct numbers of vertices",
        bounds_quick: "13^3 + 13^2 loops x 2 directions x 5 constant draws; 2 shapes x 13 kinds x 3 gaps x null edges at every corner; 5 closed curves x 4 starts x 1-4 pieces x 3 tolerances, draws of depth 1; loops of 7 to 150 edges; walks of up to 6 edges",
        bounds_thorough: "2 tolerances, 3 frames, draws of depth 1 for all loops; depth 2 for closed curves; walks of up to 8 edges",
        assumptions: vec!["loops are simple and much larger than the library's joining distance of 3.2e-4", "edge ends meet within that distance", "chord tolerance is demanded (with 30% margin) of convex edges without inflections"],
    }
}
/// C12: plane faces with curved edges. The flat polygon of each loop is what C24 decides; the
/// mesh must cover it exactly.
pub fn curved_faces(cx: &mut Cx) -> Res {
    let shape = cx.of("shape", &["triangle", "lens", "square", "ell", "circle"]);
    let tol = cx.of("tolerance", &[0.1, 0.01]);
    let (normal, u) = frames()[cx.of("frame", &[4usize, 11])];
    let v = normal.cross(u);
    let o = Point3::new(3.0, -20.0, 5.0);
    let place = |p: P2| o + u * p.0 + v * p.1;
    let c = corners(shape);
    let mut ks: Vec<&str> = Vec::new();
    if shape != "circle" {
        let a = cx.num("edge", KINDS.len());
        let b = cx.num("edge", KINDS.len());
        ks = (0..c.len()).map(|i| KINDS[if i % 2 == 0 { a } else { b }]).collect();
    }
    if shape == "lens" && ks.iter().any(|k| is_flat(k) || *k == "arc-in") {
        return cx.skip();
    }
    let start = cx.num("first", c.len().min(2));
    let hole = cx.of("hole", &["none", "circle", "spline", "two", "half-circles"]);
    let draw = cx.of("draws", &[1u64 << 63, 0, u64::MAX]);
    rand::mc::install(Some(Box::new(move || draw)));
    let ring = |x: f64, y: f64, r: f64, cw: bool| Circle { center: place((x, y)), radius: r, axis: if cw { -normal } else { normal }, ref_dir: u };
    let tau = std::f64::consts::TAU;
    let make = || -> Vec<EdgeLoop> {
        let mut l = Vec::new();
        l.push(if shape == "circle" {
            EdgeLoop { edges: vec![seg(Box::new(ring(2.5, 2.5, 6.0, false)), (0.0, tau), tol)] }
        } else {
            let n = c.len();
            EdgeLoop { edges: (0..n).map(|i| { let i = (i + start) % n; edge(ks[i], place(c[i]), place(c[(i + 1) % n]), normal, if shape == "ell" && (i == 2 || i == 3) { -0.2 } else { 0.2 }, tol) }).collect() }
        });
        let (x, y) = if shape == "lens" { (3.0, 1.0) } else { (3.2, 2.4) };
        let r = if shape == "lens" { 0.3 } else { 0.7 };
        match hole {
            "none" => {}
            "circle" => l.push(EdgeLoop { edges: vec![seg(Box::new(ring(x, y, r, true)), (0.0, tau), tol)] }),
            "half-circles" => l.push(EdgeLoop { edges: vec![seg(Box::new(ring(x, y, r, false)), (4.0, 4.0 - tau / 2.0), tol), seg(Box::new(ring(x, y, r, false)), (4.0 - tau / 2.0, 4.0 - tau), tol)] }),
            "spline" => {
                let p = [(x, y), (x - r, y + r), (x + r, y + r), (x, y)];
                l.push(EdgeLoop { edges: vec![seg(Box::new(BezierCurve { control_points: p.iter().map(|p| place(*p)).collect() }), (0.0, 1.0), tol)] });
            }
            _ => {
                let s = r * 0.4;
                l.push(EdgeLoop { edges: vec![seg(Box::new(ring(x - r * 0.6, y, s, true)), (1.0, 1.0 + tau), tol)] });
                l.push(EdgeLoop { edges: vec![seg(Box::new(ring(x + r * 0.6, y, s, true)), (2.0, 2.0 + tau), tol)] });
            }
        }
        l
    };
    let loops: Vec<Vec<P2>> = make().iter().map(|l| l.to_polygon().iter().map(|p| { let d = *p - o; (d.dot(u), d.dot(v)) }).collect()).collect();
    if area2(&loops[0]) <= 1.0 || loops[1..].iter().any(|l| area2(l) >= 0.0) {
        return cx.fail(format!("areas {:?}", loops.iter().map(|l| area2(l)).collect::<Vec<_>>()));
    }
    let plane = Plane { origin: o, normal, u_axis: u, v_axis: v };
    let mesh = TrimmedSurface { surface: plane, bounds: make() }.get_triangle_mesh();
    cx.check(mesh.triangles.len() % 3 == 0 && mesh.triangles.iter().all(|&i| (i as usize) < mesh.vertices.len()), || "bad index".into())?;
    let tris: Vec<[P2; 3]> = mesh.triangles.chunks(3).map(|t| { let g = |i: usize| { let d = mesh.vertices[t[i] as usize] - o; (d.dot(u), d.dot(v)) }; [g(0), g(1), g(2)] }).collect();
    for p in &mesh.vertices {
        cx.check((*p - o).dot(normal).abs() < 1e-9 * 50.0, || format!("vertex {} is off the plane", p))?;
    }
    cx.observe(&(mesh.triangles.len(), mesh.vertices.len()));
    exact_cover(cx, &tris, &loops, 12.0)
}

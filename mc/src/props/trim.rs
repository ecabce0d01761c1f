//! C12: trimmed plane faces.
use super::project::frames;
use super::Prop;
use crate::core::*;
use geom3d::curve::*;
use geom3d::surface::*;
use geom3d::{Face, Point3};
use std::collections::HashMap;

pub type P2 = (f64, f64);
pub type L2 = (i32, i32);

pub fn cross(a: P2, b: P2, c: P2) -> f64 {
    (b.0 - a.0) * (c.1 - a.1) - (b.1 - a.1) * (c.0 - a.0)
}
pub fn area2(p: &[P2]) -> f64 {
    (0..p.len()).map(|i| { let (a, b) = (p[i], p[(i + 1) % p.len()]); a.0 * b.1 - a.1 * b.0 }).sum()
}
fn icross(a: L2, b: L2, c: L2) -> i64 {
    (b.0 - a.0) as i64 * (c.1 - a.1) as i64 - (b.1 - a.1) as i64 * (c.0 - a.0) as i64
}
fn on_seg(a: L2, b: L2, p: L2) -> bool {
    icross(a, b, p) == 0 && p.0 >= a.0.min(b.0) && p.0 <= a.0.max(b.0) && p.1 >= a.1.min(b.1) && p.1 <= a.1.max(b.1)
}
/// closed segments have a common point
pub fn touch(a: L2, b: L2, c: L2, d: L2) -> bool {
    let (s1, s2) = (icross(a, b, c).signum(), icross(a, b, d).signum());
    let (s3, s4) = (icross(c, d, a).signum(), icross(c, d, b).signum());
    (s1 * s2 < 0 && s3 * s4 < 0) || on_seg(a, b, c) || on_seg(a, b, d) || on_seg(c, d, a) || on_seg(c, d, b)
}
pub fn inside(poly: &[L2], p: L2) -> bool {
    // strictly inside; p not on the boundary
    let mut c = false;
    for i in 0..poly.len() {
        let (a, b) = (poly[i], poly[(i + 1) % poly.len()]);
        if on_seg(a, b, p) {
            return false;
        }
        if (a.1 > p.1) != (b.1 > p.1) {
            let s = icross(a, b, p);
            if (s > 0) == (b.1 > a.1) {
                c = !c;
            }
        }
    }
    c
}
pub fn disjoint(a: &[L2], b: &[L2]) -> bool {
    for i in 0..a.len() {
        for j in 0..b.len() {
            if touch(a[i], a[(i + 1) % a.len()], b[j], b[(j + 1) % b.len()]) {
                return false;
            }
        }
    }
    true
}
/// every simple lattice polygon (any direction, any start), one per execution
pub fn pick_polygon(cx: &mut Cx, w: i32, h: i32, maxv: usize) -> Option<Vec<L2>> {
    let pts: Vec<L2> = (0..h).flat_map(|y| (0..w).map(move |x| (x, y))).collect();
    let mut v = vec![pts[cx.pick(pts.len())]];
    loop {
        let mut opts: Vec<Option<L2>> = Vec::new();
        let last = v[v.len() - 1];
        let n = v.len();
        let ok = |q: L2, closing: bool| {
            for i in 0..n - 1 {
                let (a, b) = (v[i], v[i + 1]);
                if i + 1 == n - 1 {
                    // adjacent: may share only `last`
                    if on_seg(last, q, a) || on_seg(a, b, q) {
                        return false;
                    }
                } else if closing && i == 0 {
                    if on_seg(a, b, last) || on_seg(last, q, b) {
                        return false;
                    }
                } else if touch(a, b, last, q) {
                    return false;
                }
            }
            true
        };
        if n >= 3 && ok(v[0], true) {
            opts.push(None);
        }
        if n < maxv {
            for &q in &pts {
                if !v.contains(&q) && ok(q, false) {
                    opts.push(Some(q));
                }
            }
        }
        if opts.is_empty() {
            return None;
        }
        match opts[cx.pick(opts.len())] {
            None => break,
            Some(q) => v.push(q),
        }
    }
    let a: i64 = (0..v.len()).map(|i| { let (p, q) = (v[i], v[(i + 1) % v.len()]); p.0 as i64 * q.1 as i64 - p.1 as i64 * q.0 as i64 }).sum();
    if a == 0 {
        return None;
    }
    Some(v)
}
pub fn iarea(v: &[L2]) -> i64 {
    (0..v.len()).map(|i| { let (p, q) = (v[i], v[(i + 1) % v.len()]); p.0 as i64 * q.1 as i64 - p.1 as i64 * q.0 as i64 }).sum()
}

/// The triangles cover exactly the region bounded by the loops: no negative area, and the
/// signed boundary chain of the triangles is the loops (every edge split at every point on it).
pub fn exact_cover(cx: &mut Cx, tris: &[[P2; 3]], loops: &[Vec<P2>], scale: f64) -> Res {
    let eps = 1e-9 * scale;
    for t in tris {
        let a = cross(t[0], t[1], t[2]);
        cx.check(a >= -eps * scale, || format!("triangle {:?} is turned over (area {})", t, a / 2.0))?;
    }
    let want: f64 = loops.iter().map(|l| area2(l)).sum::<f64>();
    let got: f64 = tris.iter().map(|t| cross(t[0], t[1], t[2])).sum();
    cx.check((want - got).abs() <= 1e-6 * scale * scale, || format!("triangles cover area {} of {}", got / 2.0, want / 2.0))?;
    let mut ids: HashMap<(i64, i64), usize> = HashMap::new();
    let mut pts: Vec<P2> = Vec::new();
    let mut id = |p: P2| {
        let k = ((p.0 / scale * 1e7).round() as i64, (p.1 / scale * 1e7).round() as i64);
        for dx in -1..=1 {
            for dy in -1..=1 {
                if let Some(&i) = ids.get(&(k.0 + dx, k.1 + dy)) {
                    return i;
                }
            }
        }
        ids.insert(k, pts.len());
        pts.push(p);
        pts.len() - 1
    };
    let mut edges: Vec<(usize, usize, i32)> = Vec::new();
    for t in tris {
        let i = [id(t[0]), id(t[1]), id(t[2])];
        for k in 0..3 {
            edges.push((i[k], i[(k + 1) % 3], 1));
        }
    }
    for l in loops {
        for k in 0..l.len() {
            edges.push((id(l[k]), id(l[(k + 1) % l.len()]), -1));
        }
    }
    // net the chain first: matching opposite edges cancel without subdivision
    let mut net: HashMap<(usize, usize), i32> = HashMap::new();
    for (a, b, s) in edges {
        if a < b {
            *net.entry((a, b)).or_default() += s;
        } else if b < a {
            *net.entry((b, a)).or_default() -= s;
        }
    }
    let mut fine: HashMap<(usize, usize), i32> = HashMap::new();
    for (&(a, b), &s) in &net {
        if s == 0 {
            continue;
        }
        let (p, q) = (pts[a], pts[b]);
        let len2 = (q.0 - p.0).powi(2) + (q.1 - p.1).powi(2);
        let mut on: Vec<(f64, usize)> = vec![(0.0, a), (1.0, b)];
        for (i, &r) in pts.iter().enumerate() {
            if i == a || i == b {
                continue;
            }
            let t = ((r.0 - p.0) * (q.0 - p.0) + (r.1 - p.1) * (q.1 - p.1)) / len2;
            if t > 0.0 && t < 1.0 && cross(p, q, r).abs() <= 1e-7 * scale * len2.sqrt() {
                on.push((t, i));
            }
        }
        on.sort_by(|x, y| x.0.partial_cmp(&y.0).unwrap());
        for w in on.windows(2) {
            let (i, j) = (w[0].1, w[1].1);
            if i < j {
                *fine.entry((i, j)).or_default() += s;
            } else {
                *fine.entry((j, i)).or_default() -= s;
            }
        }
    }
    let bad = fine.iter().filter(|(_, &s)| s != 0).map(|(k, &s)| (*k, s)).min();
    cx.check(bad.is_none(), || {
        let ((i, j), s) = bad.unwrap();
        format!("the triangles' boundary is not the loops: edge {:?}-{:?} left over {} times", pts[i], pts[j], s)
    })
}

pub fn line_loop(p: &[Point3]) -> EdgeLoop {
    EdgeLoop {
        edges: (0..p.len())
            .map(|i| {
                let (a, b) = (p[i], p[(i + 1) % p.len()]);
                CurveSegment {
                    curve: Box::new(Line { origin: a, direction: b - a }) as Box<dyn Curve>,
                    parameter_range: (0.0, 1.0),
                    tolerance: 0.01,
                    parameter_division: 16,
                }
            })
            .collect(),
    }
}

/// trim a plane with the loops (first one counter-clockwise) and decide the resulting mesh
fn trim_plane(cx: &mut Cx, loops: &[Vec<P2>], frame: (Point3, Point3), origin: Point3, scale: f64) -> Res {
    let (n, u_axis) = frame;
    let v_axis = n.cross(u_axis);
    let plane = Plane { origin, normal: n, u_axis, v_axis };
    let bounds: Vec<EdgeLoop> = loops
        .iter()
        .map(|l| line_loop(&l.iter().map(|p| origin + u_axis * p.0 + v_axis * p.1).collect::<Vec<_>>()))
        .collect();
    let face = TrimmedSurface { surface: plane, bounds };
    let mesh = face.get_triangle_mesh();
    cx.check(mesh.triangles.len() % 3 == 0, || format!("{} indices", mesh.triangles.len()))?;
    cx.check(mesh.triangles.iter().all(|&i| (i as usize) < mesh.vertices.len()), || "index beyond the vertices".into())?;
    cx.check(mesh.normals.is_empty() || mesh.normals.len() == mesh.vertices.len(), || "normals do not match vertices".into())?;
    let reach = scale + origin.length();
    let mut flat = Vec::new();
    for v in &mesh.vertices {
        let d = *v - origin;
        cx.check(d.dot(n).abs() <= 1e-9 * reach, || format!("vertex {:?} is off the plane", v))?;
        flat.push((d.dot(u_axis), d.dot(v_axis)));
    }
    let tris: Vec<[P2; 3]> = mesh.triangles.chunks(3).map(|t| [flat[t[0] as usize], flat[t[1] as usize], flat[t[2] as usize]]).collect();
    cx.observe(&(mesh.triangles.len(), mesh.vertices.len()));
    exact_cover(cx, &tris, loops, scale)
}
fn flat(v: &[L2]) -> Vec<P2> {
    v.iter().map(|p| (p.0 as f64, p.1 as f64)).collect()
}
fn xy() -> (Point3, Point3) {
    (Point3::Z, Point3::X)
}

fn lattice(cx: &mut Cx) -> Res {
    let sizes: &[(i32, i32, usize)] = if cx.thorough() {
        &[(3, 3, 9), (4, 3, 9), (4, 4, 7), (5, 5, 5), (5, 2, 10)]
    } else {
        &[(3, 3, 9), (4, 3, 7), (4, 4, 6), (5, 5, 4), (4, 2, 8)]
    };
    let (w, h, m) = cx.of("grid", sizes);
    let Some(v) = pick_polygon(cx, w, h, m) else { return cx.skip() };
    if iarea(&v) < 0 {
        return cx.skip();
    }
    cx.say(format!("{:?}", v));
    trim_plane(cx, &[flat(&v)], xy(), Point3::ZERO, w as f64)
}
fn outer_shapes() -> Vec<Vec<L2>> {
    vec![
        vec![(0, 0), (6, 0), (6, 6), (0, 6)],
        vec![(0, 0), (3, 0), (6, 0), (6, 3), (6, 6), (3, 6), (0, 6), (0, 3)],
        vec![(0, 0), (12, 0), (12, 1), (6, 1), (6, 6), (0, 6)],
        vec![(0, 0), (6, 0), (6, 6), (-6, 6), (-6, 5), (0, 5)],
        vec![(0, 0), (6, 0), (8, -3), (8, 9), (6, 6), (0, 6), (-3, 9), (-3, -3)],
        vec![(0, 0), (7, 3), (0, 6), (-7, 3)],
    ]
}
/// one hole: every simple polygon of the inner lattice, every start, both loop orders
pub fn hole_loops(cx: &mut Cx, w: i32, h: i32, m: usize, starts: usize) -> Option<Vec<Vec<P2>>> {
    let o = cx.num("outer", 6);
    let outer = outer_shapes()[o].clone();
    let n = outer.len();
    let Some(v) = pick_polygon(cx, w, h, m) else { return None };
    if iarea(&v) > 0 {
        return None;
    }
    let inner: Vec<L2> = v.iter().map(|p| (p.0 + 1, p.1 + 1)).collect();
    if !disjoint(&outer, &inner) || !inner.iter().all(|&p| inside(&outer, p)) {
        return None;
    }
    let s = cx.num("start", starts.min(n));
    let out: Vec<L2> = (0..n).map(|i| outer[(i + s) % n]).collect();
    let first = cx.flag("hole-first");
    cx.say(format!("{:?} hole {:?}", out, inner));
    Some(if first { vec![flat(&inner), flat(&out)] } else { vec![flat(&out), flat(&inner)] })
}
fn hole(cx: &mut Cx) -> Res {
    let (w, h, m, s) = if cx.thorough() { (5, 5, 4, 8) } else { (4, 3, 4, 2) };
    let Some(loops) = hole_loops(cx, w, h, m, s) else { return cx.skip() };
    trim_plane(cx, &loops, xy(), Point3::ZERO, 20.0)
}
/// several holes from a catalog of shapes, every placement and order
pub fn holes_loops(cx: &mut Cx) -> Option<Vec<Vec<P2>>> {
    let shapes: [Vec<L2>; 5] = [
        vec![(0, 0), (0, 1), (1, 0)],
        vec![(0, 0), (0, 1), (1, 1), (1, 0)],
        vec![(0, 0), (1, 1), (1, 0)],
        vec![(0, 0), (0, 2), (2, 2), (2, 0), (1, 1)],
        vec![(0, 0), (0, 1), (0, 2), (1, 2), (1, 1), (2, 1), (2, 0), (1, 0)],
    ];
    let o = cx.num("outer", if cx.thorough() { 6 } else { 4 });
    let outer = outer_shapes()[o].clone();
    let k = 2 + cx.num("holes-2", 2);
    let ns = match (k, cx.thorough()) { (2, true) => 5, (2, false) => 4, (_, true) => 3, (_, false) => 1 };
    let mut loops = vec![outer.clone()];
    for i in 0..k {
        let sh = cx.num("shape", ns);
        let step = if k == 3 && !cx.thorough() { 2 } else { 1 };
        let n = 5 / step + (5 % step != 0) as usize;
        let (x, y) = (1 + (cx.num("x", n) * step) as i32, 1 + (cx.num("y", n) * step) as i32);
        let h: Vec<L2> = shapes[sh].iter().map(|p| (p.0 + x, p.1 + y)).collect();
        if !loops[1..].iter().all(|l| disjoint(l, &h)) || !disjoint(&outer, &h) || !h.iter().all(|&p| inside(&outer, p)) {
            return None;
        }
        if i > 0 && loops[1..].iter().any(|l| inside(l, h[0]) || inside(&h, l[0])) {
            return None;
        }
        loops.push(h);
    }
    cx.say(format!("{:?}", loops));
    Some(loops.iter().map(|l| flat(l)).collect())
}
fn holes(cx: &mut Cx) -> Res {
    let Some(l) = holes_loops(cx) else { return cx.skip() };
    trim_plane(cx, &l, xy(), Point3::ZERO, 20.0)
}
/// plates with a k x l pattern of holes
pub fn plate_loops(cx: &mut Cx, big: bool) -> Vec<Vec<P2>> {
    let k = 1 + cx.num("columns-1", if big { 7 } else { 5 });
    let l = 1 + cx.num("rows-1", if big { 7 } else { 5 });
    let kind = cx.of("hole", &["square", "triangle", "diamond", "octagon", "bar"]);
    let skew = cx.of("skew", &[0, 1, -1]);
    let order = cx.of("order", &["rows", "reverse", "columns", "zigzag"]);
    let h: Vec<L2> = match kind {
        "square" => vec![(0, 0), (0, 4), (4, 4), (4, 0)],
        "triangle" => vec![(0, 0), (2, 4), (4, 0)],
        "diamond" => vec![(0, 2), (2, 4), (4, 2), (2, 0)],
        "octagon" => vec![(0, 1), (0, 3), (1, 4), (3, 4), (4, 3), (4, 1), (3, 0), (1, 0)],
        _ => vec![(0, 0), (0, 4), (2, 4), (4, 4), (4, 3), (1, 3), (1, 0)],
    };
    let (w, hh) = (7 * k as i32 + 20, 7 * l as i32 + 10);
    let mut loops = vec![vec![(-20, -5), (w, -5), (w, hh), (-20, hh)]];
    let mut cells: Vec<(usize, usize)> = (0..l).flat_map(|j| (0..k).map(move |i| (i, j))).collect();
    match order {
        "reverse" => cells.reverse(),
        "columns" => cells.sort(),
        "zigzag" => cells.sort_by_key(|c| ((c.0 + c.1) % 2, c.1, c.0)),
        _ => {}
    }
    for (i, j) in cells {
        loops.push(h.iter().map(|p| (p.0 + 7 * i as i32 + skew * j as i32, p.1 + 7 * j as i32)).collect());
    }
    loops.iter().map(|l| flat(l)).collect()
}
fn plate(cx: &mut Cx) -> Res {
    let big = cx.thorough();
    let lp = plate_loops(cx, big);
    trim_plane(cx, &lp, xy(), Point3::ZERO, 100.0)
}
/// large concave outlines
pub fn outline(cx: &mut Cx) -> Option<Vec<P2>> {
    let kind = cx.of("kind", &["comb", "star", "spiral", "saw", "circle", "gear", "arcs"]);
    let n = cx.of("n", if cx.thorough() { &[3usize, 4, 5, 8, 16, 40, 90] } else { &[3usize, 4, 5, 8, 16, 30] });
    let rot = if cx.thorough() { cx.num("turn", 12) as f64 * 0.5235987755982988 } else { cx.of("turn", &[0.0, 0.3, 1.5707963267948966, 2.2]) };
    let start = cx.num("start", if cx.thorough() { 16 } else { 3 });
    let mut v: Vec<P2> = Vec::new();
    match kind {
        "comb" => {
            v.push((0.0, 0.0));
            v.push((2.0 * n as f64, 0.0));
            for i in (0..n).rev() {
                let x = 2.0 * i as f64;
                v.push((x + 2.0, 5.0));
                v.push((x + 1.0, 5.0));
                v.push((x + 1.0, 1.0));
                v.push((x, 1.0));
            }
        }
        "star" => {
            for i in 0..2 * n {
                let a = i as f64 * std::f64::consts::PI / n as f64;
                let r = if i % 2 == 0 { 10.0 } else { 3.0 };
                v.push((r * a.cos(), r * a.sin()));
            }
        }
        "spiral" => {
            let turns = 6 * n.min(20);
            let f = |i: usize, off: f64| { let a = i as f64 * 0.5; let r = 1.0 + 0.3 * a + off; (r * a.cos(), r * a.sin()) };
            for i in 0..turns { v.push(f(i, 0.9)); }
            for i in (0..turns).rev() { v.push(f(i, 0.0)); }
        }
        "saw" => {
            for i in 0..=n { v.push((i as f64, (i % 2) as f64 * 0.5)); }
            for i in (0..=n).rev() { v.push((i as f64, 1.0 + (i % 2) as f64)); }
        }
        "circle" => for i in 0..n { let a = i as f64 * std::f64::consts::TAU / n as f64; v.push((5.0 * a.cos(), 5.0 * a.sin())); },
        "gear" => for i in 0..4 * n {
            let a = i as f64 * std::f64::consts::TAU / (4 * n) as f64;
            let r = if i % 4 < 2 { 8.0 } else { 6.0 };
            v.push((r * a.cos(), r * a.sin()));
        },
        _ => {
            // a C: outer arc and inner arc
            for i in 0..=n { let a = 0.4 + 5.5 * i as f64 / n as f64; v.push((6.0 * a.cos(), 6.0 * a.sin())); }
            for i in (0..=n).rev() { let a = 0.4 + 5.5 * i as f64 / n as f64; v.push((1.0 * a.cos(), 1.0 * a.sin())); }
        }
    }
    let (s, c) = f64::sin_cos(rot);
    let m = v.len();
    let v: Vec<P2> = (0..m).map(|i| v[(i + [0, 1, m / 2, 2, 3, m / 3, m / 4, m / 5, 2 * m / 3, 3 * m / 4, m - 1, m - 2, m - 3, m / 2 + 1, m / 2 + 2, m / 7][start]) % m]).map(|p| (c * p.0 - s * p.1, s * p.0 + c * p.1)).collect();
    if kind == "arcs" && n < 5 { return None; }
    Some(v)
}
/// loops that touch themselves or each other: seams, bridges, common vertices
pub fn touching_loops(cx: &mut Cx, only_edges: bool) -> Vec<Vec<P2>> {
    let square = || vec![(0.0, 0.0), (6.0, 0.0), (6.0, 6.0), (0.0, 6.0)];
    let sq = |x: f64, y: f64, s: f64| vec![(x, y), (x, y + s), (x + s, y + s), (x + s, y)];
    let ring = |n: usize, r: f64, cw: bool| -> Vec<P2> {
        (0..n).map(|i| { let a = std::f64::consts::TAU * i as f64 / n as f64 * if cw { -1.0 } else { 1.0 }; (3.0 + r * a.cos(), 3.0 + r * a.sin()) }).collect()
    };
    let close = |mut v: Vec<P2>| { v.push(v[0]); v };
    let kinds = ["bridge", "two bridges", "chained bridges", "seam", "slit", "hole at corner", "hole at notch", "holes at vertex", "hole at edge", "pinched", "two corners"];
    let kind = cx.of("touching", &kinds[..if only_edges { 5 } else { 11 }]);
    let mut loops: Vec<Vec<P2>> = match kind {
        "bridge" => vec![[close(square()), close(sq(2.0, 2.0, 2.0))].concat()],
        "two bridges" => {
            let mut h = sq(4.0, 3.5, 1.0);
            h.rotate_left(2); // from (5, 4.5)
            vec![[close(sq(1.0, 1.0, 2.0)), vec![(0.0, 0.0), (6.0, 0.0), (6.0, 6.0)], close(h), vec![(6.0, 6.0), (0.0, 6.0), (0.0, 0.0)]].concat()]
        }
        "chained bridges" => {
            let (a, b) = (sq(1.0, 1.0, 1.5), sq(3.5, 3.5, 1.0));
            vec![[vec![(0.0, 0.0), (6.0, 0.0), (6.0, 6.0), (0.0, 6.0), (0.0, 0.0)], a[..3].to_vec(), close(b), a[2..].to_vec(), vec![a[0]]].concat()]
        }
        "seam" => {
            let n = cx.of("sides", &[3usize, 8, 24]);
            vec![[close(ring(n, 3.0, false)), close(ring(n, 1.5, true))].concat()]
        }
        "hole at corner" => vec![square(), vec![(0.0, 0.0), (1.0, 3.0), (3.0, 1.0)]],
        "hole at notch" => vec![vec![(0.0, 0.0), (6.0, 0.0), (6.0, 6.0), (3.0, 3.0), (0.0, 6.0)], vec![(3.0, 3.0), (4.0, 2.0), (3.0, 1.0), (2.0, 2.0)]],
        "holes at vertex" => vec![square(), vec![(3.0, 3.0), (2.0, 1.0), (1.0, 2.0)], vec![(3.0, 3.0), (4.0, 5.0), (5.0, 4.0)]],
        "hole at edge" => vec![vec![(0.0, 0.0), (3.0, 0.0), (6.0, 0.0), (6.0, 6.0), (0.0, 6.0)], vec![(3.0, 0.0), (2.0, 2.0), (4.0, 2.0)]],
        "pinched" => vec![vec![(0.0, 0.0), (6.0, 0.0), (3.0, 3.0), (6.0, 6.0), (0.0, 6.0), (3.0, 3.0)]],
        "two corners" => vec![square(), vec![(0.0, 0.0), (2.0, 4.0), (6.0, 6.0), (4.0, 2.0)]],
        _ => vec![vec![(0.0, 0.0), (6.0, 0.0), (6.0, 6.0), (0.0, 6.0), (0.0, 3.0), (3.0, 3.0), (0.0, 3.0)]],
    };
    let div = 1 + cx.num("divide-1", 3);
    let turn: f64 = cx.of("turn", &[0.0, 0.7, 2.9]);
    let rot = |p: P2| if turn == 0.0 { p } else { (turn.cos() * p.0 - turn.sin() * p.1, turn.sin() * p.0 + turn.cos() * p.1) };
    for l in &mut loops {
        let n = l.len();
        let mut q = vec![];
        for i in 0..n {
            let (a, b) = (l[i], l[(i + 1) % n]);
            for k in 0..div {
                let t = k as f64 / div as f64;
                q.push(rot((a.0 + t * (b.0 - a.0), a.1 + t * (b.1 - a.1))));
            }
        }
        *l = q;
        let n = l.len();
        let s = cx.num("start", 12);
        l.rotate_left(s * n / 12 % n);
    }
    if loops.len() > 1 && cx.flag("holes-first") {
        loops.reverse();
    }
    loops
}
fn touching(cx: &mut Cx) -> Res {
    let l = touching_loops(cx, true);
    trim_plane(cx, &l, xy(), Point3::ZERO, 6.0)
}
pub fn extent(v: &[P2]) -> f64 {
    v.iter().fold(1.0f64, |a, p| a.max(p.0.abs()).max(p.1.abs()))
}
fn outlines(cx: &mut Cx) -> Res {
    let Some(v) = outline(cx) else { return cx.skip() };
    let scale = extent(&v);
    trim_plane(cx, &[v], xy(), Point3::ZERO, scale)
}
/// almost convex outlines: an ellipse with one or two vertices pushed in, or pulled out, any start
fn notched(cx: &mut Cx) -> Res {
    let top = if cx.thorough() { 28 } else { 16 };
    let n = 5 + cx.num("vertices-5", top);
    let flat = cx.of("height", &[1.0, 0.3]);
    let second = cx.num("second", if cx.thorough() { n / 2 } else { 3.min(n / 2) });
    let depth = cx.of("depth", &[0.0, 0.4, -0.5, 0.75, 3.0]);
    let start = cx.num("start", if cx.thorough() { n } else { 4 });
    let mut v: Vec<P2> = (0..n).map(|i| { let a = 0.1 + i as f64 * std::f64::consts::TAU / n as f64; (5.0 * a.cos(), 5.0 * flat * a.sin()) }).collect();
    v[0] = (v[0].0 * depth, v[0].1 * depth);
    if second > 0 {
        // the second one less, so that it stays clear of the first
        let d = if depth == -0.5 { 0.85 } else { 0.6 };
        v[second] = (v[second].0 * d, v[second].1 * d);
    }
    // a notch which goes beyond the centre of a small polygon may cross it
    let simple = (0..n).all(|i| (0..n).all(|j| {
        let (a, b, c, d) = (v[i], v[(i + 1) % n], v[j], v[(j + 1) % n]);
        let apart = i != j && (i + 1) % n != j && (j + 1) % n != i;
        !apart || cross(a, b, c) * cross(a, b, d) > 1e-6 || cross(c, d, a) * cross(c, d, b) > 1e-6
    }));
    if !simple || area2(&v) <= 0.0 {
        return cx.skip();
    }
    let k = [0, 1, n - 1, n / 2];
    v.rotate_left(if cx.thorough() { start } else { k[start] });
    trim_plane(cx, &[v], xy(), Point3::ZERO, 15.0)
}
/// lattice polygons as small as the library resolves, and large ones
fn sizes(cx: &mut Cx) -> Res {
    let k = cx.of("size", &[1e-3, 2e-3, 0.02, 3e4]);
    let grids: &[(i32, i32, usize)] = if cx.thorough() { &[(3, 3, 9), (4, 3, 7), (4, 4, 5)] } else { &[(3, 3, 9), (4, 3, 5)] };
    let (w, h, m) = cx.of("grid", grids);
    let Some(v) = pick_polygon(cx, w, h, m) else { return cx.skip() };
    if iarea(&v) < 0 {
        return cx.skip();
    }
    cx.say(format!("{:?}", v));
    trim_plane(cx, &[flat(&v).iter().map(|p| (p.0 * k, p.1 * k)).collect()], xy(), Point3::ZERO, w as f64 * k)
}
/// the same faces in every frame, far from the origin, in other sizes
fn framed(cx: &mut Cx) -> Res {
    let f = cx.of("frame", &frames());
    let o = cx.of("origin", &[Point3::ZERO, Point3::new(5.0, -3.0, 2.0), Point3::new(1.0e3, 2.0e3, -3.0e3)]);
    let k = cx.of("scale", &[1.0, 0.05, 300.0]);
    let kind = cx.num("face", 6);
    let l: Vec<Vec<L2>> = match kind {
        0 => vec![vec![(0, 0), (4, 0), (0, 3)]],
        1 => vec![vec![(0, 0), (4, 0), (4, 1), (1, 1), (1, 3), (0, 3)]],
        2 => vec![outer_shapes()[0].clone(), vec![(1, 1), (1, 3), (3, 3), (3, 1)]],
        3 => vec![outer_shapes()[4].clone(), vec![(1, 1), (1, 3), (3, 3), (3, 1)], vec![(4, 1), (4, 5), (5, 5), (5, 1)]],
        4 => vec![vec![(4, 4), (2, 4), (0, 4), (0, 2), (0, 0), (2, 0), (4, 0), (4, 2)]],
        _ => vec![vec![(5, 1), (6, 5), (3, 3), (0, 6), (1, 2), (0, 0), (3, 1)]],
    };
    let lp: Vec<Vec<P2>> = l.iter().map(|l| l.iter().map(|p| (p.0 as f64 * k, p.1 as f64 * k)).collect()).collect();
    trim_plane(cx, &lp, f, o, 10.0 * k)
}
/// repeated boundary points, loops without edges, faces without loops
fn degenerate(cx: &mut Cx) -> Res {
    let base = cx.num("face", 3);
    let v: Vec<L2> = match base {
        0 => vec![(0, 0), (4, 0), (0, 3)],
        1 => vec![(0, 0), (4, 0), (4, 4), (0, 4)],
        _ => vec![(0, 0), (4, 0), (4, 1), (1, 1), (1, 3), (0, 3)],
    };
    let mut w = Vec::new();
    for (i, p) in v.iter().enumerate() {
        let r = if i < 4 { cx.num("repeat", 3) } else { 0 };
        for _ in 0..=r {
            w.push(*p);
        }
    }
    let empty = cx.of("empty-loop", &["none", "before", "after"]);
    let (n, u_axis) = xy();
    let plane = Plane { origin: Point3::ZERO, normal: n, u_axis, v_axis: n.cross(u_axis) };
    let mut bounds = vec![line_loop(&w.iter().map(|p| Point3::new(p.0 as f64, p.1 as f64, 0.0)).collect::<Vec<_>>())];
    match empty {
        "before" => bounds.insert(0, EdgeLoop { edges: vec![] }),
        "after" => bounds.push(EdgeLoop { edges: vec![] }),
        _ => {}
    }
    let mesh = TrimmedSurface { surface: plane, bounds }.get_triangle_mesh();
    let tris: Vec<[P2; 3]> = mesh.triangles.chunks(3).map(|t| { let g = |i: usize| { let p = mesh.vertices[t[i] as usize]; (p.x, p.y) }; [g(0), g(1), g(2)] }).collect();
    exact_cover(cx, &tris, &[flat(&v)], 4.0)?;
    let plane = Plane { origin: Point3::ZERO, normal: n, u_axis, v_axis: n.cross(u_axis) };
    let m = TrimmedSurface { surface: plane, bounds: vec![] }.get_triangle_mesh();
    cx.check(m.triangles.is_empty() && m.vertices.is_empty(), || "a face without loops has a mesh".into())
}
pub fn c12() -> Prop {
    Prop {
        id: "C12",
        scenarios: vec![
            Scenario { name: "degenerate", run: degenerate },
            Scenario { name: "framed", run: framed },
            Scenario { name: "curved", run: super::loops::curved_faces },
            Scenario { name: "outlines", run: outlines },
            Scenario { name: "notched", run: notched },
            Scenario { name: "sizes", run: sizes },
            Scenario { name: "plate", run: plate },
            Scenario { name: "hole", run: hole },
            Scenario { name: "holes", run: holes },
            Scenario { name: "touching", run: touching },
            Scenario { name: "lattice", run: lattice },
        ],
        rule: "every simple counter-clockwise lattice polygon (every start vertex, collinear vertices included), every placement of hole shapes, every hole polygon of a small lattice in six outer shapes, loop orders, frames, sizes, large structured outlines and plates, ellipses with vertices pushed in or pulled out, loops with bridges, seams and slits; the mesh is decided by non-negative triangle areas and a null difference between the triangles' signed boundary chain and the loops, which together mean exact, non-overlapping cover; non-trivial: distinct mesh sizes",
        bounds_quick: "polygons on 3x3 (all, <=9 vertices), 4x3 (<=7), 4x4 (<=6), 5x5 (<=4), 4x2 (<=8); one hole on 4x3 (<=4 vertices) in 6 outer shapes; 2-3 holes of 4 shapes; plates up to 5x5 holes; outlines up to 120 vertices; 14 frames x 3 origins x 3 sizes; lattice steps of 1e-3 to 3e4; notched ellipses of 5 to 20 vertices",
        bounds_thorough: "4x3 (<=9), 4x4 (<=7), 5x5 (<=5), 5x2 (all); holes on 5x5; plates 7x7; outlines 360 vertices; notched ellipses of up to 32 vertices from every start",
        assumptions: vec!["loops are simple up to bridges and seams run there and back, disjoint, and holes lie strictly inside", "features of at least 1e-3 (the library joins points closer than 3.2e-4 and treats cross products below 1e-7 as collinear)"],
    }
}

//! C13: advancing-front meshing and faces trimmed from cylinders and B-spline surfaces.
use super::trim::*;
use super::Prop;
use super::project::frames;
use crate::core::*;
use crate::geo::*;
use geom3d::curve::*;
use geom3d::surface::*;
use geom3d::utils::generate_triangular_mesh;
use geom3d::{Face, Grid, KnotVector, Point2, Point3, TriangleMesh};
use std::collections::HashMap;

fn mesh(cx: &mut Cx, loops: &[Vec<P2>], scale: f64) -> Res {
    let mut points = Vec::new();
    let mut polygons = vec![0];
    for l in loops {
        points.extend(l.iter().map(|p| Point2::new(p.0, p.1)));
        polygons.push(points.len());
    }
    let (v, t) = generate_triangular_mesh(&points, &polygons);
    cx.check(t.len() % 3 == 0 && t.iter().all(|&i| (i as usize) < v.len()), || "bad index".into())?;
    cx.check(v.len() >= points.len() && v[..points.len()] == points[..], || "boundary points changed".into())?;
    let tris: Vec<[P2; 3]> = t.chunks(3).map(|t| { let g = |i: usize| { let p = v[t[i] as usize]; (p.x, p.y) }; [g(0), g(1), g(2)] }).collect();
    cx.observe(&(t.len(), v.len()));
    exact_cover(cx, &tris, loops, scale)
}
fn lattice(cx: &mut Cx) -> Res {
    let sizes: &[(i32, i32, usize)] = if cx.thorough() { &[(3, 3, 9), (4, 3, 8), (4, 4, 6)] } else { &[(3, 3, 9), (4, 3, 6), (4, 4, 5)] };
    let (w, h, m) = cx.of("grid", sizes);
    let Some(v) = pick_polygon(cx, w, h, m) else { return cx.skip() };
    if iarea(&v) < 0 {
        return cx.skip();
    }
    let div = 1 + cx.num("divide-1", 3);
    let turn: f64 = cx.of("turn", &[0.0, 0.7, 2.9]);
    let rot = |p: P2| if turn == 0.0 { p } else { (turn.cos() * p.0 - turn.sin() * p.1, turn.sin() * p.0 + turn.cos() * p.1) };
    let n = v.len();
    let mut p: Vec<P2> = Vec::new();
    for i in 0..n {
        let (a, b) = (v[i], v[(i + 1) % n]);
        for k in 0..div {
            let t = k as f64 / div as f64;
            p.push((a.0 as f64 + t * (b.0 - a.0) as f64, a.1 as f64 + t * (b.1 - a.1) as f64));
        }
    }
    cx.say(format!("{:?}", v));
    let p: Vec<P2> = p.into_iter().map(rot).collect();
    mesh(cx, &[p], w as f64)
}
/// rectangles and other small polygons whose edges are divided at different rates
fn graded(cx: &mut Cx) -> Res {
    let shapes: [Vec<P2>; 5] = [
        vec![(0.0, 0.0), (1.0, 0.0), (1.0, 1.0), (0.0, 1.0)],
        vec![(0.0, 0.0), (4.0, 0.0), (4.0, 1.0), (0.0, 1.0)],
        vec![(0.0, 0.0), (1.0, 0.0), (0.3, 0.9)],
        vec![(0.0, 0.0), (3.0, 0.0), (3.0, 1.0), (1.0, 1.0), (1.0, 3.0), (0.0, 3.0)],
        vec![(0.0, 0.0), (2.0, 0.3), (1.7, 1.6), (0.8, 0.7), (-0.4, 1.9)],
    ];
    let k = cx.num("shape", shapes.len());
    let v = &shapes[k];
    let n = v.len();
    let noise = cx.of("noise", &[0.0, 1e-14, 1e-12, 1e-10, 1e-8, 1e-7, 1e-6, 1e-5]);
    let mut p: Vec<P2> = Vec::new();
    let rates: &[usize] = match (n > 4, cx.thorough()) {
        (true, false) => &[1, 12],
        (true, true) => &[1, 5, 16],
        (false, false) => &[1, 2, 7, 24],
        (false, true) => &[1, 2, 5, 7, 11, 16, 24, 40],
    };
    let style = cx.num("style", 4);
    for i in 0..n {
        let (a, b) = (v[i], v[(i + 1) % n]);
        let div = cx.of("divide", rates);
        for k in 0..div {
            let mut t = k as f64 / div as f64;
            if style == 1 {
                t = t * t;
            }
            // the deviation: alike everywhere, of mixed magnitudes, or along the edges only
            let h = p.len() * 7919;
            let mut e = noise * ((h % 13) as f64 - 6.0);
            if style == 2 {
                e *= 0.1f64.powi((h / 13 % 6) as i32);
            }
            if style == 3 {
                t += e;
                e = 0.0;
            }
            p.push((a.0 + t * (b.0 - a.0) + e, a.1 + t * (b.1 - a.1) - e));
        }
    }
    mesh(cx, &[p], 4.0)
}
fn outlines(cx: &mut Cx) -> Res {
    let Some(v) = outline(cx) else { return cx.skip() };
    let k = cx.of("scale", &[1.0, 0.05, 40.0, 1e-3, 3e-5, 1e4]);
    let v: Vec<P2> = v.iter().map(|p| (p.0 * k, p.1 * k)).collect();
    let scale = extent(&v);
    mesh(cx, &[v], scale)
}
fn hole(cx: &mut Cx) -> Res {
    let (w, h, m, s) = if cx.thorough() { (5, 4, 4, 8) } else { (4, 3, 4, 2) };
    let Some(loops) = hole_loops(cx, w, h, m, s) else { return cx.skip() };
    mesh(cx, &loops, 20.0)
}
fn holes(cx: &mut Cx) -> Res {
    let Some(l) = holes_loops(cx) else { return cx.skip() };
    mesh(cx, &l, 20.0)
}
fn plate(cx: &mut Cx) -> Res {
    let big = cx.thorough();
    let l = plate_loops(cx, big);
    mesh(cx, &l, 100.0)
}
fn touching(cx: &mut Cx) -> Res {
    let l = touching_loops(cx, false);
    mesh(cx, &l, 6.0)
}
/// the mesh is an oriented planar-topology surface whose boundary is exactly the loops
/// (seams: how many loops run along a line there and back)
fn bounded_surface(cx: &mut Cx, mesh: &TriangleMesh, loops: &[Vec<Point3>], seams: i64, scale: f64) -> Res {
    cx.check(mesh.triangles.len() % 3 == 0 && mesh.triangles.iter().all(|&i| (i as usize) < mesh.vertices.len()), || "bad index".into())?;
    let mut ids: HashMap<(i64, i64, i64), usize> = HashMap::new();
    let mut count = 0;
    let mut id = |p: Point3| {
        let q = p / scale * 1e6;
        let k = (q.x.round() as i64, q.y.round() as i64, q.z.round() as i64);
        for d in 0..27 {
            if let Some(&i) = ids.get(&(k.0 + d % 3 - 1, k.1 + d / 3 % 3 - 1, k.2 + d / 9 - 1)) {
                return i;
            }
        }
        ids.insert(k, count);
        count += 1;
        count - 1
    };
    let mut chain: HashMap<(usize, usize), (i32, i32)> = HashMap::new();
    let mut used = std::collections::HashSet::new();
    let mut faces = 0i64;
    for t in mesh.triangles.chunks(3) {
        let k = [0, 1, 2].map(|j| id(mesh.vertices[t[j] as usize]));
        cx.check(k[0] != k[1] && k[1] != k[2] && k[2] != k[0], || format!("triangle {:?} has coinciding corners", t))?;
        faces += 1;
        for j in 0..3 {
            used.insert(k[j]);
            let (a, b) = (k[j], k[(j + 1) % 3]);
            let e = chain.entry((a.min(b), a.max(b))).or_default();
            e.0 += if a < b { 1 } else { -1 };
            e.1 += 1;
        }
    }
    let edges = chain.len() as i64;
    for (e, c) in &chain {
        cx.check(c.1 <= 2 && c.0.abs() <= 1 && (c.1 == 1 || c.0 == 0), || format!("edge {:?} is used {} times with sum {}", e, c.1, c.0))?;
    }
    for l in loops {
        for j in 0..l.len() {
            let (a, b) = (id(l[j]), id(l[(j + 1) % l.len()]));
            let e = chain.entry((a.min(b), a.max(b))).or_default();
            e.0 -= if a < b { 1 } else { -1 };
        }
    }
    let left = chain.iter().filter(|c| c.1 .0 != 0).count();
    cx.check(left == 0, || format!("the boundary of the mesh differs from the loops in {} edges ({} triangles)", left, faces))?;
    let euler = used.len() as i64 - edges + faces;
    cx.check(euler == 2 - loops.len() as i64 - seams, || format!("Euler characteristic {} with {} loops", euler, loops.len()))
}
fn seg(c: Box<dyn Curve>, a: f64, b: f64, tolerance: f64) -> CurveSegment<Box<dyn Curve>> {
    CurveSegment { curve: c, parameter_range: (a, b), tolerance, parameter_division: 16 }
}
/// loops of axis-parallel edges in parameter space, the first one counter-clockwise
fn ortho(kind: usize) -> Vec<Vec<P2>> {
    let sq = |x: f64, y: f64, s: f64| vec![(x, y), (x, y + s), (x + s, y + s), (x + s, y)];
    match kind {
        0 => vec![vec![(0.0, 0.0), (1.0, 0.0), (1.0, 1.0), (0.0, 1.0)]],
        1 => vec![vec![(0.0, 0.0), (1.0, 0.0), (1.0, 0.4), (0.5, 0.4), (0.5, 1.0), (0.0, 1.0)]],
        2 => vec![vec![(0.0, 0.0), (1.0, 0.0), (1.0, 1.0), (0.7, 1.0), (0.7, 0.3), (0.2, 0.3), (0.2, 0.9), (0.0, 0.9)]],
        3 => vec![vec![(0.0, 0.0), (1.0, 0.0), (1.0, 1.0), (0.0, 1.0)], sq(0.3, 0.4, 0.3)],
        4 => vec![vec![(0.0, 0.0), (1.0, 0.0), (1.0, 1.0), (0.0, 1.0)], sq(0.1, 0.1, 0.2), sq(0.6, 0.5, 0.3)],
        5 => vec![vec![(0.0, 0.0), (0.5, 0.0), (1.0, 0.0), (1.0, 0.5), (1.0, 1.0), (0.5, 1.0), (0.0, 1.0), (0.0, 0.5)]],
        7 => vec![vec![(0.0, 0.0), (1.0, 0.0), (1.0, 1.0), (0.0, 1.0)], sq(0.1, 0.1, 0.8)],
        _ => vec![vec![(0.1, 0.2), (0.9, 0.2), (0.9, 0.7), (0.1, 0.7)], sq(0.4, 0.4, 0.2), sq(0.2, 0.3, 0.1), sq(0.7, 0.5, 0.1)],
    }
}
/// the same loops entered at another edge, run the other way round, in another order
fn arrange(cx: &mut Cx, mut loops: Vec<Vec<P2>>) -> (Vec<Vec<P2>>, bool) {
    let s = cx.num("start", 2) * 3;
    let back = cx.flag("reversed");
    let order = if loops.len() > 1 { cx.flag("holes-first") } else { false };
    for l in &mut loops {
        let n = l.len();
        l.rotate_left(s % n);
        if back {
            l.reverse();
        }
    }
    if order {
        loops.reverse();
    }
    (loops, back)
}
fn fixed_draws() {
    rand::mc::install(Some(Box::new(|| 1u64 << 63)));
}
fn cylinder(cx: &mut Cx) -> Res {
    fixed_draws();
    let big = cx.thorough();
    let all = frames();
    let (axis, ref_dir) = if big { cx.of("frame", &all) } else { cx.of("frame", &[all[0], all[5], all[all.len() - 1]]) };
    let origin = if big { cx.of("origin", &[Point3::ZERO, Point3::new(15.0, -30.0, 54.0)]) } else { Point3::new(15.0, -30.0, 54.0) };
    let r = cx.of("radius", if big { &[1.0, 3.0, 40.0] } else { &[1.0, 40.0] });
    let h = cx.of("height", &[1.0, 10.0, 0.2]) * if r == 40.0 { 5.0 } else { 1.0 };
    let z0 = cx.of("z0", if big { &[0.0, 5.0, -7.0, -0.5, 300.0] } else { &[0.0, -7.0, 300.0] });
    let kind = cx.num("face", 12);
    let cyl = Cylinder { origin, axis, ref_dir, radius: r };
    let (a0, sweep) = if kind < 8 { cx.of("angles", if big { &[(0.0, 2.0), (1.0, 0.7), (-1.5, 3.0), (2.0, 5.5), (4.0, 4.5)] } else { &[(1.0, 0.7), (2.0, 5.5)] }) } else { (0.0, std::f64::consts::TAU) };
    let y = axis.cross(ref_dir);
    let at = |t: f64, z: f64| origin + axis * z + (ref_dir * t.cos() + y * t.sin()) * r;
    let arc = |z: f64, t0: f64, t1: f64| seg(Box::new(Circle { center: origin + axis * z, axis, ref_dir, radius: r }), t0, t1, 0.01 * r);
    let (bounds, shape): (Vec<EdgeLoop>, Vec<Vec<P2>>) = if kind < 8 {
        let (l, _) = arrange(cx, ortho(kind));
        let b = l
            .iter()
            .map(|l| EdgeLoop {
                edges: (0..l.len())
                    .map(|i| {
                        let ((u0, v0), (u1, v1)) = (l[i], l[(i + 1) % l.len()]);
                        if v0 == v1 {
                            arc(z0 + h * v0, a0 + sweep * u0, a0 + sweep * u1)
                        } else {
                            let (p, q) = (at(a0 + sweep * u0, z0 + h * v0), at(a0 + sweep * u1, z0 + h * v1));
                            seg(Box::new(Line { origin: p, direction: q - p }), 0.0, 1.0, 0.01 * r)
                        }
                    })
                    .collect(),
            })
            .collect();
        (b, l)
    } else {
        // the full belt: bottom and top circle, counter-clockwise seen from outside or inside
        let back = cx.flag("reversed");
        let tau = std::f64::consts::TAU;
        let s = cx.of("seam", &[0.0, 1.0, 4.0]);
        let up = EdgeLoop { edges: vec![if back { arc(z0, s + tau, s) } else { arc(z0, s, s + tau) }] };
        let down = EdgeLoop { edges: vec![if back { arc(z0 + h, s, s + tau) } else { arc(z0 + h, s + tau, s) }] };
        let mut b = vec![up, down];
        if kind > 9 {
            // one loop that runs up and down the seam
            let (bottom, top) = (at(s, z0), at(s, z0 + h));
            let line = |p: Point3, q: Point3| seg(Box::new(Line { origin: p, direction: q - p }), 0.0, 1.0, 0.01 * r);
            let (down, up) = (b.pop().unwrap().edges.pop().unwrap(), b.pop().unwrap().edges.pop().unwrap());
            let mut edges = vec![up, line(bottom, top), down, line(top, bottom)];
            let start = cx.num("start", 4);
            edges.rotate_left(start);
            b.push(EdgeLoop { edges });
        }
        let mut shape = vec![];
        if kind == 9 || kind == 11 {
            let mut q = vec![(0.2, 0.3), (0.2, 0.6), (0.3, 0.6), (0.3, 0.3)];
            if back {
                q.reverse();
            }
            b.push(EdgeLoop {
                edges: (0..4)
                    .map(|i| {
                        let ((u0, v0), (u1, v1)): (P2, P2) = (q[i], q[(i + 1) % 4]);
                        if v0 == v1 {
                            arc(z0 + h * v0, tau * u0, tau * u1)
                        } else {
                            let (p, q) = (at(tau * u0, z0 + h * v0), at(tau * u1, z0 + h * v1));
                            seg(Box::new(Line { origin: p, direction: q - p }), 0.0, 1.0, 0.01 * r)
                        }
                    })
                    .collect(),
            });
            shape.push(q);
        }
        if cx.flag("swap") {
            b.reverse();
        }
        shape.push(if back { vec![(0.0, 0.0), (0.0, 1.0), (1.0, 1.0), (1.0, 0.0)] } else { vec![(0.0, 0.0), (1.0, 0.0), (1.0, 1.0), (0.0, 1.0)] });
        (b, shape)
    };
    let loops: Vec<Vec<Point3>> = bounds.iter().map(|b| b.to_polygon()).collect();
    let mesh = TrimmedSurface { surface: cyl, bounds }.get_triangle_mesh();
    let scale = r + h + z0.abs() + origin.length();
    for v in &mesh.vertices {
        let d = *v - origin;
        let rad = (d - axis * d.dot(axis)).length();
        cx.check((rad - r).abs() <= 1e-7 * scale, || format!("vertex {:?} is {} from the axis of a cylinder of radius {}", v, rad, r))?;
    }
    cx.observe(&(mesh.triangles.len(), mesh.vertices.len()));
    bounded_surface(cx, &mesh, &loops, (kind > 9) as i64, r + h)?;
    // area on the unrolled cylinder, triangle by triangle
    let want: f64 = shape.iter().map(|l| area2(l) / 2.0 * sweep * h).sum();
    let un = |p: Point3| { let d = p - origin; (d.dot(y).atan2(d.dot(ref_dir)), d.dot(axis)) };
    let (mut sum, mut abs) = (0.0, 0.0);
    for t in mesh.triangles.chunks(3) {
        let q = [0, 1, 2].map(|j| un(mesh.vertices[t[j] as usize]));
        let w = |a: f64| { let mut d = a - q[0].0; while d > std::f64::consts::PI { d -= std::f64::consts::TAU } while d < -std::f64::consts::PI { d += std::f64::consts::TAU } d };
        let a = (w(q[1].0) * (q[2].1 - q[0].1) - (q[1].1 - q[0].1) * w(q[2].0)) / 2.0;
        sum += a;
        abs += a.abs();
    }
    cx.check((sum - want).abs() <= 0.02 * want.abs() + 1e-9, || format!("unrolled mesh area {} of {}", sum, want))?;
    cx.check(abs <= 1.05 * want.abs() + 1e-9, || format!("unrolled triangles add up to {} on a face of {}", abs, want))
}
const UNCLAMPED: usize = 9;
/// graph surfaces: x and y reproduce the parameters, so any vertex tells its own parameters
fn graph(p: (usize, usize), interior: (usize, usize), bump: f64, size: f64, domain: [(f64, f64); 2]) -> (BSplineSurface<Point3>, (Vec<f64>, Vec<f64>)) {
    let kn = |p: usize, k: usize| -> Vec<f64> {
        if k == UNCLAMPED {
            return (0..3 + 2 * p + 1).map(|i| (i as f64 - p as f64) / 3.0).collect();
        }
        let mut t = vec![0.0; p + 1];
        for i in 0..k {
            t.push([0.4, 0.55, 0.7][i]);
        }
        t.extend(vec![1.0; p + 1]);
        t
    };
    let (tu, tv) = (kn(p.0, interior.0), kn(p.1, interior.1));
    let gr = |t: &[f64], p: usize| -> Vec<f64> { (0..t.len() - p - 1).map(|i| t[i + 1..=i + p].iter().sum::<f64>() / p as f64).collect() };
    let (gu, gv) = (gr(&tu, p.0), gr(&tv, p.1));
    let c: Vec<Point3> = gu
        .iter()
        .enumerate()
        .flat_map(|(i, &x)| gv.iter().enumerate().map(move |(j, &y)| Point3::new(size * x, size * y, bump * size * (0.3 * ((i * 2 + j * 3) % 4) as f64 - 0.2))).collect::<Vec<_>>())
        .collect();
    let map = |t: Vec<f64>, (lo, hi): (f64, f64)| t.into_iter().map(|t| if t == 1.0 { hi } else { lo + (hi - lo) * t }).collect::<Vec<_>>();
    let (tu, tv) = (map(tu, domain[0]), map(tv, domain[1]));
    let s = BSplineSurface::new(Grid::from_vec(c, gv.len()), (KnotVector(tu.clone()), KnotVector(tv.clone())), p);
    (s, (tu, tv))
}
/// the iso-parameter curve of a surface as a B-spline curve (control net contracted by the oracle's basis)
fn iso(s: &BSplineSurface<Point3>, t: &(Vec<f64>, Vec<f64>), along_u: bool, fixed: f64) -> BSplineCurve<Point3> {
    let (n, m) = s.control_points.size();
    let (p, q) = (s.degree.0 as usize, s.degree.1 as usize);
    if along_u {
        let b = basis(&t.1, q, fixed);
        let c = (0..n).map(|i| (0..m).map(|j| s.control_points[i][j] * b[j]).fold(Point3::ZERO, |a, x| a + x)).collect();
        BSplineCurve { control_points: c, knots: KnotVector(t.0.clone()), degree: p as u8 }
    } else {
        let b = basis(&t.0, p, fixed);
        let c = (0..m).map(|j| (0..n).map(|i| s.control_points[i][j] * b[i]).fold(Point3::ZERO, |a, x| a + x)).collect();
        BSplineCurve { control_points: c, knots: KnotVector(t.1.clone()), degree: q as u8 }
    }
}
fn spline(cx: &mut Cx) -> Res {
    fixed_draws();
    let big = cx.thorough();
    let p = cx.of("degree", &[(1, 1), (2, 2), (3, 2), (1, 3), (3, 3)]);
    let k = cx.of("interior", if big { &[(0, 0), (1, 0), (1, 2), (UNCLAMPED, UNCLAMPED), (UNCLAMPED, 1)] } else { &[(0, 0), (1, 2), (UNCLAMPED, UNCLAMPED)] });
    let bump = cx.of("bump", if p.0 == 1 || p.1 == 1 { &[0.0, 0.3] } else { &[0.0, 0.3, 1.0] });
    let size = cx.of("size", if big { &[1.0, 20.0, 300.0] } else { &[1.0, 300.0] });
    let kind = cx.num("face", 8);
    let (l, _) = arrange(cx, ortho(kind));
    let domain = cx.of("domain", if big { &[[(0.0, 1.0), (0.0, 1.0)], [(-3.0, 5.0), (2.0, 9.0)], [(0.0, 1.0), (1.0, 3.0)], [(0.0, 40.0), (0.0, 50.0)]] } else { &[[(0.0, 1.0), (0.0, 1.0)], [(-3.0, 5.0), (2.0, 9.0)]] });
    let (s, t) = graph(p, k, bump, size, domain);
    // from the unit square to the domain and back
    let on = |i: usize, x: f64| if x == 1.0 { domain[i].1 } else { domain[i].0 + (domain[i].1 - domain[i].0) * x };
    let tol = 0.004 * size.max(2.5);
    let bounds: Vec<EdgeLoop> = l
        .iter()
        .map(|l| EdgeLoop {
            edges: (0..l.len())
                .map(|i| {
                    let ((u0, v0), (u1, v1)) = (l[i], l[(i + 1) % l.len()]);
                    let (u0, v0, u1, v1) = (on(0, u0), on(1, v0), on(0, u1), on(1, v1));
                    if v0 == v1 { seg(Box::new(iso(&s, &t, true, v0)), u0, u1, tol) } else { seg(Box::new(iso(&s, &t, false, u0)), v0, v1, tol) }
                })
                .collect(),
        })
        .collect();
    let loops: Vec<Vec<Point3>> = bounds.iter().map(|b| b.to_polygon()).collect();
    let mesh = TrimmedSurface { surface: s.clone(), bounds }.get_triangle_mesh();
    cx.observe(&(mesh.triangles.len(), mesh.vertices.len()));
    let c: Vec<Point3> = s.control_points.iter().copied().collect();
    for v in &mesh.vertices {
        let (u, w) = (v.x / size, v.y / size);
        cx.check(u > -1e-6 && u < 1.0 + 1e-6 && w > -1e-6 && w < 1.0 + 1e-6, || format!("vertex {:?} outside the surface", v))?;
        let (bu, bv) = (basis(&t.0, p.0, on(0, u.clamp(0.0, 1.0))), basis(&t.1, p.1, on(1, w.clamp(0.0, 1.0))));
        let z: f64 = (0..bu.len()).flat_map(|i| (0..bv.len()).map(move |j| (i, j))).map(|(i, j)| bu[i] * bv[j] * c[i * bv.len() + j].z).sum();
        cx.check((z - v.z).abs() <= 1e-6 * size, || format!("vertex {:?} is off the surface by {}", v, z - v.z))?;
    }
    bounded_surface(cx, &mesh, &loops, 0, size)?;
    let flat: Vec<Vec<P2>> = loops.iter().map(|l| l.iter().map(|p| (p.x, p.y)).collect()).collect();
    let want: f64 = flat.iter().map(|l| area2(l)).sum::<f64>() / 2.0;
    let (mut sum, mut abs) = (0.0, 0.0);
    for t in mesh.triangles.chunks(3) {
        let q = [0, 1, 2].map(|j| { let p = mesh.vertices[t[j] as usize]; (p.x, p.y) });
        let a = super::trim::cross(q[0], q[1], q[2]) / 2.0;
        sum += a;
        abs += a.abs();
    }
    cx.check((sum - want).abs() <= 1e-4 * want.abs(), || format!("mesh area {} of {}", sum, want))?;
    cx.check(abs <= 1.001 * want.abs(), || format!("triangles add up to {} on a face of {}", abs, want))
}
/// loops without any extent: whatever comes out, it comes out, and the triangles refer to vertices
fn null(cx: &mut Cx) -> Res {
    fixed_draws();
    let r = cx.of("radius", &[1.0, 40.0]);
    let z = cx.of("z", &[0.0, -7.0, 300.0]);
    let cyl = Cylinder { origin: Point3::ZERO, axis: Point3::Z, ref_dir: Point3::X, radius: r };
    let at = |t: f64, z: f64| Point3::Z * z + Point3::new(t.cos(), t.sin(), 0.0) * r;
    let arc = |t0: f64, t1: f64| seg(Box::new(Circle { center: Point3::Z * z, axis: Point3::Z, ref_dir: Point3::X, radius: r }), t0, t1, 0.01 * r);
    let line = |p: Point3, q: Point3| seg(Box::new(Line { origin: p, direction: q - p }), 0.0, 1.0, 0.01 * r);
    let t = cx.of("angle", &[0.0, 1.0, 3.0, 6.2]);
    let sweep = cx.of("sweep", &[0.5, 3.0, std::f64::consts::TAU]);
    let bounds = match cx.num("face", 6) {
        0 => vec![vec![arc(t, t + sweep), arc(t + sweep, t)]],
        1 => vec![vec![arc(t, t + sweep)], vec![arc(t + sweep, t)]],
        2 => vec![vec![line(at(t, z), at(t, z + sweep)), line(at(t, z + sweep), at(t, z))]],
        3 => vec![vec![line(at(t, z), at(t, z))]],
        4 => vec![vec![]],
        _ => vec![],
    };
    let bounds = bounds.into_iter().map(|edges| EdgeLoop { edges }).collect();
    let mesh = TrimmedSurface { surface: cyl, bounds }.get_triangle_mesh();
    cx.observe(&(mesh.triangles.len(), mesh.vertices.len()));
    cx.check(mesh.triangles.len() % 3 == 0 && mesh.triangles.iter().all(|&i| (i as usize) < mesh.vertices.len()), || "triangles refer to vertices which do not exist".into())
}
pub fn c13() -> Prop {
    Prop {
        id: "C13",
        scenarios: vec![
            Scenario { name: "lattice", run: lattice },
            Scenario { name: "graded", run: graded },
            Scenario { name: "outlines", run: outlines },
            Scenario { name: "hole", run: hole },
            Scenario { name: "several", run: holes },
            Scenario { name: "plate", run: plate },
            Scenario { name: "touching", run: touching },
            Scenario { name: "cylinder", run: cylinder },
            Scenario { name: "spline", run: spline },
            Scenario { name: "null", run: null },
        ],
        rule: "every simple counter-clockwise lattice polygon with every edge division and three directions, edge divisions at unequal rates (uniform or growing, deviations alike, mixed or along the edges, of seven magnitudes), outlines of six sizes, one or more holes, plates, loops that touch themselves or each other (bridges, seams, slits, common vertices, every start, divided 1-3); loops without extent; faces of eight parameter loops (holes, notches) on cylinders (frames, radii, heights, angular windows across the seam, belts of the full circle as two loops or one with a seam) and on spline surfaces (degrees, knots, heights, sizes), entered at different edges, run in both directions, holes first or last; the planar mesh is decided like C12 (non-negative areas and a null boundary chain), the curved one by edge use, boundary chain, Euler characteristic, distance of every vertex from the surface, and signed and unsigned area in parameter space; random draws are fixed; an execution of more than 20 s of CPU counts as not terminating; non-trivial: distinct mesh sizes",
        bounds_quick: "3x3 (all), 4x3 (<=6), 4x4 (<=5) divided 1-3; outlines up to 120 vertices; one hole on 4x3; 2-3 holes; cylinder: 3 frames x 2 radii x 3 heights x 3 positions x 12 faces; spline: 5 degrees x 2 parameter domains x 3 knot patterns x 3 heights x 2 sizes x 8 faces",
        bounds_thorough: "4x3 (<=8), 4x4 (<=6); outlines 360; one hole on 5x4; cylinder: all frames x 3 radii x 5 positions x 5 angular windows; spline: 5 knot patterns x 3 sizes",
        assumptions: vec!["loops may touch but not cross; on spline surfaces they are simple and disjoint", "spline faces lie on surfaces without steep folds, where a point's parameters are unique"],
    }
}

//! C21: the geometric utilities against exact integer geometry and plain definitions.
use super::trim::{iarea, pick_polygon, L2};
use super::Prop;
use crate::core::*;
use geom3d::utils::*;
use geom3d::{Grid, Point2, Point3};

const PLACES: [(f64, f64, f64); 4] = [(1.0, 0.0, 0.0), (0.25, -3.0, 8.0), (64.0, 1024.0, -512.0), (0.0625, 0.5, 0.25)];

fn seg2(cx: &mut Cx) -> Res {
    let m = if cx.thorough() { 6 } else { 5 };
    let k = cx.of("place", &PLACES);
    let (a, b, p) = (cx.num("a", m * m), cx.num("b", m * m), cx.num("p", m * m));
    let g = |i: usize| ((i % m) as i64, (i / m) as i64);
    let (a, b, p) = (g(a), g(b), g(p));
    let f = |q: (i64, i64)| Point2::new(q.0 as f64 * k.0 + k.1, q.1 as f64 * k.0 + k.2);
    let got = f(p).distance_to_line_segment(f(a), f(b));
    let want = seg_distance(&[a.0, a.1, 0], &[b.0, b.1, 0], &[p.0, p.1, 0]) * k.0;
    cx.observe_f(got);
    cx.check((got - want).abs() <= 1e-12 * (1.0 + want), || format!("distance of {:?} to {:?}-{:?} is {}, not {}", p, a, b, got, want))
}
/// sqrt of an exact rational
fn seg_distance(a: &[i64; 3], b: &[i64; 3], p: &[i64; 3]) -> f64 {
    let d = |x: &[i64; 3], y: &[i64; 3]| (0..3).map(|i| (x[i] - y[i]) * (x[i] - y[i])).sum::<i64>();
    let dot: i64 = (0..3).map(|i| (p[i] - a[i]) * (b[i] - a[i])).sum();
    let len = d(a, b);
    if dot <= 0 {
        (d(a, p) as f64).sqrt()
    } else if dot >= len {
        (d(b, p) as f64).sqrt()
    } else {
        ((d(a, p) * len - dot * dot) as f64 / len as f64).sqrt()
    }
}
fn seg3(cx: &mut Cx) -> Res {
    let m: i64 = if cx.thorough() { 4 } else { 3 };
    let n = (m * m * m) as usize;
    let s = cx.of("scale", &[1.0, 0.125, 100.0]);
    let (a, b, p) = (cx.num("a", n), cx.num("b", n), cx.num("p", n));
    let g = |i: usize| { let i = i as i64; [i % m, i / m % m, 2 * (i / m / m)] };
    let (a, b, p) = (g(a), g(b), g(p));
    let f = |q: [i64; 3]| Point3::new(q[0] as f64, q[1] as f64, q[2] as f64) * s;
    let got = distance_to_line_segment(f(a), f(b), f(p));
    let want = seg_distance(&a, &b, &p) * s;
    cx.check((got - want).abs() <= 1e-9 * (1.0 + want), || format!("distance of {:?} to {:?}-{:?} is {}, not {}", p, a, b, got, want))
}
/// points which are just beside the ends, the sides or the line of a segment, in 2D and 3D
fn near_segment(cx: &mut Cx) -> Res {
    const K: i64 = 4096;
    let n = if cx.thorough() { 27 } else { 9 };
    // down to segments of the length 1e-5 and up to 8e6
    let s = cx.of("scale", &[1.0, 0.0009765625, 0.25, 0.5f64.powi(29), 0.5f64.powi(40), 1024.0]);
    let (a, b, c) = (cx.num("a", n), cx.num("b", n), cx.num("near", 5));
    let g = |i: usize| { let i = i as i64; [i % 3 * K, i / 3 % 3 * K, i / 9 * K] };
    let (a, b) = (g(a), g(b));
    // at parts of the segment, or twice as far
    let at: Vec<i64> = (0..3).map(|i| a[i] + (b[i] - a[i]) * [0, 4, 2, 1, 8][c] / 4).collect();
    for k in 0..343 {
        let d = |i: i64| [0, 1, -1, 3, -3, 40, -40][(i % 7) as usize];
        let p = [at[0] + d(k), at[1] + d(k / 7), if a[2] == 0 && b[2] == 0 { 0 } else { at[2] + d(k / 49) }];
        let f = |q: &[i64; 3]| Point3::new(q[0] as f64, q[1] as f64, q[2] as f64) * s;
        let want = seg_distance(&a, &b, &p) * s;
        let tol = 1e-11 * K as f64 * s;
        let got = distance_to_line_segment(f(&a), f(&b), f(&p));
        cx.check((got - want).abs() <= tol, || format!("distance of {:?} to {:?}-{:?} is {}, not {}", p, a, b, got, want))?;
        if a[2] == 0 && b[2] == 0 {
            let got = f(&p).truncate().distance_to_line_segment(f(&a).truncate(), f(&b).truncate());
            cx.check((got - want).abs() <= tol, || format!("distance of {:?} to {:?}-{:?} is {}, not {}", p, a, b, got, want))?;
            if k >= 49 {
                break;
            }
        }
    }
    Ok(())
}
/// points close to the sides and corners of a triangle
fn near_triangle(cx: &mut Cx) -> Res {
    const K: i64 = 1024;
    let (a, b, c) = (cx.num("a", 16), cx.num("b", 16), cx.num("c", 16));
    let g = |i: usize| ((i % 4) as i64 * K, (i / 4) as i64 * K);
    let (a, b, c) = (g(a), g(b), g(c));
    let cr = |a: (i64, i64), b: (i64, i64), p: (i64, i64)| (b.0 - a.0) * (p.1 - a.1) - (b.1 - a.1) * (p.0 - a.0);
    if cr(a, b, c) <= 0 {
        return cx.skip();
    }
    // doubled areas of the sub-triangles of points outside exceed the general tolerance
    let s = cx.of("scale", &[1.0 / 64.0, 0.5f64.powi(15), 16.0]);
    let f = |q: (i64, i64)| Point2::new(q.0 as f64 * s, q.1 as f64 * s);
    for w in 0..28i64 {
        // corners, points of the sides and beyond, the middle
        let m = |a: (i64, i64), b: (i64, i64), k: i64| (a.0 + (b.0 - a.0) * k / 4, a.1 + (b.1 - a.1) * k / 4);
        let q = match w / 9 {
            0 => m(a, b, w % 9 - 2),
            1 => m(b, c, w % 9 - 2),
            2 => m(c, a, w % 9 - 2),
            _ => m(a, m(b, c, 2), 2),
        };
        for k in 0..25 {
            let d = [0, 1, -1, 7, -7];
            let p = (q.0 + d[k % 5], q.1 + d[k / 5]);
            let want = cr(a, b, p) >= 0 && cr(b, c, p) >= 0 && cr(c, a, p) >= 0;
            let got = f(p).is_inside_triangle(f(a), f(b), f(c));
            cx.observe(&got);
            cx.check(got == want, || format!("{:?} inside ({:?}, {:?}, {:?}): {}", p, a, b, c, got))?;
        }
    }
    Ok(())
}
/// points at almost the same distance
fn near_ties(cx: &mut Cx) -> Res {
    let n = 2 + cx.num("points-2", if cx.thorough() { 4 } else { 3 });
    let dirs = [Point3::new(1.0, 0.0, 0.0), Point3::new(0.0, 0.6, -0.8), Point3::new(-0.48, 0.64, 0.6)];
    let scale = cx.of("scale", &[1.0, 1e-6, 1e6]);
    let mut far = vec![];
    let mut l = vec![];
    for _ in 0..n {
        let (d, k) = (cx.pick(3), cx.pick(4));
        // the steps are 1e-11 of the distance
        far.push(k);
        l.push(dirs[d] * (scale * (1.0 + k as f64 * 1e-11)));
    }
    cx.say(format!("{:?}", l));
    let best = *far.iter().min().unwrap();
    let got = find_nearest_point(&l, Point3::ZERO);
    cx.observe(&got);
    cx.check(far[got] == best, || format!("the nearest is index {}, steps {:?}", got, far))?;
    let got = find_nearest_point_in_grid(&Grid::from_vec(l.clone(), n), Point3::ZERO);
    cx.check(got.0 == 0 && far[got.1] == best, || format!("the nearest in a row is {:?}, steps {:?}", got, far))
}
fn triangle(cx: &mut Cx) -> Res {
    let m = if cx.thorough() { 6 } else { 5 };
    let k = cx.of("place", &PLACES);
    let (a, b, c) = (cx.num("a", m * m), cx.num("b", m * m), cx.num("c", m * m));
    let g = |i: usize| ((i % m) as i64, (i / m) as i64);
    let (a, b, c) = (g(a), g(b), g(c));
    let cr = |a: (i64, i64), b: (i64, i64), p: (i64, i64)| (b.0 - a.0) * (p.1 - a.1) - (b.1 - a.1) * (p.0 - a.0);
    if cr(a, b, c) <= 0 {
        return cx.skip();
    }
    let f = |q: (i64, i64)| Point2::new(q.0 as f64 * k.0 + k.1, q.1 as f64 * k.0 + k.2);
    for i in 0..(m + 2) * (m + 2) {
        let p = ((i % (m + 2)) as i64 - 1, (i / (m + 2)) as i64 - 1);
        let want = cr(a, b, p) >= 0 && cr(b, c, p) >= 0 && cr(c, a, p) >= 0;
        let got = f(p).is_inside_triangle(f(a), f(b), f(c));
        cx.observe(&got);
        cx.check(got == want, || format!("{:?} inside ({:?}, {:?}, {:?}): {}", p, a, b, c, got))?;
    }
    Ok(())
}
fn nearest(cx: &mut Cx) -> Res {
    let n = 1 + cx.num("points-1", if cx.thorough() { 5 } else { 4 });
    let far = cx.of("scale", &[1.0, 1e6]);
    let pool: [Point3; 7] = [
        Point3::new(0.0, 0.0, 0.0),
        Point3::new(1.0, 0.0, 0.0),
        Point3::new(0.0, 1.0, 0.0),
        Point3::new(0.0, 0.0, 1.0),
        Point3::new(-1.0, 0.0, 0.0),
        Point3::new(2.0, 1.0, -1.0),
        Point3::new(0.0, -3.0, 0.0),
    ];
    let l: Vec<Point3> = (0..n).map(|_| pool[cx.pick(pool.len())] * far).collect();
    cx.say(format!("{:?}", l));
    for q in 0..64 {
        let p = Point3::new((q % 4) as f64 - 1.0, (q / 4 % 4) as f64 * 0.5 - 1.0, (q / 16) as f64 - 2.0) * far;
        let d: Vec<f64> = l.iter().map(|x| (x.x - p.x).powi(2) + (x.y - p.y).powi(2) + (x.z - p.z).powi(2)).collect();
        let mut want = 0;
        for i in 0..n {
            if d[i] < d[want] {
                want = i;
            }
        }
        let got = find_nearest_point(&l, p);
        cx.observe(&got);
        cx.check(got == want, || format!("nearest to {:?} is index {}, not {}", p, got, want))?;
        for cols in 1..=n {
            if n % cols == 0 {
                let got = find_nearest_point_in_grid(&Grid::from_vec(l.clone(), cols), p);
                cx.check(got == (want / cols, want % cols), || format!("nearest to {:?} in rows of {} is {:?}, not {:?}", p, cols, got, (want / cols, want % cols)))?;
            }
        }
    }
    Ok(())
}
const VALUES: [f64; 13] = [0.0, -0.0, 1.0, -1.0, 0.1, -0.3, 1e-9, -1e-9, 1e9, -7e8, 1.0 / 3.0, 1e300, -1e300];
fn ranges(cx: &mut Cx) -> Res {
    let (a, b) = (cx.of("start", &VALUES), cx.of("end", &VALUES));
    let (lo, hi) = (a.min(b), a.max(b));
    let mut tests = VALUES.to_vec();
    tests.extend([a, b, a / 2.0 + b / 2.0, 0.5, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN]);
    for x in tests {
        let got = clamp_in_range(x, (a, b));
        let want = if x < lo { lo } else if x > hi { hi } else { x };
        cx.check(got == want, || format!("{} clamped to ({}, {}) is {}", x, a, b, got))?;
    }
    if (b - a).is_finite() {
        let size = a.abs().max(b.abs());
        for r in [0.0, 1.0, 0.5, 0.25, -1.0, 2.0, 0.1] {
            let got = range_at((a, b), r);
            let want = a * (1.0 - r) + b * r;
            cx.check((got - want).abs() <= 1e-14 * size, || format!("({}, {}) at {} is {}", a, b, r, got))?;
        }
        cx.check(range_at((a, b), 0.0) == a, || "range start".into())?;
        let top = if cx.thorough() { 300 } else { 66 };
        for n in (1..=top).chain([97, 128, 1000, 4096]) {
            let u = uniform_divide((a, b), n);
            cx.check(u.len() == n + 1, || format!("{} values for {} divisions", u.len(), n))?;
            cx.check(u[0] == a && u[n] == b, || format!("ends {} and {} of ({}, {})", u[0], u[n], a, b))?;
            for i in 0..=n {
                let want = a + (b - a) * (i as f64 / n as f64);
                cx.check((u[i] - want).abs() <= 1e-11 * size, || format!("value {} of {} in ({}, {}) is {}, not {}", i, n, a, b, u[i], want))?;
            }
        }
    }
    Ok(())
}
fn scalars(cx: &mut Cx) -> Res {
    let x = cx.of("x", &[1.0, 2.0, 0.5, 3.0, 1e-3, 1e-7, 1e-10, 1e-14, 1e-15, 1e9, 1e300, 7.0]);
    let x: f64 = if cx.flag("negative") { -x } else { x };
    cx.check(inv_or_zero(x) == 1.0 / x, || format!("1/{} is {}", x, inv_or_zero(x)))?;
    cx.check(inv_or_zero(0.0) == 0.0 && inv_or_zero(-0.0) == 0.0, || "1/0".into())?;
    let near = |d: f64| Tolerance::near(&x, x + d);
    let near2 = |d: f64| Tolerance::near2(&d, 0.0);
    if x.abs() <= 10.0 {
        cx.check(near(0.0) && near(0.9e-7) && near(-0.9e-7) && !near(1.2e-7) && !near(-1.2e-7), || format!("near at {}", x))?;
    }
    cx.check(near2(0.9e-14) && near2(-0.9e-14) && !near2(1.1e-14) && !near2(-1.1e-14), || "near2".into())?;
    // scaling
    Ok(())
}
fn minmax(cx: &mut Cx) -> Res {
    let n = 1 + cx.num("items-1", if cx.thorough() { 5 } else { 4 });
    let v: Vec<f64> = (0..n).map(|_| [0.0, 1.0, -1.0, 5.5, -1e300, 1e300, 3.0][cx.pick(7)]).collect();
    cx.say(format!("{:?}", v));
    let (mut lo, mut hi) = (v[0], v[0]);
    for &x in &v {
        lo = lo.min(x);
        hi = hi.max(x);
    }
    let got = get_min_max_by_key(&v, |x| *x);
    cx.check(got == (lo, hi), || format!("{:?}", got))?;
    let got = get_min_max_by_key(&v, |x| -*x);
    cx.check(got == (-hi, -lo), || format!("of the negatives: {:?}", got))?;
    let pts: Vec<Point2> = v.iter().enumerate().map(|(i, &x)| Point2::new(i as f64, x)).collect();
    cx.check(get_min_max_by_key(&pts, |p| p.x) == (0.0, n as f64 - 1.0) && get_min_max_by_key(&pts, |p| p.y) == (lo, hi), || "of points".into())
}
/// winding and convexity of every simple lattice polygon, by integer cross products
fn polygons(cx: &mut Cx) -> Res {
    let sizes: &[(i32, i32, usize)] = if cx.thorough() { &[(3, 3, 9), (4, 3, 9), (4, 4, 6), (5, 5, 4)] } else { &[(3, 3, 9), (4, 3, 6), (4, 4, 5)] };
    let (w, h, m) = cx.of("grid", sizes);
    let Some(v) = pick_polygon(cx, w, h, m) else { return cx.skip() };
    let n = v.len();
    let ccw = iarea(&v) > 0;
    for (s, dx, dy) in PLACES {
        let p: Vec<Point2> = v.iter().map(|q| Point2::new(q.0 as f64 * s + dx, q.1 as f64 * s + dy)).collect();
        cx.check(is_polygon_counter_clockwise(&p) == ccw, || format!("winding of {:?}", v))?;
        let (mut keep, mut concave) = (vec![], vec![]);
        for i in 0..n {
            let (a, b, c): (L2, L2, L2) = (v[(i + n - 1) % n], v[i], v[(i + 1) % n]);
            let k = (b.0 - a.0) * (c.1 - b.1) - (b.1 - a.1) * (c.0 - b.0);
            if k != 0 {
                keep.push(i);
            }
            if k < 0 {
                concave.push(i);
            }
        }
        let (got, gc) = compute_vertex_convexity(&p);
        let (mut gs, mut cs): (Vec<usize>, Vec<usize>) = (got.iter().copied().collect(), gc.clone());
        gs.sort();
        cs.sort();
        cx.check(gs == keep, || format!("kept vertices {:?}, not {:?}, of {:?}", gs, keep, v))?;
        cx.check(cs == concave, || format!("concave vertices {:?}, not {:?}, of {:?}", cs, concave, v))?;
        // in cyclic order
        let turns = (0..got.len()).filter(|&i| got[i] > got[(i + 1) % got.len()]).count();
        cx.check(turns == 1, || format!("order {:?}", got))?;
    }
    cx.observe(&(ccw, n));
    Ok(())
}
/// nothing panics on degenerate polygons: repeated points, spikes, zero area
fn degenerate(cx: &mut Cx) -> Res {
    let n = 1 + cx.num("points-1", if cx.thorough() { 6 } else { 5 });
    let p: Vec<Point2> = (0..n).map(|_| [Point2::new(0.0, 0.0), Point2::new(1.0, 0.0), Point2::new(2.0, 0.0), Point2::new(0.0, 1.0)][cx.pick(4)]).collect();
    cx.say(format!("{:?}", p));
    is_polygon_counter_clockwise(&p);
    let (v, c) = compute_vertex_convexity(&p);
    cx.check(v.iter().chain(&c).all(|&i| i < n), || "bad index".into())?;
    let t = trianglate_polygon(&p, v, c);
    cx.check(t.len() % 3 == 0 && t.iter().all(|&i| (i as usize) < n), || "bad triangle".into())
}
pub fn c21() -> Prop {
    Prop {
        id: "C21",
        scenarios: vec![
            Scenario { name: "segment-2d", run: seg2 },
            Scenario { name: "segment-3d", run: seg3 },
            Scenario { name: "triangle", run: triangle },
            Scenario { name: "near-segment", run: near_segment },
            Scenario { name: "near-triangle", run: near_triangle },
            Scenario { name: "near-ties", run: near_ties },
            Scenario { name: "nearest", run: nearest },
            Scenario { name: "ranges", run: ranges },
            Scenario { name: "scalars", run: scalars },
            Scenario { name: "min-max", run: minmax },
            Scenario { name: "polygons", run: polygons },
            Scenario { name: "degenerate", run: degenerate },
        ],
        rule: "every triple of lattice points for segment distances (2D, 3D) and point in triangle, every point just beside a segment, a side or a corner, every short list of points with every query for nearest points, every list of points at almost the same distance, every pair of 13 range ends with every division count, every simple lattice polygon and every short degenerate point list, decided by exact integer arithmetic; non-trivial: distinct answers",
        bounds_quick: "near points 1/4096 (segments, 6 scales down to 1e-12) and 1/1024 (triangles, 3 scales) of a lattice step away, distances 1e-11 apart; 5x5 lattice x 4 placements (2D), 3x3x3 x 3 scales (3D), 4-point lists of 7 points, divisions 1..66 and up to 4096, polygons on 3x3 (all), 4x3 (<=6), 4x4 (<=5)",
        bounds_thorough: "6x6 lattice, 4x4x4, 5-point lists, divisions 1..300, polygons on 4x3 (<=9), 4x4 (<=6), 5x5 (<=4)",
        assumptions: vec!["triangles are given counter-clockwise and not degenerate", "at least one division, at least one item"],
    }
}

//! C19: STEP files are generated from a reference model and read by the real reader.
use super::files::dir;
use super::Prop;
use crate::core::*;
use crate::geo;
use crate::io;
use geom3d::curve::{Curve, CurveSegment};
use geom3d::model::StepReader;
use geom3d::surface::{Surface, TrimmedSurface};
use geom3d::{Face, Point3, TriangleMesh};
use std::f64::consts::{PI, TAU};

type Model = geom3d::Model<TrimmedSurface<Box<dyn Surface>>>;
fn p(x: f64, y: f64, z: f64) -> Point3 {
    Point3::new(x, y, z)
}
/// a real of the exchange format: always with a decimal point
fn real(x: f64) -> String {
    let s = format!("{:?}", x);
    match s.split_once('e') {
        None => s,
        Some((m, e)) => format!("{}{}E{}", m, if m.contains('.') { "" } else { "." }, e),
    }
}
fn tuple(v: Point3) -> String {
    format!("({},{},{})", real(v.x), real(v.y), real(v.z))
}
fn refs(v: &[i64]) -> String {
    format!("({})", v.iter().map(|i| format!("#{}", i)).collect::<Vec<_>>().join(","))
}
fn reals(v: &[f64]) -> String {
    format!("({})", v.iter().map(|x| real(*x)).collect::<Vec<_>>().join(","))
}
fn ints(v: &[usize]) -> String {
    format!("({})", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}
fn log(b: bool) -> &'static str {
    if b {
        ".T."
    } else {
        ".F."
    }
}
#[derive(Default)]
struct File {
    data: Vec<(i64, String)>,
    last: i64,
}
impl File {
    fn add(&mut self, s: String) -> i64 {
        self.last += 1;
        self.data.push((self.last, s));
        self.last
    }
    fn point(&mut self, q: Point3) -> i64 {
        self.add(format!("CARTESIAN_POINT('',{})", tuple(q)))
    }
    fn points(&mut self, q: &[Point3]) -> Vec<i64> {
        q.iter().map(|q| self.point(*q)).collect()
    }
    fn dir(&mut self, q: Point3) -> i64 {
        self.add(format!("DIRECTION('',{})", tuple(q)))
    }
    fn axes(&mut self, a: &Axes) -> i64 {
        let o = self.point(a.o);
        let z = a.z.map(|z| format!("#{}", self.dir(z))).unwrap_or("$".into());
        let x = a.x.map(|x| format!("#{}", self.dir(x))).unwrap_or("$".into());
        self.add(format!("AXIS2_PLACEMENT_3D('',#{},{},{})", o, z, x))
    }
    fn vertex(&mut self, q: Point3) -> i64 {
        let q = self.point(q);
        self.add(format!("VERTEX_POINT('',#{})", q))
    }
    fn text(&self) -> String {
        let mut s = String::from(HEAD);
        for (i, l) in &self.data {
            s.push_str(&format!("#{}={};\n", i, l));
        }
        s.push_str(TAIL);
        s
    }
}
const HEAD: &str = "ISO-10303-21;\nHEADER;\nFILE_DESCRIPTION((''),'2;1');\nFILE_NAME('part.stp','2020-01-01T00:00:00',(''),(''),'','','');\nFILE_SCHEMA(('AUTOMOTIVE_DESIGN { 1 0 10303 214 1 1 1 1 }'));\nENDSEC;\nDATA;\n";
const TAIL: &str = "ENDSEC;\nEND-ISO-10303-21;\n";

/// placement as written; `frame` is what it means
#[derive(Clone, Copy, Debug)]
struct Axes {
    o: Point3,
    z: Option<Point3>,
    x: Option<Point3>,
}
impl Axes {
    fn frame(&self) -> (Point3, Point3, Point3) {
        let z = self.z.unwrap_or(p(0.0, 0.0, 1.0)).normalize();
        let x = match self.x {
            Some(x) => x,
            None if z.x.abs() == 1.0 => p(0.0, 1.0, 0.0),
            None => p(1.0, 0.0, 0.0),
        };
        let x = (x - z * x.dot(z)).normalize();
        (x, z.cross(x), z)
    }
}
const ONE: Axes = Axes { o: Point3::ZERO, z: None, x: None };
fn placements() -> Vec<Axes> {
    let o = p(1.5, -2.25, 10.0);
    let v = |z, x| Axes { o, z, x };
    let (ex, ey, ez) = (p(1.0, 0.0, 0.0), p(0.0, 1.0, 0.0), p(0.0, 0.0, 1.0));
    vec![
        v(Some(ez), Some(ex)),
        v(Some(ex), Some(ez)),
        v(Some(-ey), Some(p(0.6, 0.0, 0.8))),
        v(Some(p(0.0, 0.6, 0.8)), Some(p(-1.0, 0.0, 0.0))),
        v(Some(p(2.0 / 3.0, -1.0 / 3.0, 2.0 / 3.0)), Some(p(2.0 / 3.0, 2.0 / 3.0, -1.0 / 3.0))),
        // directions are ratios, not unit vectors
        v(Some(p(0.0, 0.0, 5.0)), Some(p(0.0, -0.25, 0.0))),
        v(Some(p(1.0, 2.0, 2.0)), Some(p(2.0, -2.0, 1.0))),
        // the reference direction is made orthogonal
        v(Some(ez), Some(p(1.0, 0.0, 1.0))),
        v(Some(p(0.0, 3.0, 4.0)), Some(p(1.0, 1.0, 0.5))),
        v(Some(ez), Some(p(1.0, 0.0, 0.02))),
        v(Some(p(1.0, 2.0, 2.0)), Some(p(2.03, -1.96, 1.02))),
        // omitted
        v(None, None),
        v(Some(-ex * 3.0), None),
        v(Some(ex * 0.25), None),
        v(Some(p(1.0, 1e-3, 0.0)), None),
        v(Some(p(0.0, 2.0, 0.0)), None),
        v(Some(ex), None),
        v(None, Some(p(0.0, 3.0, 0.0))),
    ]
}

// ------------------------------------------------------------------ reading
fn read<T: Send>(seed: u64, text: &str, f: impl FnOnce(&Model) -> Result<T, String> + Send) -> Result<T, String> {
    let path = dir().join("m.stp");
    std::fs::write(&path, text).expect("MC: write");
    // hash seeds are drawn once per thread
    std::thread::scope(|s| {
        s.spawn(|| {
            io::hash_seed(seed);
            match guarded(|| StepReader::read_model(&path)) {
                Err(m) => Err(format!("panicked: {}", m)),
                Ok(Err(e)) => Err(format!("refused: {}", e)),
                Ok(Ok(m)) => match guarded(|| f(&m)) {
                    Ok(r) => r,
                    Err(m) => Err(format!("panicked: {}", m)),
                },
            }
        })
        .join()
        .expect("MC: reader thread")
    })
}
fn digest(m: &Model) -> String {
    let mut s = String::new();
    for f in &m.faces {
        s.push_str(&format!("F {:?}\n", f.surface));
        for b in &f.bounds {
            s.push_str(&format!(" L {:?}\n", b.edges));
        }
    }
    for c in &m.curves {
        s.push_str(&format!("C {:?}\n", c.segments));
    }
    s
}
/// read under every hash seed: the model is the same and is the expected one
fn read_all(cx: &mut Cx, text: &str, seeds: u64, f: impl Fn(&Model) -> Result<(), String> + Send + Sync) -> Res {
    let mut first: Option<String> = None;
    for seed in 0..seeds {
        match read(seed, text, |m| f(m).map(|_| digest(m))) {
            Err(e) => return cx.fail(format!("{} (hash seed {}) reading\n{}", e, seed, &text[HEAD.len()..text.len() - TAIL.len()])),
            Ok(d) => {
                if seed == 0 {
                    cx.observe(&d);
                }
                let same = first.as_ref().map_or(true, |w| *w == d);
                cx.check(same, || format!("hash seed {} gives another model", seed))?;
                first = Some(d);
            }
        }
    }
    Ok(())
}
fn ok(b: bool, f: impl FnOnce() -> String) -> Result<(), String> {
    if b {
        Ok(())
    } else {
        Err(f())
    }
}
fn near(a: Point3, b: Point3, tol: f64) -> bool {
    geo::near3(a, b, tol * (1.0 + b.length()))
}

// ------------------------------------------------------------------ curves
#[derive(Clone, Debug)]
enum Cu {
    Line { o: Point3, d: Point3, m: f64 },
    Circle { a: Axes, r: f64 },
    Poly(Vec<Point3>),
    Spline { deg: usize, c: Vec<Point3>, k: Vec<f64>, m: Vec<usize> },
}
impl Cu {
    fn write(&self, f: &mut File) -> i64 {
        match self {
            Cu::Line { o, d, m } => {
                let (o, d) = (f.point(*o), f.dir(*d));
                let v = f.add(format!("VECTOR('',#{},{})", d, real(*m)));
                f.add(format!("LINE('',#{},#{})", o, v))
            }
            Cu::Circle { a, r } => {
                let a = f.axes(a);
                f.add(format!("CIRCLE('',#{},{})", a, real(*r)))
            }
            Cu::Poly(v) => {
                let v = f.points(v);
                f.add(format!("POLYLINE('',{})", refs(&v)))
            }
            Cu::Spline { deg, c, k, m } => {
                let c = f.points(c);
                f.add(format!("B_SPLINE_CURVE_WITH_KNOTS('',{},{},.UNSPECIFIED.,.F.,.F.,{},{},.UNSPECIFIED.)", deg, refs(&c), ints(m), reals(k)))
            }
        }
    }
    fn knots(k: &[f64], m: &[usize]) -> Vec<f64> {
        k.iter().zip(m).flat_map(|(k, m)| std::iter::repeat(*k).take(*m)).collect()
    }
    /// the point at a parameter as the exchange format defines it
    fn at(&self, u: f64) -> Point3 {
        match self {
            Cu::Line { o, d, m } => *o + d.normalize() * (m * u),
            Cu::Circle { a, r } => {
                let (x, y, _) = a.frame();
                a.o + (x * u.cos() + y * u.sin()) * *r
            }
            Cu::Poly(v) => {
                let i = (u.floor().max(0.0) as usize).min(v.len() - 2);
                v[i] + (v[i + 1] - v[i]) * (u - i as f64)
            }
            Cu::Spline { deg, c, k, m } => {
                let t = Cu::knots(k, m);
                geo::bspline3_piece(&t, *deg, c, geo::span_of(&t, u), u)
            }
        }
    }
    /// points in order from one parameter to another, polyline vertices included
    fn run(&self, a: f64, b: f64, n: usize) -> Vec<Point3> {
        if let Cu::Poly(v) = self {
            // by arc length, as the sampled segment is
            let mut us = vec![a];
            let mut inner: Vec<f64> = (0..v.len()).map(|i| i as f64).filter(|i| a.min(b) < *i && *i < a.max(b)).collect();
            if b < a {
                inner.reverse();
            }
            us.extend(inner);
            us.push(b);
            let q: Vec<Point3> = us.iter().map(|u| self.at(*u)).collect();
            let total: f64 = q.windows(2).map(|w| w[0].distance(w[1])).sum();
            return (0..=n)
                .map(|i| {
                    let mut l = total * i as f64 / n as f64;
                    for w in q.windows(2) {
                        let d = w[0].distance(w[1]);
                        if l <= d {
                            return if d == 0.0 { w[0] } else { w[0] + (w[1] - w[0]) * (l / d) };
                        }
                        l -= d;
                    }
                    q[q.len() - 1]
                })
                .collect();
        }
        (0..=n).map(|i| self.at(a + (b - a) * i as f64 / n as f64)).collect()
    }
}
fn along(seg: &CurveSegment<Box<dyn Curve>>, n: usize) -> Vec<Point3> {
    let (a, b) = seg.parameter_range;
    (0..=n).map(|i| seg.curve.get_point(if i == n { b } else { a + (b - a) * i as f64 / n as f64 })).collect()
}
fn same_run(seg: &CurveSegment<Box<dyn Curve>>, want: &[Point3], tol: f64) -> Result<(), String> {
    let got = along(seg, want.len() - 1);
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        ok(near(*g, *w, tol), || format!("point {} of {} is {} instead of {} on {:?} over {:?}", i, want.len() - 1, g, w, seg.curve, seg.parameter_range))?;
    }
    // and what a mesh or drawing sees
    let pts = seg.get_points();
    ok(near(pts[0], want[0], tol) && near(pts[pts.len() - 1], want[want.len() - 1], tol), || "sampled points do not run from end to end".into())
}
const N: usize = 12;
fn generic() -> Vec<Point3> {
    vec![p(0.0, 0.0, 0.0), p(1.0, 2.0, 0.5), p(3.0, 2.5, -0.5), p(5.0, 1.0, 1.0), p(6.5, 3.0, 2.0), p(8.0, 0.0, 1.0)]
}
/// basis curves with trimming parameters (start, end) increasing
fn basis(kind: usize) -> (Cu, [f64; 4]) {
    let tilt = Axes { o: p(1.0, 2.0, 3.0), z: Some(p(0.0, 3.0, 4.0)), x: Some(p(2.0, 0.0, 0.0)) };
    let flat = Axes { o: p(4.0, 0.0, 0.0), z: Some(p(0.0, 0.0, 1.0)), x: Some(p(1.0, 0.0, 0.0)) };
    match kind {
        0 => (Cu::Line { o: p(1.0, 0.0, 2.0), d: p(0.6, 0.0, 0.8), m: 1.0 }, [0.0, 2.0, -1.0, 7.5]),
        1 => (Cu::Line { o: p(1.0, 5.0, 2.0), d: p(3.0, 4.0, 0.0), m: 2.5 }, [-0.5, 2.0, 1.0, 4.0]),
        2 => (Cu::Circle { a: flat, r: 2.0 }, [0.0, 2.0, 1.0, 6.0]),
        3 => (Cu::Circle { a: tilt, r: 0.5 }, [PI, PI + 2.5, 0.25, TAU - 0.25]),
        4 => (Cu::Poly(generic()), [0.0, 5.0, 0.5, 3.25]),
        5 => (Cu::Poly(generic()[..2].to_vec()), [0.0, 1.0, 0.25, 0.75]),
        6 => (Cu::Spline { deg: 3, c: generic(), k: vec![0.0, 1.0, 1.5, 4.0], m: vec![4, 1, 1, 4] }, [0.0, 4.0, 0.5, 3.0]),
        7 => (Cu::Spline { deg: 2, c: generic()[..5].to_vec(), k: vec![-2.0, 1.0, 6.0], m: vec![3, 2, 3] }, [-2.0, 6.0, 0.0, 1.0]),
        8 => {
            let c = generic();
            let n = c.len() + 4;
            let (k, m) = ((0..n).map(|i| i as f64 * 0.5 - 1.0).collect::<Vec<_>>(), vec![1; n]);
            let (a, b) = (k[3], k[n - 4]);
            (Cu::Spline { deg: 3, c, k, m }, [a, b, a + 0.25, b - 0.4])
        }
        9 => (Cu::Spline { deg: 1, c: generic()[..4].to_vec(), k: vec![0.0, 1.0, 2.0, 3.0], m: vec![2, 1, 1, 2] }, [0.0, 3.0, 0.5, 2.0]),
        10 => {
            // a point twice and segments which are very short
            let g = generic();
            let v = vec![g[0], g[1], g[1], g[2], g[2] + p(0.004, 0.0, 0.0), g[2] + p(0.004, 0.003, 0.0), g[3], g[4]];
            (Cu::Poly(v), [0.0, 7.0, 0.5, 5.25])
        }
        _ => {
            // first and last point twice
            let g = generic();
            (Cu::Poly(vec![g[0], g[0], g[1], g[2], g[3], g[3]]), [0.0, 5.0, 1.5, 4.0])
        }
    }
}
const BASES: usize = 12;
/// trimmed curves in composite curves
fn trimmed(cx: &mut Cx) -> Res {
    let kind = cx.num("basis", BASES);
    let (c, t) = basis(kind);
    let (a, b) = [(t[0], t[1]), (t[2], t[3])][cx.num("range", 2)];
    let (sense, same) = (cx.flag("sense"), cx.flag("segment-sense"));
    // the trims follow the sense of the trimmed curve
    let (t1, t2) = if sense { (a, b) } else { (b, a) };
    let how = cx.of("trims", &["parameter", "point", "parameter+point", "point+parameter"]);
    let mut f = File::default();
    let id = c.write(&mut f);
    let mut trim = |u: f64| {
        let q = f.point(c.at(u));
        let v = format!("PARAMETER_VALUE({})", real(u));
        match how {
            "parameter" => format!("({})", v),
            "point" => format!("(#{})", q),
            "parameter+point" => format!("({},#{})", v, q),
            _ => format!("(#{},{})", q, v),
        }
    };
    let (s1, s2) = (trim(t1), trim(t2));
    let pref = if how.starts_with("point") { ".CARTESIAN." } else { ".PARAMETER." };
    let tc = f.add(format!("TRIMMED_CURVE('',#{},{},{},{},{})", id, s1, s2, log(sense), pref));
    let seg = f.add(format!("COMPOSITE_CURVE_SEGMENT(.CONTINUOUS.,{},#{})", log(same), tc));
    f.add(format!("COMPOSITE_CURVE('',(#{}),.F.)", seg));
    let (from, to) = if same { (t1, t2) } else { (t2, t1) };
    let want = c.run(from, to, N);
    read_all(cx, &f.text(), if how.contains('+') { 6 } else { 2 }, |m| {
        ok(m.faces.is_empty() && m.curves.len() == 1, || format!("{} faces, {} curves", m.faces.len(), m.curves.len()))?;
        ok(m.curves[0].segments.len() == 1, || format!("{} segments", m.curves[0].segments.len()))?;
        same_run(&m.curves[0].segments[0], &want, 1e-6)
    })
}
/// an arc over the seam of the circle, full circles and trims over a turn
fn arcs(cx: &mut Cx) -> Res {
    let angles = [0.0, 0.5, PI, 4.0, 6.0, TAU - 0.5, TAU];
    let (a, b) = (cx.of("from", &angles), cx.of("to", &angles));
    let (sense, same) = (cx.flag("sense"), cx.flag("segment-sense"));
    let kind = cx.num("circle", 2) + 2;
    let cart = cx.flag("cartesian");
    if cart && a != b && (a - b).abs() == TAU {
        // two points which differ by rounding
        return cx.skip();
    }
    let (c, _) = basis(kind);
    let mut f = File::default();
    let id = c.write(&mut f);
    let (t1, t2) = if cart {
        let (q1, q2) = (f.point(c.at(a)), f.point(c.at(b)));
        (format!("(#{})", q1), format!("(#{})", q2))
    } else {
        (format!("(PARAMETER_VALUE({}))", real(a)), format!("(PARAMETER_VALUE({}))", real(b)))
    };
    let tc = f.add(format!("TRIMMED_CURVE('',#{},{},{},{},.PARAMETER.)", id, t1, t2, log(sense)));
    let seg = f.add(format!("COMPOSITE_CURVE_SEGMENT(.CONTINUOUS.,{},#{})", log(same), tc));
    f.add(format!("COMPOSITE_CURVE('',(#{}),.F.)", seg));
    let gap = if sense { b - a } else { a - b };
    let sweep = if gap > 0.0 { gap } else if gap + TAU > 1e-9 { gap + TAU } else { TAU };
    let end = if sense { a + sweep } else { a - sweep };
    let want = if same { c.run(a, end, 24) } else { c.run(end, a, 24) };
    read_all(cx, &f.text(), 1, |m| {
        ok(m.curves.len() == 1 && m.curves[0].segments.len() == 1, || "one curve of one segment".into())?;
        same_run(&m.curves[0].segments[0], &want, 1e-6)
    })
}
/// several composite curves of several segments, in file order
fn composites(cx: &mut Cx) -> Res {
    let nc = 1 + cx.num("curves-1", 2);
    let mut f = File::default();
    let mut want = vec![];
    for _ in 0..nc {
        let ns = 1 + cx.num("segments-1", if nc == 1 { 3 } else { 1 + cx.thorough() as usize });
        let (mut ids, mut w) = (vec![], vec![]);
        for _ in 0..ns {
            let kinds = if cx.thorough() { 11 } else { 7 };
            let kind = cx.num("basis", kinds);
            // the last kind is unsupported
            let (c, t) = basis(kind);
            let id = if kind == kinds - 1 {
                let a = f.axes(&ONE);
                f.add(format!("ELLIPSE('',#{},2.,1.)", a))
            } else {
                w.push(c.run(t[0], t[1], N));
                c.write(&mut f)
            };
            let tc = f.add(format!("TRIMMED_CURVE('',#{},(PARAMETER_VALUE({})),(PARAMETER_VALUE({})),.T.,.PARAMETER.)", id, real(t[0]), real(t[1])));
            ids.push(f.add(format!("COMPOSITE_CURVE_SEGMENT(.CONTINUOUS.,.T.,#{})", tc)));
        }
        f.add(format!("COMPOSITE_CURVE('c',{},.F.)", refs(&ids)));
        want.push(w);
    }
    read_all(cx, &f.text(), 1, |m| {
        ok(m.curves.len() == want.len(), || format!("{} curves instead of {}", m.curves.len(), want.len()))?;
        for (c, w) in m.curves.iter().zip(&want) {
            ok(c.segments.len() == w.len(), || format!("{} segments instead of {}", c.segments.len(), w.len()))?;
            for (s, w) in c.segments.iter().zip(w) {
                same_run(s, w, 1e-6)?;
            }
        }
        Ok(())
    })
}

// ------------------------------------------------------------------ surfaces
#[derive(Clone, Debug)]
enum Su {
    Plane(Axes),
    Cylinder(Axes, f64),
    Bezier(Vec<Vec<Point3>>),
    Spline { deg: (usize, usize), c: Vec<Vec<Point3>>, k: Option<((Vec<f64>, Vec<usize>), (Vec<f64>, Vec<usize>))>, w: Option<Vec<Vec<f64>>> },
    Revolution { c: Cu, o: Point3, z: Option<Point3> },
    /// not supported by the reader
    Other(usize),
}
fn grid(f: &mut File, c: &[Vec<Point3>]) -> String {
    let rows: Vec<String> = c.iter().map(|r| refs(&f.points(r))).collect();
    format!("({})", rows.join(","))
}
impl Su {
    fn write(&self, f: &mut File) -> i64 {
        match self {
            Su::Plane(a) => {
                let a = f.axes(a);
                f.add(format!("PLANE('',#{})", a))
            }
            Su::Cylinder(a, r) => {
                let a = f.axes(a);
                f.add(format!("CYLINDRICAL_SURFACE('',#{},{})", a, real(*r)))
            }
            Su::Bezier(c) => {
                let g = grid(f, c);
                f.add(format!("BEZIER_SURFACE('',{},{},{},.UNSPECIFIED.,.F.,.F.,.F.)", c.len() - 1, c[0].len() - 1, g))
            }
            Su::Spline { deg, c, k, w } => {
                let g = grid(f, c);
                let own = format!("{},{},{},.UNSPECIFIED.,.F.,.F.,.F.", deg.0, deg.1, g);
                let kn = k.as_ref().map(|(u, v)| format!("{},{},{},{},.UNSPECIFIED.", ints(&u.1), ints(&v.1), reals(&u.0), reals(&v.0)));
                let we = w.as_ref().map(|w| format!("({})", w.iter().map(|r| reals(r)).collect::<Vec<_>>().join(",")));
                f.add(match (kn, we) {
                    (None, None) => format!("B_SPLINE_SURFACE('',{})", own),
                    (Some(k), None) => format!("B_SPLINE_SURFACE_WITH_KNOTS('',{},{})", own, k),
                    (None, Some(w)) => format!("RATIONAL_B_SPLINE_SURFACE('',{},{})", own, w),
                    (Some(k), Some(w)) => format!(
                        "(BOUNDED_SURFACE()B_SPLINE_SURFACE({})B_SPLINE_SURFACE_WITH_KNOTS({})GEOMETRIC_REPRESENTATION_ITEM()RATIONAL_B_SPLINE_SURFACE({})REPRESENTATION_ITEM('')SURFACE())",
                        own, k, w
                    ),
                })
            }
            Su::Revolution { c, o, z } => {
                let c = c.write(f);
                let o = f.point(*o);
                let z = z.map(|z| format!("#{}", f.dir(z))).unwrap_or("$".into());
                let a = f.add(format!("AXIS1_PLACEMENT('',#{},{})", o, z));
                f.add(format!("SURFACE_OF_REVOLUTION('',#{},#{})", c, a))
            }
            Su::Other(k) => {
                let a = f.axes(&ONE);
                let text = match k {
                    0 => format!("CONICAL_SURFACE('',#{},1.,0.5)", a),
                    1 => format!("SPHERICAL_SURFACE('',#{},1.)", a),
                    2 => format!("TOROIDAL_SURFACE('',#{},3.,1.)", a),
                    3 => {
                        let e = f.add(format!("ELLIPSE('',#{},2.,1.)", a));
                        let (o, d) = (f.point(Point3::ZERO), f.dir(p(0.0, 0.0, 1.0)));
                        let x = f.add(format!("AXIS1_PLACEMENT('',#{},#{})", o, d));
                        format!("SURFACE_OF_REVOLUTION('',#{},#{})", e, x)
                    }
                    // of a later schema
                    _ => format!("CLOTHOIDAL_SURFACE('',#{})", a),
                };
                f.add(text)
            }
        }
    }
    /// parameters and points of the surface, the sense of the face included
    fn expect(&self, same_sense: bool) -> Vec<(f64, f64, Point3)> {
        let mut v = vec![];
        let grid = |v: &mut Vec<(f64, f64, Point3)>, us: &[f64], vs: &[f64], f: &dyn Fn(f64, f64) -> Point3| {
            for &a in us {
                for &b in vs {
                    v.push((a, b, f(a, b)));
                }
            }
        };
        let unit = [0.0, 0.3, 0.5, 0.75, 1.0];
        match self {
            Su::Plane(a) => {
                let (x, y, _) = a.frame();
                let y = if same_sense { y } else { -y };
                grid(&mut v, &[-2.0, 0.0, 1.0, 3.5], &[-1.0, 0.0, 1.0, 2.0], &|u, w| a.o + x * u + y * w);
            }
            Su::Cylinder(a, r) => {
                let (x, y, z) = a.frame();
                grid(&mut v, &[-2.0, 0.0, 1.0, 3.5], &[0.0, 1.0, 3.0, 6.0], &|l, t| a.o + z * l + (x * t.cos() + y * t.sin()) * *r);
            }
            Su::Bezier(c) => grid(&mut v, &unit, &unit, &|a, b| geo::bezier3(&c.iter().map(|r| geo::bezier3(r, b)).collect::<Vec<_>>(), a)),
            Su::Spline { deg, c, k, w } => {
                let k = k.clone().unwrap_or_else(|| {
                    let uni = |n: usize, d: usize| {
                        let s = n - d;
                        let mut m = vec![1; s + 1];
                        m[0] = d + 1;
                        m[s] = d + 1;
                        ((0..=s).map(|i| i as f64 / s as f64).collect::<Vec<_>>(), m)
                    };
                    (uni(c.len(), deg.0), uni(c[0].len(), deg.1))
                });
                let (tu, tv) = (Cu::knots(&k.0 .0, &k.0 .1), Cu::knots(&k.1 .0, &k.1 .1));
                let range = |t: &[f64], p: usize| -> Vec<f64> { unit.iter().map(|s| t[p] + (t[t.len() - 1 - p] - t[p]) * s).collect() };
                grid(&mut v, &range(&tu, deg.0), &range(&tv, deg.1), &|a, b| {
                    let (bu, bv) = (geo::basis(&tu, deg.0, a), geo::basis(&tv, deg.1, b));
                    let (mut s, mut sw) = (Point3::ZERO, 0.0);
                    for i in 0..c.len() {
                        for j in 0..c[0].len() {
                            let wt = bu[i] * bv[j] * w.as_ref().map_or(1.0, |w| w[i][j]);
                            s += c[i][j] * wt;
                            sw += wt;
                        }
                    }
                    s / sw
                });
            }
            Su::Revolution { c, o, z } => {
                let z = z.unwrap_or(p(0.0, 0.0, 1.0)).normalize();
                let us: Vec<f64> = match c {
                    Cu::Spline { deg, k, m, .. } => {
                        let t = Cu::knots(k, m);
                        let (a, b) = (t[*deg], t[t.len() - 1 - deg]);
                        [0.0, 0.25, 0.5, 0.9].iter().map(|s| a + (b - a) * s).collect()
                    }
                    _ => vec![0.0, 0.25, 0.5],
                };
                // polylines follow the length from 0 to 1 here
                let at = |u: f64| if let Cu::Poly(v) = c { c.run(0.0, (v.len() - 1) as f64, 4)[(u * 4.0) as usize] } else { c.at(u) };
                grid(&mut v, &us, &[0.0, 1.0, 3.0, 6.0], &|u, t| *o + geo::rodrigues(at(u) - *o, z, t));
            }
            Su::Other(_) => {}
        }
        v
    }
}
fn net(n: usize, m: usize) -> Vec<Vec<Point3>> {
    (0..n).map(|i| (0..m).map(|j| p(i as f64 * 1.5, j as f64 * 2.0 + 0.1 * i as f64, ((i * 3 + j * j * 2) % 5) as f64 * 0.25)).collect()).collect()
}
fn weights(n: usize, m: usize) -> Vec<Vec<f64>> {
    (0..n).map(|i| (0..m).map(|j| 0.25 + ((i * 2 + j) % 3) as f64 * 0.75).collect()).collect()
}
fn splines() -> Vec<Su> {
    let k = |u: (&[f64], &[usize]), v: (&[f64], &[usize])| Some(((u.0.to_vec(), u.1.to_vec()), (v.0.to_vec(), v.1.to_vec())));
    let mut out = vec![Su::Bezier(net(2, 2)), Su::Bezier(net(3, 4)), Su::Bezier(net(5, 2))];
    for (n, m, deg, kn) in [
        (2, 2, (1, 1), k((&[0.0, 1.0], &[2, 2]), (&[0.0, 1.0], &[2, 2]))),
        (4, 3, (3, 2), k((&[0.0, 1.0], &[4, 4]), (&[0.0, 1.0], &[3, 3]))),
        (5, 3, (3, 1), k((&[-1.0, 2.0, 7.5], &[4, 1, 4]), (&[0.0, 0.25, 1.0], &[2, 1, 2]))),
        (4, 6, (2, 3), k((&[0.0, 3.0, 4.0], &[3, 1, 3]), (&[0.0, 5.0, 10.0], &[4, 2, 4]))),
        (6, 4, (3, 3), k((&[0.0, 0.5, 0.75, 1.0], &[4, 1, 1, 4]), (&[1.0, 2.0], &[4, 4]))),
        (4, 3, (2, 1), k((&[0.0, 0.5, 0.75, 1.0, 1.5, 2.0, 4.0], &[1; 7]), (&[-1.0, 2.0, 3.0, 4.0], &[1, 1, 1, 2]))),
    ] {
        out.push(Su::Spline { deg, c: net(n, m), k: kn.clone(), w: None });
        out.push(Su::Spline { deg, c: net(n, m), k: kn.clone(), w: Some(weights(n, m)) });
        out.push(Su::Spline { deg, c: net(n, m), k: None, w: None });
        out.push(Su::Spline { deg, c: net(n, m), k: None, w: Some(weights(n, m)) });
    }
    out
}
fn same_surface(f: &TrimmedSurface<Box<dyn Surface>>, s: &Su, same_sense: bool) -> Result<(), String> {
    for (u, v, w) in s.expect(same_sense) {
        let g = f.surface.get_point(u, v);
        ok(near(g, w, 1e-9), || format!("surface point ({}, {}) is {} instead of {}: {:?}", u, v, g, w, f.surface))?;
    }
    Ok(())
}
fn face(f: &mut File, surface: &Su, loops: &[Loop], same_sense: bool, share: &mut Vec<(Point3, i64)>) -> i64 {
    let b: Vec<i64> = loops.iter().map(|l| l.write(f, share)).collect();
    let s = surface.write(f);
    f.add(format!("ADVANCED_FACE('',{},#{},{})", refs(&b), s, log(same_sense)))
}
fn surfaces(cx: &mut Cx) -> Res {
    let sp = splines();
    let pl = placements();
    let kind = cx.of("kind", &["plane", "cylinder", "spline", "revolution"]);
    let s = match kind {
        "plane" => Su::Plane(pl[cx.num("placement", pl.len())]),
        "cylinder" => Su::Cylinder(pl[cx.num("placement", pl.len())], cx.of("radius", &[1.0, 0.25, 1234.5])),
        "spline" => sp[cx.num("spline", sp.len())].clone(),
        _ => {
            let (c, _) = basis(cx.num("basis", BASES));
            let pl = pl[cx.num("placement", pl.len())];
            Su::Revolution { c, o: pl.o, z: pl.z }
        }
    };
    let sense = cx.flag("sense");
    let mut f = File::default();
    let l = Loop::polygon(&[p(0.0, 0.0, 0.0), p(1.0, 0.0, 0.0), p(0.0, 1.0, 0.0)]);
    face(&mut f, &s, &[l.clone()], sense, &mut vec![]);
    read_all(cx, &f.text(), 1, |m| {
        ok(m.faces.len() == 1 && m.curves.is_empty(), || format!("{} faces, {} curves", m.faces.len(), m.curves.len()))?;
        same_surface(&m.faces[0], &s, sense)?;
        l.same(&m.faces[0].bounds[0].edges)
    })
}

// ------------------------------------------------------------------ loops
#[derive(Clone, Debug)]
struct Edge {
    c: Cu,
    /// parameters on the curve of the edge's start and end vertex, in the sense of the edge
    from: f64,
    to: f64,
    same_sense: bool,
    /// how the loop runs through the edge
    orientation: bool,
    /// the vertices are written this far along the curve from where they belong, as rounding does
    off: f64,
}
impl Edge {
    /// the points in the direction of the loop
    fn run(&self) -> Vec<Point3> {
        let mut v = self.c.run(self.from, self.to, N);
        if !self.orientation {
            v.reverse();
        }
        v
    }
    fn write(&self, f: &mut File, share: &mut Vec<(Point3, i64)>) -> i64 {
        let mut vertex = |q: Point3, f: &mut File| match share.iter().find(|s| s.0.distance(q) < 1e-6) {
            Some(s) => s.1,
            None => {
                let i = f.vertex(q);
                share.push((q, i));
                i
            }
        };
        let at = |u: f64| {
            let q = self.c.at(u);
            let d = self.c.at(self.from + (self.to - self.from) * 0.01) - self.c.at(self.from);
            if self.off == 0.0 { q } else { q + d.normalize() * self.off }
        };
        let a = vertex(at(self.from), f);
        let b = vertex(at(self.to), f);
        let c = self.c.write(f);
        f.add(format!("EDGE_CURVE('',#{},#{},#{},{})", a, b, c, log(self.same_sense)))
    }
}
#[derive(Clone, Debug)]
struct Loop {
    edges: Vec<Edge>,
    outer: bool,
    orientation: bool,
}
impl Loop {
    fn polygon(v: &[Point3]) -> Loop {
        let n = v.len();
        let edges = (0..n).map(|i| line_edge(v[i], v[(i + 1) % n], true, true, 1.0)).collect();
        Loop { edges, outer: false, orientation: true }
    }
    fn write(&self, f: &mut File, share: &mut Vec<(Point3, i64)>) -> i64 {
        let ids: Vec<i64> = self
            .edges
            .iter()
            .map(|e| {
                let id = e.write(f, share);
                f.add(format!("ORIENTED_EDGE('',*,*,#{},{})", id, log(e.orientation)))
            })
            .collect();
        let l = f.add(format!("EDGE_LOOP('',{})", refs(&ids)));
        f.add(format!("{}('',#{},{})", if self.outer { "FACE_OUTER_BOUND" } else { "FACE_BOUND" }, l, log(self.orientation)))
    }
    /// the edges as the face runs through them
    fn want(&self) -> Vec<Vec<Point3>> {
        let mut w: Vec<Vec<Point3>> = self.edges.iter().map(|e| e.run()).collect();
        if !self.orientation {
            w.reverse();
            for r in &mut w {
                r.reverse();
            }
        }
        w
    }
    fn same(&self, edges: &[CurveSegment<Box<dyn Curve>>]) -> Result<(), String> {
        let w = self.want();
        ok(edges.len() == w.len(), || format!("{} edges instead of {}", edges.len(), w.len()))?;
        // a loop has no first edge
        let n = w.len();
        let mut err = String::new();
        for s in 0..n {
            match (0..n).try_for_each(|i| same_run(&edges[(i + s) % n], &w[i], 1e-5)) {
                Ok(()) => return Ok(()),
                Err(e) if s == 0 => err = e,
                Err(_) => {}
            }
        }
        Err(format!("loop: {}", err))
    }
}
/// an edge along the line a-b; as written it may be listed the other way or lie on a line of either direction
fn line_edge(a: Point3, b: Point3, same_sense: bool, orientation: bool, magnitude: f64) -> Edge {
    let (s, e) = if orientation { (a, b) } else { (b, a) };
    // the line's own direction
    let (o, d) = if same_sense { (s, e - s) } else { (e, s - e) };
    let u = d.length() / magnitude;
    let c = Cu::Line { o, d: d * 0.25, m: magnitude };
    Edge { c, from: if same_sense { 0.0 } else { u }, to: if same_sense { u } else { 0.0 }, same_sense, orientation, off: 0.0 }
}
/// an edge of each kind between two points of the plane z = h
fn edge(kind: usize, a: Point3, b: Point3, same_sense: bool, orientation: bool) -> Edge {
    let (s, e) = if orientation { (a, b) } else { (b, a) };
    // the curve runs from c0 to c1
    let (c0, c1) = if same_sense { (s, e) } else { (e, s) };
    let d = c1 - c0;
    let side = p(-d.y, d.x, 0.0);
    let (c, u0, u1) = match kind {
        0 => return line_edge(a, b, same_sense, orientation, 2.0),
        1 => {
            // an arc of 2 radians
            let r = d.length() / 2.0 / 1f64.sin();
            let center = (c0 + c1) * 0.5 + side * (1f64.cos() * r / d.length());
            let x = (c0 - center).normalize();
            (Cu::Circle { a: Axes { o: center, z: Some(p(0.0, 0.0, 1.0)), x: Some(x) }, r }, 0.0, 2.0)
        }
        2 => (Cu::Poly(vec![c0, c0 + d * 0.3 + side * 0.2, c0 + d * 0.8 + side * 0.1, c1]), 0.0, 3.0),
        // vertices inside the curve's parameter range
        3 => {
            let c = Cu::Spline { deg: 2, c: vec![c0 - d * 0.5, c0 + side * 0.1, c0 + d * 0.5 - side * 0.3, c1, c1 + d * 0.25 - side * 0.25], k: vec![0.0, 1.0, 2.0, 3.0], m: vec![3, 1, 1, 3] };
            // it passes half way between the middle control points, so move it onto the vertices
            let (q0, q1) = (c.at(1.0), c.at(2.0));
            let Cu::Spline { deg, c: cp, k, m } = c else { unreachable!() };
            let cp: Vec<Point3> = cp
                .iter()
                .map(|q| {
                    // similarity of the plane taking q0 to c0 and q1 to c1
                    let (w, t) = (q1 - q0, c1 - c0);
                    let l = w.x * w.x + w.y * w.y;
                    let (re, im) = ((t.x * w.x + t.y * w.y) / l, (t.y * w.x - t.x * w.y) / l);
                    let v = *q - q0;
                    p(c0.x + re * v.x - im * v.y, c0.y + im * v.x + re * v.y, c0.z)
                })
                .collect();
            (Cu::Spline { deg, c: cp, k, m }, 1.0, 2.0)
        }
        _ => (Cu::Spline { deg: 3, c: vec![c0, c0 + d * 0.3 - side * 0.2, c0 + d * 0.6 - side * 0.3, c1], k: vec![0.0, 1.0], m: vec![4, 4] }, 0.0, 1.0),
    };
    let (from, to) = if same_sense { (u0, u1) } else { (u1, u0) };
    Edge { c, from, to, same_sense, orientation, off: 0.0 }
}
fn loops(cx: &mut Cx) -> Res {
    let n = 1 + cx.num("edges-1", 3);
    let corners = [p(0.0, 0.0, 1.0), p(6.0, 1.0, 1.0), p(3.0, 5.0, 1.0)];
    let mut edges = vec![];
    let rich = cx.thorough() || n < 3;
    for i in 0..n {
        // one edge: an arc which is not closed is still read as it is
        let (a, b) = (corners[i], corners[if n == 1 { 1 } else { (i + 1) % n }]);
        let kind = cx.num("kind", if rich { 5 } else { 4 });
        let ss = if rich || kind != 0 { cx.flag("same-sense") } else { true };
        edges.push(edge(kind, a, b, ss, cx.flag("orientation")));
    }
    let l = Loop { edges, outer: cx.flag("outer"), orientation: cx.flag("bound-orientation") };
    let mut f = File::default();
    face(&mut f, &Su::Plane(Axes { o: p(0.0, 0.0, 1.0), ..ONE }), &[l.clone()], true, &mut vec![]);
    read_all(cx, &f.text(), 1, |m| {
        ok(m.faces.len() == 1 && m.faces[0].bounds.len() == 1, || format!("{} faces, {:?} loops", m.faces.len(), m.faces.first().map(|f| f.bounds.len())))?;
        l.same(&m.faces[0].bounds[0].edges)
    })
}
/// closed edges: the whole curve from its seam to its seam
fn closed(cx: &mut Cx) -> Res {
    let kind = cx.of("kind", &["circle", "circle-off", "polyline", "spline", "spline-half-1", "spline-half-2", "polyline-half-1", "polyline-half-2", "periodic", "periodic-half-1", "periodic-half-2", "spline-gap-1", "spline-gap-2", "spline-bit", "polyline-gap-1", "polyline-gap-2", "polyline-bit", "periodic-gap-1", "periodic-gap-2", "periodic-bit"]);
    let (same_sense, orientation, bound) = (cx.flag("same-sense"), cx.flag("orientation"), cx.flag("bound-orientation"));
    let ring = [p(4.0, 0.0, 1.0), p(4.0, 3.0, 1.0), p(0.0, 4.0, 1.0), p(-3.0, 1.0, 1.0), p(0.0, -2.0, 1.0), p(3.0, -2.0, 1.0), p(4.0, 0.0, 1.0)];
    let circle = Cu::Circle { a: Axes { o: p(1.0, 1.0, 1.0), z: Some(p(0.0, 0.0, 1.0)), x: Some(p(0.6, 0.8, 0.0)) }, r: 2.5 };
    let poly = Cu::Poly(ring.to_vec());
    let spline = Cu::Spline { deg: 3, c: ring.to_vec(), k: vec![0.0, 1.0, 2.0, 3.0, 4.0], m: vec![4, 1, 1, 1, 4] };
    // unclamped knots, the first three control points again at the end
    let periodic = Cu::Spline { deg: 3, c: ring[..6].iter().chain(&ring[..3]).copied().collect(), k: (0..13).map(|i| i as f64).collect(), m: vec![1; 13] };
    let (c, a, b) = match kind {
        "circle" => (circle, 0.0, TAU),
        "circle-off" => (circle, 1.25, 1.25 + TAU),
        "polyline" => (poly, 0.0, 6.0),
        "spline" => (spline, 0.0, 4.0),
        "spline-half-1" => (spline, 0.0, 1.75),
        "spline-half-2" => (spline, 1.75, 4.0),
        "polyline-half-1" => (poly, 0.0, 2.5),
        "polyline-half-2" => (poly, 2.5, 6.0),
        "periodic" => (periodic, 3.0, 9.0),
        "periodic-half-1" => (periodic, 3.0, 5.25),
        // an end close to the seam is not the seam
        "spline-gap-1" => (spline, 3e-4, 4.0),
        "spline-gap-2" => (spline, 0.0, 4.0 - 3e-4),
        "spline-bit" => (spline, 0.0, 3e-4),
        "polyline-gap-1" => (poly, 1e-3, 6.0),
        "polyline-gap-2" => (poly, 0.0, 6.0 - 1e-3),
        "polyline-bit" => (poly, 0.0, 1e-3),
        "periodic-gap-1" => (periodic, 3.0 + 3e-4, 9.0),
        "periodic-gap-2" => (periodic, 3.0, 9.0 - 3e-4),
        "periodic-bit" => (periodic, 3.0, 3.0 + 3e-4),
        _ => (periodic, 5.25, 9.0),
    };
    let (from, to) = if same_sense { (a, b) } else { (b, a) };
    let partial = ["half", "gap", "bit"].iter().any(|s| kind.contains(s));
    let off = if partial { 0.0 } else { cx.of("vertex off the seam", &[0.0, 1e-9, -1e-9, 1e-7, -1e-7]) };
    let e = Edge { c, from, to, same_sense, orientation, off };
    let l = Loop { edges: vec![e], outer: true, orientation: bound };
    // the loop runs anticlockwise about the normal of the face
    let ccw = same_sense == (orientation == bound);
    let mut f = File::default();
    face(&mut f, &Su::Plane(Axes { o: p(0.0, 0.0, 1.0), ..ONE }), &[l.clone()], ccw, &mut vec![]);
    read_all(cx, &f.text(), 1, |m| {
        ok(m.faces.len() == 1 && m.faces[0].bounds.len() == 1, || "one face, one loop".into())?;
        l.same(&m.faces[0].bounds[0].edges)?;
        if partial {
            return Ok(());
        }
        let e = &l.edges[0];
        let q = e.c.run(e.from, e.to, 600);
        let (mut want, mut long) = (0.0, 0.0);
        for w in q.windows(2) {
            want += (w[0].x * w[1].y - w[1].x * w[0].y) / 2.0;
            long += w[0].distance(w[1]);
        }
        let got = area(&m.faces[0].get_triangle_mesh());
        ok((got.z - want.abs() * if ccw { 1.0 } else { -1.0 }).abs() <= 0.012 * long && got.x.abs() + got.y.abs() < 1e-9, || format!("mesh of area {} instead of {}", got, want))
    })
}
/// a full cylinder: one loop that runs up and down a seam, or a loop for either circle
fn belt(cx: &mut Cx) -> Res {
    let a = cx.of("placement", &[ONE, Axes { o: p(1.0, 2.0, 3.0), z: Some(p(0.0, 0.6, 0.8)), x: Some(p(1.0, 0.0, 0.0)) }]);
    let (r, h) = cx.of("size", &[(1.0, 1.0), (4.0, 1.5), (0.5, 7.0)]);
    let z0 = cx.of("from", &[0.0, -3.0]);
    let s = cx.of("seam", &[0.0, 1.0, 5.0]);
    let one = cx.flag("one loop");
    let start = if one { cx.num("start", 4) } else { 0 };
    let (same_sense, inward, bound) = (cx.flag("same-sense"), cx.flag("inward"), cx.flag("bound-orientation"));
    let (_, _, z) = a.frame();
    let circle = |l: f64| Cu::Circle { a: Axes { o: a.o + z * l, ..a }, r };
    // outward faces run anticlockwise round the bottom
    let bottom = Edge { c: circle(z0), from: s, to: s + TAU, same_sense: true, orientation: !inward == bound, off: 0.0 };
    let top = Edge { c: circle(z0 + h), from: s, to: s + TAU, same_sense: true, orientation: inward == bound, off: 0.0 };
    let (low, high) = (bottom.c.at(s), top.c.at(s));
    let seam = Edge { c: Cu::Line { o: low, d: high - low, m: 1.0 }, from: 0.0, to: h, same_sense: true, orientation: true, off: 0.0 };
    let mut f = File::default();
    let mut share = vec![];
    let id = [bottom.write(&mut f, &mut share), seam.write(&mut f, &mut share), top.write(&mut f, &mut share)];
    let mut oriented = |f: &mut File, e: usize, o: bool| f.add(format!("ORIENTED_EDGE('',*,*,#{},{})", id[e], log(o)));
    let mut bound_of = |f: &mut File, ids: &[i64]| {
        let l = f.add(format!("EDGE_LOOP('',{})", refs(ids)));
        f.add(format!("FACE_BOUND('',#{},{})", l, log(bound)))
    };
    let mut loops = vec![];
    let b: Vec<i64> = if one {
        let mut run = vec![(0, bottom.orientation), (1, true), (2, top.orientation), (1, false)];
        run.rotate_left(start);
        let ids: Vec<i64> = run.iter().map(|x| oriented(&mut f, x.0, x.1)).collect();
        let edges = run.iter().map(|x| Edge { orientation: x.1, ..[&bottom, &seam, &top][x.0].clone() }).collect();
        loops.push(Loop { edges, outer: false, orientation: bound });
        vec![bound_of(&mut f, &ids)]
    } else {
        let (i, j) = (oriented(&mut f, 0, bottom.orientation), oriented(&mut f, 2, top.orientation));
        loops.push(Loop { edges: vec![bottom.clone()], outer: false, orientation: bound });
        loops.push(Loop { edges: vec![top.clone()], outer: false, orientation: bound });
        vec![bound_of(&mut f, &[i]), bound_of(&mut f, &[j])]
    };
    let s = Su::Cylinder(a, r).write(&mut f);
    f.add(format!("ADVANCED_FACE('',{},#{},{})", refs(&b), s, log(same_sense)));
    read_all(cx, &f.text(), 1, |m| {
        ok(m.faces.len() == 1 && m.faces[0].bounds.len() == loops.len(), || "one face, all loops".into())?;
        for (l, b) in loops.iter().zip(&m.faces[0].bounds) {
            l.same(&b.edges)?;
        }
        let mesh = m.faces[0].get_triangle_mesh();
        let (mut out, mut all) = (0.0, 0.0);
        for t in mesh.triangles.chunks(3) {
            let q = [0, 1, 2].map(|j| mesh.vertices[t[j] as usize]);
            let n = (q[1] - q[0]).cross(q[2] - q[0]) * 0.5;
            let c = (q[0] + q[1] + q[2]) / 3.0 - a.o;
            let radial = c - z * c.dot(z);
            out += n.length() * n.dot(radial).signum();
            all += n.length();
        }
        let want = TAU * r * h;
        ok((all - want).abs() <= 0.08 * want && (out - if inward { -want } else { want }).abs() <= 0.08 * want, || format!("mesh of area {} (outwards {}) instead of {}", all, out, want))
    })
}
/// every loop of a face is there, whichever kind of bound and in any order
fn bounds(cx: &mut Cx) -> Res {
    let n = cx.num("loops", if cx.thorough() { 5 } else { 4 });
    let shift = cx.num("ids", 3) as i64;
    let mut ls = vec![];
    for k in 0..n {
        let o = p(k as f64 * 10.0, 0.0, 0.0);
        let mut l = match cx.num("shape", 3) {
            0 => Loop::polygon(&[o, o + p(3.0, 0.0, 0.0), o + p(0.0, 3.0, 0.0)]),
            1 => Loop::polygon(&[o, o + p(0.0, 3.0, 0.0), o + p(3.0, 3.0, 0.0), o + p(3.0, 0.0, 0.0)]),
            _ => Loop { edges: vec![Edge { c: Cu::Circle { a: Axes { o, ..ONE }, r: 2.0 }, from: 0.0, to: TAU, same_sense: true, orientation: true, off: 0.0 }], outer: false, orientation: true },
        };
        l.outer = cx.flag("outer");
        ls.push(l);
    }
    let mut f = File { last: [0, 1000, 99990][shift as usize], ..File::default() };
    face(&mut f, &Su::Plane(ONE), &ls, true, &mut vec![]);
    read_all(cx, &f.text(), if cx.thorough() { 8 } else { 5 }, |m| {
        ok(m.faces.len() == 1, || format!("{} faces", m.faces.len()))?;
        let b = &m.faces[0].bounds;
        ok(b.len() == n, || format!("{} loops instead of {}", b.len(), n))?;
        let mut left: Vec<&Loop> = ls.iter().collect();
        for g in b {
            match left.iter().position(|l| l.same(&g.edges).is_ok()) {
                Some(i) => drop(left.remove(i)),
                None => return Err(format!("loop {:?} is not in the file", g.edges)),
            }
        }
        Ok(())
    })
}
/// faces in file order, unsupported ones left out
fn faces(cx: &mut Cx) -> Res {
    let n = cx.num("faces", if cx.thorough() { 5 } else { 4 });
    let mut f = File::default();
    let mut want = vec![];
    for k in 0..n {
        let o = p(k as f64, 2.0, -1.0);
        let s = match cx.num("surface", 9) {
            0 => Su::Plane(Axes { o, z: Some(p(0.0, 1.0, 0.0)), x: Some(p(1.0, 0.0, 0.0)) }),
            1 => Su::Cylinder(Axes { o, z: Some(p(0.0, 1.0, 0.0)), x: Some(p(1.0, 0.0, 0.0)) }, 1.0 + k as f64),
            2 => splines()[3 + 4].clone(),
            3 => splines()[3 + 5].clone(),
            k => Su::Other(k - 4),
        };
        let tri = |k: f64| Loop::polygon(&[p(k, 0.0, 0.0), p(k, 1.0, 0.0), p(k, 0.0, 2.0)]);
        let mut l = tri(k as f64);
        // an unsupported curve leaves the rest of the loop alone
        let bad = cx.num("bad-edge", if n <= 2 { 4 } else if n == 3 { 1 + cx.thorough() as usize } else { 1 });
        let id = {
            let mut ids: Vec<i64> = vec![];
            let mut share = vec![];
            for e in &l.edges {
                let id = e.write(&mut f, &mut share);
                ids.push(f.add(format!("ORIENTED_EDGE('',*,*,#{},.T.)", id)));
            }
            if bad > 0 {
                let a = f.axes(&ONE);
                let c = match bad {
                    1 => f.add(format!("ELLIPSE('',#{},2.,1.)", a)),
                    // of a later schema
                    2 => f.add(format!("CLOTHOID('',#{},2.)", a)),
                    _ => {
                        let c = f.points(&[p(0.0, 0.0, 0.0), p(1.0, 1.0, 0.0), p(1.0, 0.0, 0.0)]);
                        f.add(format!("(BOUNDED_CURVE()B_SPLINE_CURVE(2,{},.UNSPECIFIED.,.F.,.F.)B_SPLINE_CURVE_WITH_KNOTS((3,3),(0.,1.),.UNSPECIFIED.)CURVE()GEOMETRIC_REPRESENTATION_ITEM()RATIONAL_B_SPLINE_CURVE((1.,2.,1.))REPRESENTATION_ITEM(''))", refs(&c)))
                    }
                };
                let (v, w) = (f.vertex(p(0.0, 0.0, 0.0)), f.vertex(p(1.0, 0.0, 0.0)));
                let e = f.add(format!("EDGE_CURVE('',#{},#{},#{},.T.)", v, w, c));
                ids.insert(1, f.add(format!("ORIENTED_EDGE('',*,*,#{},.T.)", e)));
            }
            let id = f.add(format!("EDGE_LOOP('',{})", refs(&ids)));
            f.add(format!("FACE_BOUND('',#{},.T.)", id))
        };
        l.outer = false;
        let sid = s.write(&mut f);
        f.add(format!("ADVANCED_FACE('',(#{}),#{},.T.)", id, sid));
        if !matches!(s, Su::Other(_)) {
            want.push((s, l));
        }
    }
    read_all(cx, &f.text(), 1, |m| {
        ok(m.faces.len() == want.len(), || format!("{} faces instead of {}", m.faces.len(), want.len()))?;
        for (g, (s, l)) in m.faces.iter().zip(&want) {
            same_surface(g, s, true)?;
            ok(g.bounds.len() == 1, || format!("{} loops", g.bounds.len()))?;
            l.same(&g.bounds[0].edges)?;
        }
        Ok(())
    })
}
/// the same data written in any way the format allows
fn layout(cx: &mut Cx) -> Res {
    let mut f = File::default();
    let s = Su::Cylinder(Axes { o: p(0.0, 0.0, 0.0), z: Some(p(0.0, 0.0, 1.0)), x: Some(p(1.0, 0.0, 0.0)) }, 2.0);
    let mut l = Loop::polygon(&[p(2.0, 0.0, 0.0), p(2.0, 0.0, 3.0), p(0.0, 2.0, 3.0)]);
    l.edges.push(Edge { c: Cu::Circle { a: Axes { o: p(0.0, 0.0, 1.0), ..ONE }, r: 2.0 }, from: 0.0, to: 2.0, same_sense: true, orientation: true, off: 0.0 });
    face(&mut f, &s, &[l.clone()], true, &mut vec![]);
    let s2 = Su::Plane(Axes { o: p(1.0, 2.0, 3.0), z: Some(p(0.0, 0.0, 1.0)), x: Some(p(0.0, 1.0, 0.0)) });
    let l2 = Loop::polygon(&[p(1.0, 2.0, 3.0), p(2.0, 2.0, 3.0), p(1.0, 3.0, 3.0)]);
    face(&mut f, &s2, &[l2.clone()], false, &mut vec![]);
    let (c, t) = basis(6);
    let id = c.write(&mut f);
    let tc = f.add(format!("TRIMMED_CURVE('',#{},(PARAMETER_VALUE({})),(PARAMETER_VALUE({})),.T.,.PARAMETER.)", id, real(t[0]), real(t[1])));
    let sg = f.add(format!("COMPOSITE_CURVE_SEGMENT(.CONTINUOUS.,.T.,#{})", tc));
    f.add(format!("COMPOSITE_CURVE('',(#{}),.F.)", sg));
    // order of the entities: references may point forward
    let n = f.data.len();
    match cx.of("order", &["file", "reversed", "odd-even", "rotated"]) {
        "file" => {}
        "reversed" => f.data.reverse(),
        "odd-even" => {
            let (a, b): (Vec<_>, Vec<_>) = f.data.drain(..).partition(|x| x.0 % 2 == 1);
            f.data = a;
            f.data.extend(b);
        }
        _ => f.data.rotate_left(n / 2),
    }
    let first_is_plane = f.data.iter().filter(|d| d.1.starts_with("ADVANCED_FACE")).next().unwrap().1.ends_with(".F.)");
    // numbering
    let ids = cx.of("ids", &["as-is", "sparse", "descending"]);
    let renumber = |i: i64| match ids {
        "as-is" => i,
        "sparse" => i * i * 37 + 5,
        _ => 10_000 - i,
    };
    let mut body = String::new();
    for (i, s) in &f.data {
        let mut out = String::new();
        let mut rest = s.as_str();
        while let Some(k) = rest.find('#') {
            out.push_str(&rest[..k + 1]);
            rest = &rest[k + 1..];
            let e = rest.find(|c: char| !c.is_ascii_digit()).unwrap_or(rest.len());
            out.push_str(&renumber(rest[..e].parse().unwrap()).to_string());
            rest = &rest[e..];
        }
        out.push_str(rest);
        body.push_str(&format!("#{}={};\n", renumber(*i), out));
    }
    let body = match cx.of("space", &["plain", "spaced", "crlf", "comments", "lines"]) {
        "plain" => body,
        "spaced" => body.replace('=', " = ").replace(",", ", "),
        "crlf" => body.replace('\n', "\r\n"),
        "comments" => body.replace(";\n", ";\n/* a comment; #1=X(); */\n"),
        _ => body.replace(",", ",\n  "),
    };
    let name = cx.of("name", &["", "part 1", "it''s", "a;b#2=(", "\\X2\\00E4\\X0\\"]);
    if name.contains("''") || name.contains('\\') {
        // quoting is up to the parser of the library used
        return cx.skip();
    }
    let body = body.replace("('',", &format!("('{}',", name));
    let numbers = cx.of("numbers", &["plain", "dot", "exponent"]);
    let body = match numbers {
        "plain" => body,
        "dot" => body.replace(".0,", ".,").replace(".0)", ".)"),
        _ => body.replace("3.0,", "0.3E1,").replace("2.0)", "20.E-1)"),
    };
    let text = format!("{}{}{}", HEAD, body, TAIL);
    let want = c.run(t[0], t[1], N);
    read_all(cx, &text, 1, |m| {
        ok(m.faces.len() == 2 && m.curves.len() == 1, || format!("{} faces, {} curves", m.faces.len(), m.curves.len()))?;
        let (a, b) = if first_is_plane { (1, 0) } else { (0, 1) };
        same_surface(&m.faces[a], &s, true)?;
        same_surface(&m.faces[b], &s2, false)?;
        l.same(&m.faces[a].bounds[0].edges)?;
        l2.same(&m.faces[b].bounds[0].edges)?;
        same_run(&m.curves[0].segments[0], &want, 1e-6)
    })
}

// ------------------------------------------------------------------ solids, end to end
fn area(m: &TriangleMesh) -> Point3 {
    let mut s = Point3::ZERO;
    for t in m.triangles.chunks(3) {
        let (a, b, c) = (m.vertices[t[0] as usize], m.vertices[t[1] as usize], m.vertices[t[2] as usize]);
        s += (b - a).cross(c - a) * 0.5;
    }
    s
}
fn volume(m: &TriangleMesh) -> f64 {
    m.triangles.chunks(3).map(|t| m.vertices[t[0] as usize].dot(m.vertices[t[1] as usize].cross(m.vertices[t[2] as usize])) / 6.0).sum()
}
/// a box whose 12 shared edges have any direction: the meshes of its faces enclose it
fn solid(cx: &mut Cx) -> Res {
    let mut f = File::default();
    let v: Vec<Point3> = (0..8).map(|i| p((i & 1) as f64 * 4.0 - 1.0, (i >> 1 & 1) as f64 * 3.0 + 2.0, (i >> 2 & 1) as f64 * 2.0)).collect();
    // outward loops
    let quads: [[usize; 4]; 6] = [[0, 2, 3, 1], [4, 5, 7, 6], [0, 1, 5, 4], [2, 6, 7, 3], [0, 4, 6, 2], [1, 3, 7, 5]];
    let mut pairs: Vec<(usize, usize)> = vec![];
    for q in &quads {
        for i in 0..4 {
            let (a, b) = (q[i].min(q[(i + 1) % 4]), q[i].max(q[(i + 1) % 4]));
            if !pairs.contains(&(a, b)) {
                pairs.push((a, b));
            }
        }
    }
    let dirs = cx.num("edge-directions", 4096);
    let flip = cx.of("flipped", if cx.thorough() { &[0usize, 1, 2, 3, 4, 5, 6, 7] } else { &[0usize, 7] });
    let vid: Vec<i64> = v.iter().map(|q| f.vertex(*q)).collect();
    let mut ends = vec![];
    let eid: Vec<i64> = pairs
        .iter()
        .enumerate()
        .map(|(k, &(a, b))| {
            let (a, b) = if dirs >> k & 1 == 1 { (b, a) } else { (a, b) };
            ends.push((a, b));
            // every third lies on a line of the other direction
            let ss = (k + dirs) % 3 != 0;
            let c = if ss { Cu::Line { o: v[a], d: v[b] - v[a], m: 1.0 } } else { Cu::Line { o: v[b], d: v[a] - v[b], m: 1.0 } }.write(&mut f);
            f.add(format!("EDGE_CURVE('',#{},#{},#{},{})", vid[a], vid[b], c, log(ss)))
        })
        .collect();
    for (k, q) in quads.iter().enumerate() {
        let bound = flip & 1 == 0 || k % 2 == 0;
        let mut o: Vec<i64> = (0..4)
            .map(|i| {
                let (a, b) = (q[i], q[(i + 1) % 4]);
                let e = ends.iter().position(|x| *x == (a, b) || *x == (b, a)).unwrap();
                // a loop listed backwards has its bound reversed
                let fwd = (ends[e] == (a, b)) == bound;
                f.add(format!("ORIENTED_EDGE('',*,*,#{},{})", eid[e], log(fwd)))
            })
            .collect();
        if !bound {
            o.reverse();
        }
        let l = f.add(format!("EDGE_LOOP('',{})", refs(&o)));
        let b = f.add(format!("{}('',#{},{})", if flip & 4 == 0 { "FACE_BOUND" } else { "FACE_OUTER_BOUND" }, l, log(bound)));
        let n = (v[q[1]] - v[q[0]]).cross(v[q[3]] - v[q[0]]);
        let same = flip & 2 == 0 || k % 3 != 0;
        let s = Su::Plane(Axes { o: v[q[0]], z: Some(if same { n } else { -n }), x: Some(v[q[1]] - v[q[0]]) }).write(&mut f);
        f.add(format!("ADVANCED_FACE('',(#{}),#{},{})", b, s, log(same)));
    }
    read_all(cx, &f.text(), 1, |m| {
        ok(m.faces.len() == 6, || format!("{} faces", m.faces.len()))?;
        let mut total = 0.0;
        for (k, (g, q)) in m.faces.iter().zip(&quads).enumerate() {
            let mesh = g.get_triangle_mesh();
            let want = (v[q[1]] - v[q[0]]).cross(v[q[3]] - v[q[0]]);
            let got = area(&mesh);
            ok(near(got, want, 1e-9), || format!("face {} has area vector {} instead of {}", k, got, want))?;
            total += volume(&mesh);
        }
        ok((total - 24.0).abs() < 1e-9, || format!("volume {} instead of 24", total))
    })
}
/// a cylinder of two half faces with its two caps, one cap with a hole
fn drum(cx: &mut Cx) -> Res {
    let mut f = File::default();
    let (r, h) = (cx.of("radius", &[2.0, 1.0, 5.0]), cx.of("height", &[3.0, 1.0]));
    let o = cx.of("origin", &[Point3::ZERO, p(10.0, -5.0, 2.0)]);
    let bits = cx.num("edge-directions", 64);
    let hole = cx.flag("hole");
    let up = p(0.0, 0.0, 1.0);
    let ax = |z: f64| Axes { o: o + up * z, z: Some(up), x: Some(p(1.0, 0.0, 0.0)) };
    // vertices: 0, 1 at the bottom (angle 0, pi), 2, 3 above
    let v = [o + p(r, 0.0, 0.0), o + p(-r, 0.0, 0.0), o + p(r, 0.0, h), o + p(-r, 0.0, h)];
    let vid: Vec<i64> = v.iter().map(|q| f.vertex(*q)).collect();
    // edges: lower arcs 0-1, 1-0, upper arcs 2-3, 3-2, seams 0-2, 1-3
    let ends = [(0usize, 1usize), (1, 0), (2, 3), (3, 2), (0, 2), (1, 3)];
    let mut eid = vec![];
    for (k, &(a, b)) in ends.iter().enumerate() {
        let rev = bits >> k & 1 == 1;
        let c = if k < 4 { Cu::Circle { a: ax(if k < 2 { 0.0 } else { h }), r } } else { Cu::Line { o: v[a], d: up, m: 1.0 } }.write(&mut f);
        let (s, e) = if rev { (b, a) } else { (a, b) };
        eid.push((f.add(format!("EDGE_CURVE('',#{},#{},#{},{})", vid[s], vid[e], c, log(!rev))), !rev));
    }
    let bound = |f: &mut File, es: &[(usize, bool)]| {
        let ids: Vec<i64> = es.iter().map(|&(e, fwd)| f.add(format!("ORIENTED_EDGE('',*,*,#{},{})", eid[e].0, log(fwd == eid[e].1)))).collect();
        let l = f.add(format!("EDGE_LOOP('',{})", refs(&ids)));
        f.add(format!("FACE_OUTER_BOUND('',#{},.T.)", l))
    };
    let add = |f: &mut File, b: Vec<i64>, s: Su, same: bool| {
        let s = s.write(f);
        f.add(format!("ADVANCED_FACE('',{},#{},{})", refs(&b), s, log(same)));
    };
    let b = bound(&mut f, &[(0, true), (5, true), (2, false), (4, false)]);
    add(&mut f, vec![b], Su::Cylinder(ax(0.0), r), true);
    let b = bound(&mut f, &[(1, true), (4, true), (3, false), (5, false)]);
    add(&mut f, vec![b], Su::Cylinder(ax(0.0), r), true);
    let mut b = vec![bound(&mut f, &[(2, true), (3, true)])];
    if hole {
        let l = Loop { edges: vec![Edge { c: Cu::Circle { a: ax(h), r: r * 0.5 }, from: 0.0, to: TAU, same_sense: true, orientation: false, off: 0.0 }], outer: false, orientation: true };
        b.insert(bits & 1, l.write(&mut f, &mut vec![]));
    }
    add(&mut f, b, Su::Plane(ax(h)), true);
    let b = bound(&mut f, &[(1, false), (0, false)]);
    add(&mut f, vec![b], Su::Plane(ax(0.0)), false);
    let text = f.text();
    read_all(cx, &text, 1, |m| {
        ok(m.faces.len() == 4, || format!("{} faces", m.faces.len()))?;
        let cap = PI * r * r;
        let want = [
            p(0.0, 2.0 * r * h, 0.0),
            p(0.0, -2.0 * r * h, 0.0),
            up * if hole { cap * 0.75 } else { cap },
            -up * cap,
        ];
        let mut total = 0.0;
        for (k, g) in m.faces.iter().enumerate() {
            let mesh = g.get_triangle_mesh();
            let got = area(&mesh);
            // chords lie up to 0.01 inside the arcs
            let tol = 0.012 * TAU * r * if hole { 1.5 } else { 1.0 } + 1e-6;
            ok((got - want[k]).length() <= tol, || format!("face {} has area vector {} instead of {}", k, got, want[k]))?;
            total += (0..mesh.triangles.len() / 3).map(|_| 0.0).sum::<f64>() + volume(&TriangleMesh { vertices: mesh.vertices.iter().map(|q| *q - o).collect(), ..mesh });
        }
        if !hole {
            let full = cap * h;
            ok((total - full).abs() <= 0.04 * TAU * r * h, || format!("volume {} instead of {}", total, full))?;
        }
        Ok(())
    })
}
// ------------------------------------------------------------------ sizes
/// loops of many edges of any kind
fn long_loops(cx: &mut Cx) -> Res {
    let n = cx.of("edges", if cx.thorough() { &[4usize, 7, 12, 40, 130, 400] } else { &[4usize, 12, 40, 130] });
    let kinds = cx.of("kinds", &["lines", "arcs", "polylines", "inner splines", "splines", "mixed"]);
    let senses = cx.of("senses", &["forward", "backward", "alternating", "listed backwards", "uneven"]);
    let (size, at) = cx.of("place", &[(10.0, Point3::ZERO), (4000.0, p(-9000.0, 700.0, 0.0)), (0.5, p(30.0, 20.0, 0.0))]);
    // the corners of a star
    let corner = |i: usize| {
        let a = TAU * (i % n) as f64 / n as f64;
        at + p(a.cos(), a.sin(), 0.0) * (size * if i % n % 2 == 0 { 1.0 } else { 0.9 })
    };
    let edges = (0..n)
        .map(|i| {
            let kind = match kinds {
                "lines" => 0,
                "arcs" => 1,
                "polylines" => 2,
                "inner splines" => 3,
                "splines" => 4,
                _ => i * 3 % 5,
            };
            let (ss, or) = match senses {
                "forward" => (true, true),
                "backward" => (false, true),
                "alternating" => (i % 2 == 0, i % 3 == 0),
                "listed backwards" => (true, false),
                _ => (i * i % 5 < 2, i * i % 7 < 3),
            };
            edge(kind, corner(i), corner(i + 1), ss, or)
        })
        .collect();
    let l = Loop { edges, outer: n % 3 == 0, orientation: cx.flag("bound-orientation") };
    let mut f = File { last: if n == 40 { 1_000_000 } else { 0 }, ..File::default() };
    face(&mut f, &Su::Plane(ONE), &[l.clone()], true, &mut vec![]);
    read_all(cx, &f.text(), 1, |m| {
        ok(m.faces.len() == 1 && m.faces[0].bounds.len() == 1, || "one face, one loop".into())?;
        // in order from its first edge on
        let w = l.want();
        let g = &m.faces[0].bounds[0].edges;
        ok(g.len() == w.len(), || format!("{} edges instead of {}", g.len(), w.len()))?;
        for (g, w) in g.iter().zip(&w) {
            let scaled = (size / 10.0f64).max(1.0);
            // the ends of splines are found by iteration, the others by a formula
            let tol = if ["lines", "arcs", "polylines"].contains(&kinds) { 1e-9 * (size + at.length()) } else { 1e-5 * if w[0].length() < size { scaled } else { 1.0 } };
            same_run(g, w, tol)?;
        }
        Ok(())
    })
}
/// many faces and curves in one file
fn many(cx: &mut Cx) -> Res {
    let n = cx.of("faces", if cx.thorough() { &[17usize, 40, 150, 300, 1100] } else { &[17usize, 40, 300] });
    let step = cx.of("surfaces", if cx.thorough() { &[1usize, 3, 5, 7] } else { &[1usize, 5] });
    let curves = cx.of("curves", &[0usize, 1, 30]);
    let per = cx.of("segments", if curves == 0 { &[0usize] } else if cx.thorough() { &[1usize, 10, 60] } else { &[1usize, 20] });
    let sp = splines();
    let mut f = File::default();
    let mut want = vec![];
    let mut share = vec![];
    for k in 0..n {
        let o = p(k as f64 * 3.0, 2.0, -1.0);
        let s = match (k * step) % 11 {
            0 | 5 => Su::Plane(Axes { o, z: Some(p(0.0, 1.0, 0.0)), x: Some(p(1.0, 0.0, 0.0)) }),
            1 | 8 => Su::Cylinder(Axes { o, z: Some(p(0.0, 1.0, 0.0)), x: Some(p(1.0, 0.0, 0.0)) }, 1.0 + k as f64),
            2 => Su::Other(k % 5),
            3 | 6 => Su::Revolution { c: basis(k % 2).0, o, z: Some(p(0.0, 0.0, 1.0)) },
            _ => sp[k % sp.len()].clone(),
        };
        let ls: Vec<Loop> = (0..1 + (k % 3)).map(|j| Loop::polygon(&[o + p(0.0, j as f64, 0.0), o + p(1.0, j as f64, 0.0), o + p(0.0, 0.5 + j as f64, 0.0)])).collect();
        let same = k % 4 != 1;
        face(&mut f, &s, &ls, same, &mut share);
        if k % 5 == 0 {
            share.clear();
        }
        if !matches!(s, Su::Other(_)) {
            want.push((s, ls, same));
        }
    }
    let mut runs = vec![];
    for i in 0..curves {
        let (mut ids, mut w) = (vec![], vec![]);
        for j in 0..per {
            let (c, t) = basis((i + j) % BASES);
            let same = (i * j) % 3 != 1;
            w.push(if same { c.run(t[2], t[3], N) } else { c.run(t[3], t[2], N) });
            let id = c.write(&mut f);
            let tc = f.add(format!("TRIMMED_CURVE('',#{},(PARAMETER_VALUE({})),(PARAMETER_VALUE({})),.T.,.PARAMETER.)", id, real(t[2]), real(t[3])));
            ids.push(f.add(format!("COMPOSITE_CURVE_SEGMENT(.CONTINUOUS.,{},#{})", log(same), tc)));
        }
        f.add(format!("COMPOSITE_CURVE('c',{},.F.)", refs(&ids)));
        runs.push(w);
    }
    read_all(cx, &f.text(), 2, |m| {
        ok(m.faces.len() == want.len() && m.curves.len() == runs.len(), || format!("{} faces instead of {}, {} curves instead of {}", m.faces.len(), want.len(), m.curves.len(), runs.len()))?;
        for (g, (s, ls, same)) in m.faces.iter().zip(&want) {
            same_surface(g, s, *same)?;
            ok(g.bounds.len() == ls.len(), || format!("{} loops instead of {}", g.bounds.len(), ls.len()))?;
            for l in ls {
                ok(g.bounds.iter().any(|b| l.same(&b.edges).is_ok()), || "a loop is missing".into())?;
            }
        }
        for (c, w) in m.curves.iter().zip(&runs) {
            ok(c.segments.len() == w.len(), || format!("{} segments instead of {}", c.segments.len(), w.len()))?;
            for (s, w) in c.segments.iter().zip(w) {
                same_run(s, w, 1e-6)?;
            }
        }
        Ok(())
    })
}
/// knots and multiplicities over `n` spans
fn long_knots(law: &str, deg: usize, n: usize) -> (Vec<f64>, Vec<usize>) {
    let k = (0..=n).map(|i| match law {
        "growing" => (1.0 + 0.25 * i as f64) * i as f64,
        "shifted" => -700.0 + 0.3 * i as f64,
        "large" => 1.0e5 + 250.0 * i as f64,
        _ => i as f64,
    });
    let m = (0..=n).map(|i| if i == 0 || i == n { deg + 1 } else if law == "repeated" { 1 + i % deg } else { 1 });
    (k.collect(), m.collect())
}
fn walk(n: usize) -> Vec<Point3> {
    (0..n).map(|i| p(i as f64, ((i * 7) % 5) as f64 * 0.5, ((i * 3) % 4) as f64 - 1.0)).collect()
}
/// trimmed curves of many points
fn rich_curves(cx: &mut Cx) -> Res {
    let kind = cx.of("curve", &["spline", "polyline"]);
    let (c, a, b) = if kind == "spline" {
        let deg = 1 + cx.num("degree-1", 9);
        let n = cx.of("spans", if cx.thorough() { &[1usize, 2, 7, 20, 70, 300] } else { &[1usize, 7, 70] });
        let (k, m) = long_knots(cx.of("knots", &["even", "growing", "repeated", "shifted", "large"]), deg, n);
        let c = walk(m.iter().sum::<usize>() - deg - 1);
        let (a, b) = (k[0], k[k.len() - 1]);
        (Cu::Spline { deg, c, k, m }, a, b)
    } else {
        let n = cx.of("points", if cx.thorough() { &[2usize, 3, 9, 50, 200, 1500] } else { &[2usize, 3, 50, 200] });
        (Cu::Poly(walk(n)), 0.0, n as f64 - 1.0)
    };
    let (s, e) = cx.of("trim", &[(0.0, 1.0), (0.0, 0.4), (0.37, 1.0), (0.21, 0.77), (0.5, 0.505)]);
    let (t1, t2) = (a + (b - a) * s, a + (b - a) * e);
    let sense = cx.flag("sense");
    let (t1, t2) = if sense { (t1, t2) } else { (t2, t1) };
    let mut f = File::default();
    let id = c.write(&mut f);
    let tc = f.add(format!("TRIMMED_CURVE('',#{},(PARAMETER_VALUE({})),(PARAMETER_VALUE({})),{},.PARAMETER.)", id, real(t1), real(t2), log(sense)));
    let seg = f.add(format!("COMPOSITE_CURVE_SEGMENT(.CONTINUOUS.,.T.,#{})", tc));
    f.add(format!("COMPOSITE_CURVE('',(#{}),.F.)", seg));
    let want = c.run(t1, t2, 40);
    read_all(cx, &f.text(), 1, |m| {
        ok(m.curves.len() == 1 && m.curves[0].segments.len() == 1, || "one curve of one segment".into())?;
        same_run(&m.curves[0].segments[0], &want, 1e-6)
    })
}
/// spline surfaces of many control points
fn rich_surfaces(cx: &mut Cx) -> Res {
    let deg = cx.of("degrees", &[(1usize, 1usize), (3, 3), (5, 4), (7, 1), (1, 7), (2, 9)]);
    let spans: &[usize] = if cx.thorough() { &[1, 3, 9, 20] } else { &[1, 9] };
    let laws = ["even", "growing", "repeated", "shifted"];
    let how = cx.of("written as", &["bezier", "uniform", "knots", "uniform weights", "knots weights"]);
    let (n, m, k) = match how {
        "bezier" => (deg.0 + 1, deg.1 + 1, None),
        "knots" | "knots weights" => {
            let u = long_knots(cx.of("u knots", &laws), deg.0, cx.of("u spans", spans));
            let v = long_knots(cx.of("v knots", &laws), deg.1, cx.of("v spans", spans));
            (u.1.iter().sum::<usize>() - deg.0 - 1, v.1.iter().sum::<usize>() - deg.1 - 1, Some((u, v)))
        }
        _ => (deg.0 + cx.of("u spans", spans), deg.1 + cx.of("v spans", spans), None),
    };
    let s = match how {
        "bezier" => Su::Bezier(net(n, m)),
        _ => Su::Spline { deg, c: net(n, m), k, w: how.ends_with("weights").then(|| weights(n, m)) },
    };
    let mut f = File::default();
    let l = Loop::polygon(&[p(0.0, 0.0, 0.0), p(1.0, 0.0, 0.0), p(0.0, 1.0, 0.0)]);
    face(&mut f, &s, &[l.clone()], true, &mut vec![]);
    read_all(cx, &f.text(), 1, |m| {
        ok(m.faces.len() == 1, || format!("{} faces", m.faces.len()))?;
        same_surface(&m.faces[0], &s, true)?;
        l.same(&m.faces[0].bounds[0].edges)
    })
}
/// entities used more than once: a curve cut into edges, an edge run both ways, placements and vertices in common
fn shared(cx: &mut Cx) -> Res {
    let kind = cx.of("curve", &["circle", "spline", "polyline", "line"]);
    let k = cx.of("pieces", if cx.thorough() { &[1usize, 2, 3, 4, 5, 6, 8, 12, 30] } else { &[1usize, 2, 3, 5, 12] });
    let dirs = cx.num("directions", 1 << k.min(5));
    let twice = cx.flag("both ways");
    let axes = Axes { o: p(1.0, 2.0, 3.0), z: Some(p(0.0, 0.0, 2.0)), x: Some(p(0.6, 0.8, 0.0)) };
    let (c, a, b) = match kind {
        "circle" => (Cu::Circle { a: axes, r: 2.5 }, 0.0, TAU),
        "spline" => {
            let (kn, m) = long_knots("growing", 3, 5);
            let e = kn[5];
            (Cu::Spline { deg: 3, c: walk(8), k: kn, m }, 0.0, e)
        }
        "polyline" => (Cu::Poly(walk(9)), 0.0, 8.0),
        _ => (Cu::Line { o: p(1.0, 0.0, 2.0), d: p(3.0, 4.0, 0.0), m: 2.0 }, -3.0, 5.0),
    };
    if kind == "circle" && k == 1 && twice {
        return cx.skip();
    }
    let mut f = File::default();
    let cid = c.write(&mut f);
    let us: Vec<f64> = (0..=k).map(|i| a + (b - a) * i as f64 / k as f64).collect();
    let mut vid: Vec<i64> = us.iter().map(|u| f.vertex(c.at(*u))).collect();
    if kind == "circle" {
        vid[k] = vid[0];
    }
    let mut edges = vec![];
    let mut eid = vec![];
    for i in 0..k {
        let fwd = dirs >> (i % 5) & 1 == 0;
        let (s, e) = if fwd { (i, i + 1) } else { (i + 1, i) };
        eid.push(f.add(format!("EDGE_CURVE('',#{},#{},#{},{})", vid[s], vid[e], cid, log(fwd))));
        edges.push(Edge { c: c.clone(), from: us[s], to: us[e], same_sense: fwd, orientation: fwd, off: 0.0 });
    }
    let mut es: Vec<(usize, bool)> = (0..k).map(|i| (i, edges[i].orientation)).collect();
    if twice || kind != "circle" {
        // and back again through the same edges
        es.extend((0..k).rev().map(|i| (i, !edges[i].orientation)));
    }
    let ids: Vec<i64> = es.iter().map(|(i, o)| f.add(format!("ORIENTED_EDGE('',*,*,#{},{})", eid[*i], log(*o)))).collect();
    let el = f.add(format!("EDGE_LOOP('',{})", refs(&ids)));
    // the loop bounds two faces, from either side, on surfaces with one placement
    let b1 = f.add(format!("FACE_BOUND('',#{},.T.)", el));
    let b2 = f.add(format!("FACE_OUTER_BOUND('',#{},.F.)", el));
    let ax = f.axes(&axes);
    let pl = f.add(format!("PLANE('',#{})", ax));
    let cy = f.add(format!("CYLINDRICAL_SURFACE('',#{},2.5)", ax));
    f.add(format!("ADVANCED_FACE('',(#{}),#{},.T.)", b1, pl));
    f.add(format!("ADVANCED_FACE('',(#{}),#{},.T.)", b2, cy));
    f.add(format!("ADVANCED_FACE('',(#{}),#{},.F.)", b2, pl));
    let want: Vec<Edge> = es.iter().map(|(i, o)| Edge { orientation: *o, ..edges[*i].clone() }).collect();
    let front = Loop { edges: want, outer: false, orientation: true };
    let back = Loop { orientation: false, ..front.clone() };
    let faces = [(Su::Plane(axes), true, &front), (Su::Cylinder(axes, 2.5), true, &back), (Su::Plane(axes), false, &back)];
    read_all(cx, &f.text(), 1, |m| {
        ok(m.faces.len() == 3, || format!("{} faces", m.faces.len()))?;
        for (g, (s, same, l)) in m.faces.iter().zip(&faces) {
            same_surface(g, s, *same)?;
            ok(g.bounds.len() == 1, || "one loop".into())?;
            l.same(&g.bounds[0].edges)?;
        }
        Ok(())
    })
}
pub fn c19() -> Prop {
    Prop {
        id: "C19",
        scenarios: vec![
            Scenario { name: "trimmed", run: trimmed },
            Scenario { name: "arcs", run: arcs },
            Scenario { name: "composites", run: composites },
            Scenario { name: "surfaces", run: surfaces },
            Scenario { name: "loops", run: loops },
            Scenario { name: "closed", run: closed },
            Scenario { name: "belt", run: belt },
            Scenario { name: "bounds", run: bounds },
            Scenario { name: "faces", run: faces },
            Scenario { name: "layout", run: layout },
            Scenario { name: "solid", run: solid },
            Scenario { name: "drum", run: drum },
            Scenario { name: "long-loops", run: long_loops },
            Scenario { name: "many", run: many },
            Scenario { name: "rich-curves", run: rich_curves },
            Scenario { name: "rich-surfaces", run: rich_surfaces },
            Scenario { name: "shared", run: shared },
        ],
        rule: "STEP files generated from a reference model: every basis curve x trim range x senses x way of trimming; arcs between every pair of angles; sequences of composite curves with unsupported segments; every surface kind x 18 placements (unit, scaled, oblique, hardly oblique, omitted directions); every loop of up to 3 edges x kind x edge sense x orientation x bound kind and orientation; closed edges; every set of up to 3 (4) loops under several hash seeds; sequences of faces with unsupported surfaces and curves; file layouts; files of many faces, edges, segments, knots and control points; curves, edges, loops and placements used several times; a box with every assignment of its 12 edge directions and a drum, meshed and measured; the model read by the real code is compared with the reference at sampled parameters; non-trivial: distinct models",
        bounds_quick: "3 edges per loop, closed edges whole, in parts and short of the seam by 3e-4, their vertices up to 1e-7 off, 3 loops, 3 faces, 5 hash seeds; loops up to 130 edges x 6 kind laws x 5 sense laws x 3 scales; up to 300 faces and 30 curves of 20 segments; splines of degree<=9 up to 70 spans, polylines up to 200 points; spline surfaces of 6 degree pairs up to (7,1), (2,9) x 9x9 spans; one curve cut into up to 12 edges, run both ways and bounding several faces",
        bounds_thorough: "all edge kinds in loops of 3, 4 loops, 4 faces, 8 hash seeds; loops up to 400 edges, 1100 faces, 300 spans, 1500 points, 20x20 spans, 30 edges on one curve",
        assumptions: vec![
            "angles are in radians, lengths in the unit of the file",
            "edges do not cross the seam of a closed spline or polyline",
            "files are syntactically valid",
            "rational curves, ellipses and other curves the reader does not know are unsupported entities",
        ],
    }
}

//! C16: the SVG drawing of a model's curves.
use super::files::dir;
use super::Prop;
use crate::core::*;
use geom3d::curve::{BSplineCurve, BezierCurve, Circle, Curve, CurveSegment, Line, Polyline};
use geom3d::model::Model;
use geom3d::{KnotVector, Point3, Point4, Polycurve, TriangleMesh, Vec4};

fn p(x: f64, y: f64, z: f64) -> Point3 {
    Point3::new(x, y, z)
}
type P2 = (f64, f64);
#[derive(Clone, Debug, PartialEq)]
enum El {
    Move(P2),
    Line(P2),
    Cubic(P2, P2, P2),
}
struct Doc {
    width: String,
    height: String,
    view: Vec<f64>,
    paths: Vec<Vec<El>>,
}
fn attrs(tag: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    let mut rest = tag;
    while let Some(e) = rest.find('=') {
        let name = rest[..e].trim().rsplit(char::is_whitespace).next().unwrap_or("").to_string();
        let r = rest[e + 1..].trim_start();
        let q = r.chars().next().unwrap_or('"');
        let r = &r[q.len_utf8().min(r.len())..];
        let Some(end) = r.find(q) else { break };
        v.push((name, r[..end].to_string()));
        rest = &r[end + 1..];
    }
    v
}
fn numbers(s: &str) -> Result<Vec<f64>, String> {
    s.split(|c: char| c == ',' || c.is_whitespace()).filter(|t| !t.is_empty()).map(|t| t.parse::<f64>().map_err(|e| format!("{:?}: {}", t, e))).collect()
}
type M = [f64; 6];
fn mul(a: M, b: M) -> M {
    [a[0] * b[0] + a[2] * b[1], a[1] * b[0] + a[3] * b[1], a[0] * b[2] + a[2] * b[3], a[1] * b[2] + a[3] * b[3], a[0] * b[4] + a[2] * b[5] + a[4], a[1] * b[4] + a[3] * b[5] + a[5]]
}
fn transform(s: &str) -> Result<M, String> {
    let mut m = [1.0, 0.0, 0.0, 1.0, 0.0, 0.0];
    let mut rest = s.trim();
    while let Some(o) = rest.find('(') {
        let c = rest.find(')').ok_or("unclosed transform")?;
        let n = numbers(&rest[o + 1..c])?;
        let name = rest[..o].trim().trim_start_matches(',').trim();
        let t = match (name, n.as_slice()) {
            ("matrix", [a, b, c, d, e, f]) => [*a, *b, *c, *d, *e, *f],
            ("translate", [x]) => [1.0, 0.0, 0.0, 1.0, *x, 0.0],
            ("translate", [x, y]) => [1.0, 0.0, 0.0, 1.0, *x, *y],
            ("scale", [x]) => [*x, 0.0, 0.0, *x, 0.0, 0.0],
            ("scale", [x, y]) => [*x, 0.0, 0.0, *y, 0.0, 0.0],
            _ => return Err(format!("unknown transform {:?}", s)),
        };
        m = mul(m, t);
        rest = &rest[c + 1..];
    }
    Ok(m)
}
/// path data, relative and shorthand forms included
fn path(d: &str) -> Result<Vec<El>, String> {
    let mut toks: Vec<String> = vec![];
    let mut cur = String::new();
    let mut prev = ' ';
    for c in d.chars() {
        let num = c.is_ascii_digit() || c == '.' || ((c == 'e' || c == 'E') && !cur.is_empty()) || ((c == '-' || c == '+') && (cur.is_empty() || prev == 'e' || prev == 'E'));
        if num && !(c == '.' && cur.contains('.')) {
            cur.push(c);
        } else {
            if !cur.is_empty() {
                toks.push(std::mem::take(&mut cur));
            }
            if c == '-' || c == '+' || c == '.' {
                cur.push(c);
            } else if !c.is_whitespace() && c != ',' {
                toks.push(c.to_string());
            }
        }
        prev = c;
    }
    if !cur.is_empty() {
        toks.push(cur);
    }
    let mut els = vec![];
    let (mut at, mut start) = ((0.0, 0.0), (0.0, 0.0));
    let mut cmd = ' ';
    let mut i = 0;
    while i < toks.len() {
        let t = &toks[i];
        if t.len() == 1 && t.chars().all(|c| c.is_ascii_alphabetic()) {
            cmd = t.chars().next().unwrap();
            i += 1;
            if cmd == 'Z' || cmd == 'z' {
                if at != start {
                    els.push(El::Line(start));
                }
                at = start;
            }
            continue;
        }
        let n = match cmd.to_ascii_uppercase() {
            'M' | 'L' => 2,
            'C' => 6,
            'H' | 'V' => 1,
            _ => return Err(format!("unexpected {:?} after {:?} in {:?}", t, cmd, d)),
        };
        if i + n > toks.len() {
            return Err(format!("missing numbers in {:?}", d));
        }
        let v: Vec<f64> = toks[i..i + n].iter().map(|t| t.parse::<f64>().map_err(|e| format!("{:?} in {:?}: {}", t, d, e))).collect::<Result<_, _>>()?;
        i += n;
        let o = if cmd.is_ascii_lowercase() { at } else { (0.0, 0.0) };
        let q = |k: usize| (v[k] + o.0, v[k + 1] + o.1);
        match cmd.to_ascii_uppercase() {
            'M' => {
                at = q(0);
                start = at;
                els.push(El::Move(at));
                cmd = if cmd == 'M' { 'L' } else { 'l' };
                continue;
            }
            'L' => at = q(0),
            'H' => at = (v[0] + o.0, at.1),
            'V' => at = (at.0, v[0] + o.1),
            _ => {
                els.push(El::Cubic(q(0), q(2), q(4)));
                at = q(4);
                continue;
            }
        }
        if els.is_empty() {
            return Err(format!("path data {:?} does not begin with a move", d));
        }
        els.push(El::Line(at));
    }
    match els.first() {
        None | Some(El::Move(_)) => Ok(els),
        _ => Err(format!("path data {:?} does not begin with a move", d)),
    }
}
fn parse(text: &str, page: (f64, f64)) -> Result<Doc, String> {
    let mut doc = Doc { width: String::new(), height: String::new(), view: vec![], paths: vec![] };
    let mut stack: Vec<(String, M, String, String)> = vec![];
    let mut rest = text;
    let mut seen = false;
    while let Some(o) = rest.find('<') {
        let c = rest[o..].find('>').ok_or("unclosed tag")? + o;
        let tag = &rest[o + 1..c];
        rest = &rest[c + 1..];
        if tag.starts_with('?') || tag.starts_with('!') {
            continue;
        }
        if let Some(n) = tag.strip_prefix('/') {
            match stack.pop() {
                Some(t) if t.0 == n.trim() => {}
                t => return Err(format!("</{}> closes {:?}", n, t.map(|t| t.0))),
            }
            continue;
        }
        let selfclosed = tag.ends_with('/');
        let tag = tag.trim_end_matches('/');
        let name = tag.split_whitespace().next().unwrap_or("").to_string();
        let a = attrs(&tag[name.len()..]);
        let get = |k: &str| a.iter().find(|x| x.0 == k).map(|x| x.1.clone());
        let up = stack.last().map(|s| (s.1, s.2.clone(), s.3.clone())).unwrap_or(([1.0, 0.0, 0.0, 1.0, 0.0, 0.0], "black".into(), "none".into()));
        let m = match get("transform") {
            Some(t) => mul(up.0, transform(&t)?),
            None => up.0,
        };
        let (fill, stroke) = (get("fill").unwrap_or(up.1), get("stroke").unwrap_or(up.2));
        if name == "svg" {
            seen = true;
            doc.width = get("width").unwrap_or_default();
            doc.height = get("height").unwrap_or_default();
            doc.view = numbers(&get("viewBox").unwrap_or_default())?;
        }
        if name == "path" {
            if fill != "none" || stroke == "none" {
                return Err(format!("path drawn with fill {:?} and stroke {:?}", fill, stroke));
            }
            // on the page, y upwards
            let els = path(&get("d").unwrap_or_default())?;
            let f = |q: P2| {
                let x = m[0] * q.0 + m[2] * q.1 + m[4];
                let y = m[1] * q.0 + m[3] * q.1 + m[5];
                (x, page.1 - y)
            };
            doc.paths.push(
                els.into_iter()
                    .map(|e| match e {
                        El::Move(a) => El::Move(f(a)),
                        El::Line(a) => El::Line(f(a)),
                        El::Cubic(a, b, c) => El::Cubic(f(a), f(b), f(c)),
                    })
                    .collect(),
            );
        }
        if !selfclosed {
            stack.push((name, m, fill, stroke));
        }
    }
    if !seen || !stack.is_empty() {
        return Err("not a closed svg document".into());
    }
    Ok(doc)
}
fn dist(a: P2, b: P2) -> f64 {
    (a.0 - b.0).hypot(a.1 - b.1)
}
fn seg_dist(q: P2, a: P2, b: P2) -> f64 {
    let (dx, dy) = (b.0 - a.0, b.1 - a.1);
    let l = dx * dx + dy * dy;
    let t = if l == 0.0 { 0.0 } else { (((q.0 - a.0) * dx + (q.1 - a.1) * dy) / l).clamp(0.0, 1.0) };
    dist(q, (a.0 + dx * t, a.1 + dy * t))
}
/// chains of points drawn without lifting the pen; a move to the current point lifts nothing
fn chains(els: &[El]) -> Vec<Vec<P2>> {
    let mut out: Vec<Vec<P2>> = vec![];
    for e in els {
        match *e {
            El::Move(a) => {
                if out.last().map_or(true, |c| dist(*c.last().unwrap(), a) > 1e-9) {
                    out.push(vec![a]);
                }
            }
            El::Line(a) => {
                let c = out.last_mut().unwrap();
                if dist(*c.last().unwrap(), a) > 1e-9 {
                    c.push(a);
                }
            }
            El::Cubic(b, c, d) => {
                let l = out.last_mut().unwrap();
                let a = *l.last().unwrap();
                for k in 1..=24 {
                    let t = k as f64 / 24.0;
                    let s = 1.0 - t;
                    let w = [s * s * s, 3.0 * s * s * t, 3.0 * s * t * t, t * t * t];
                    l.push((w[0] * a.0 + w[1] * b.0 + w[2] * c.0 + w[3] * d.0, w[0] * a.1 + w[1] * b.1 + w[2] * c.1 + w[3] * d.1));
                }
            }
        }
    }
    out
}
// two decimals in both coordinates
const ROUND: f64 = 0.0072;
/// the drawn chain follows the curve over the range
fn follows(cx: &mut Cx, drawn: &[P2], g: &dyn Fn(f64) -> P2, range: (f64, f64), tol: Option<f64>) -> Res {
    follows_n(cx, drawn, g, range, tol, 4000)
}
fn follows_n(cx: &mut Cx, drawn: &[P2], g: &dyn Fn(f64) -> P2, range: (f64, f64), tol: Option<f64>, n: usize) -> Res {
    let at = |k: usize| if k == n { range.1 } else { range.0 + (range.1 - range.0) * k as f64 / n as f64 };
    let t: Vec<P2> = (0..=n).map(|k| g(at(k))).collect();
    let (s, e) = (t[0], t[n]);
    cx.check(dist(drawn[0], s) <= ROUND, || format!("drawn from {:?}, the segment starts at {:?}", drawn[0], s))?;
    cx.check(dist(*drawn.last().unwrap(), e) <= ROUND, || format!("drawn to {:?}, the segment ends at {:?}", drawn.last(), e))?;
    let mut k = 0;
    for i in 1..drawn.len() {
        let d = drawn[i];
        // the next place at which the curve passes the point
        let mut j = k;
        let last = i + 1 == drawn.len();
        if last {
            j = n;
        } else {
            while j < n && seg_dist(d, t[j], t[j + 1]) > ROUND + 0.002 {
                j += 1;
            }
            if j == n && dist(d, t[n]) > ROUND + 0.002 {
                return cx.fail(format!("drawn point {:?} is not on the rest of the curve after {:?}", d, t[k]));
            }
            // closest within the pass
            while j < n && dist(d, t[j + 1]) < dist(d, t[j]) {
                j += 1;
            }
        }
        if let Some(tol) = tol {
            for q in &t[k..=j] {
                let o = seg_dist(*q, drawn[i - 1], d);
                cx.check(o <= tol + ROUND + 0.002, || format!("the curve at {:?} is {} from the drawn line {:?} {:?}", q, o, drawn[i - 1], d))?;
            }
        }
        k = j;
    }
    Ok(())
}
struct Seg {
    curve: Box<dyn Curve>,
    range: (f64, f64),
    tol: Option<f64>,
}
fn generic(n: usize) -> Vec<Point3> {
    let q = [p(1.0, 2.0, 0.5), p(3.5, 7.25, -1.0), p(8.0, 6.0, 2.0), p(11.0, 1.5, 0.0), p(15.25, 3.0, 1.0), p(17.0, 9.0, -2.0), p(21.0, 8.0, 0.0), p(23.0, 2.0, 4.0)];
    q[..n].to_vec()
}
fn pw(v: &[Point3], w: &[f64]) -> Vec<Point4> {
    v.iter().zip(w).map(|(q, &w)| Vec4::new(q.x * w, q.y * w, q.z * w, w)).collect()
}
const KINDS: usize = 17;
/// the curve alphabet with its parameter domain
fn curve_of(kind: usize) -> (Box<dyn Curve>, (f64, f64), bool) {
    let bs = |n: usize, d: u8, k: Vec<f64>| -> Box<dyn Curve> { Box::new(BSplineCurve { control_points: generic(n), knots: KnotVector::new(k), degree: d }) };
    let s = std::f64::consts::FRAC_1_SQRT_2;
    match kind {
        0 => (Box::new(Line { origin: p(2.0, 3.0, 1.0), direction: p(4.0, -1.5, 9.0) }), (0.0, 1.0), true),
        1 => (Box::new(Line { origin: p(5.0, 5.0, 0.0), direction: p(0.0, 0.6, 0.8) }), (-3.0, 8.0), true),
        2 => (Box::new(Polyline::new(generic(2))), (0.0, 1.0), true),
        3 => (Box::new(Polyline::new(generic(6))), (0.0, 1.0), true),
        // a closed polyline, its middle vertex opposite its start: flat by chance when sampled at one point
        4 => (Box::new(Polyline::new(vec![p(0.0, 0.0, 0.0), p(4.0, 3.0, 0.0), p(4.0, 0.0, 0.0), p(8.0, 0.0, 0.0), p(8.0, -3.0, 0.0), p(12.0, 0.0, 0.0)])), (0.0, 1.0), true),
        5 => (Box::new(Circle { center: p(12.0, 10.0, 1.0), radius: 5.0, axis: p(0.0, 0.0, 1.0), ref_dir: p(1.0, 0.0, 0.0) }), (0.0, std::f64::consts::TAU), true),
        6 => (Box::new(Circle { center: p(12.0, 10.0, 1.0), radius: 0.75, axis: p(0.0, 0.0, -1.0), ref_dir: p(0.6, 0.8, 0.0) }), (1.0, 4.0), true),
        7 => (Box::new(Circle { center: p(2.0, 1.0, 1.0), radius: 6.0, axis: p(0.0, 0.6, 0.8), ref_dir: p(1.0, 0.0, 0.0) }), (-1.0, 3.0), true),
        8 => (bs(4, 3, vec![0.0, 0.0, 0.0, 0.0, 1.0, 1.0, 1.0, 1.0]), (0.0, 1.0), false),
        9 => (bs(7, 3, vec![2.0, 2.0, 2.0, 2.0, 3.0, 5.0, 5.5, 6.0, 6.0, 6.0, 6.0]), (2.0, 6.0), false),
        10 => (bs(7, 3, vec![0.0, 0.0, 0.0, 0.0, 0.5, 0.5, 0.5, 1.0, 1.0, 1.0, 1.0]), (0.0, 1.0), false),
        11 => (bs(3, 2, vec![0.0, 0.0, 0.0, 1.0, 1.0, 1.0]), (0.0, 1.0), true),
        12 => (bs(4, 2, vec![0.0, 0.0, 0.0, 0.5, 1.0, 1.0, 1.0]), (0.0, 0.5), true),
        13 => (bs(6, 4, vec![0.0, 0.0, 0.0, 0.0, 0.0, 0.25, 1.0, 1.0, 1.0, 1.0, 1.0]), (0.0, 1.0), false),
        14 => (Box::new(BezierCurve { control_points: generic(3) }), (0.0, 1.0), true),
        15 => (Box::new(BSplineCurve { control_points: pw(&[p(9.0, 2.0, 0.0), p(9.0, 9.0, 0.0), p(2.0, 9.0, 0.0)], &[1.0, s, 1.0]), knots: KnotVector::new(vec![0.0, 0.0, 0.0, 1.0, 1.0, 1.0]), degree: 2 }), (0.0, 1.0), true),
        _ => (Box::new(BezierCurve { control_points: generic(4) }), (0.0, 1.0), false),
    }
}
fn segment(cx: &mut Cx, kinds: usize) -> Seg {
    let kind = cx.num("kind", kinds);
    let (curve, (a, b), convex) = curve_of(kind);
    let at = |f: f64| if f == 1.0 { b } else { a + (b - a) * f };
    let cuts = [0.0, 1.0, 0.25, 0.6, 0.1, 0.5, 0.875, 0.002, 0.998, 0.3, 0.9];
    let n = if cx.thorough() { 11 } else { 9 };
    let r = (cx.of("from", &cuts[..n]), cx.of("to", &cuts[..n]));
    Seg { curve, range: (at(r.0), at(r.1)), tol: if convex { Some(0.012) } else { None } }
}
fn build(curves: Vec<Vec<Seg>>) -> Model<TriangleMesh> {
    let mut m = Model::new();
    for c in curves {
        m.add_curve(Polycurve { segments: c.into_iter().map(|s| CurveSegment { curve: s.curve, parameter_range: s.range, tolerance: 0.01, parameter_division: 16 }).collect() });
    }
    m
}
fn draw(cx: &mut Cx, m: &Model<TriangleMesh>, page: (f64, f64)) -> Result<Vec<Vec<El>>, Fail> {
    let f = dir().join("d.svg");
    if let Err(e) = m.save_as_svg(&f, page) {
        return cx.fail(format!("save failed: {}", e));
    }
    let text = String::from_utf8_lossy(&std::fs::read(&f).expect("MC: read")).into_owned();
    cx.observe(&text);
    let doc = match parse(&text, page) {
        Ok(d) => d,
        Err(e) => return cx.fail(format!("unreadable SVG: {}", e)),
    };
    let size = |s: &str| s.strip_suffix("mm").and_then(|s| s.parse::<f64>().ok());
    cx.check(size(&doc.width) == Some(page.0) && size(&doc.height) == Some(page.1), || format!("the document is {} by {}, not {:?} mm", doc.width, doc.height, page))?;
    cx.check(doc.view.len() == 4 && doc.view[0] == 0.0 && doc.view[1] == 0.0 && (doc.view[2] - page.0).abs() < 1e-3 && (doc.view[3] - page.1).abs() < 1e-3, || format!("view box {:?} on {:?}", doc.view, page))?;
    cx.check(doc.paths.len() == m.curves.len(), || format!("{} paths for {} curves", doc.paths.len(), m.curves.len()))?;
    Ok(doc.paths)
}
/// one segment of every kind over every range
fn single(cx: &mut Cx) -> Res {
    let s = segment(cx, KINDS);
    let draws = cx.of("draws", &[1u64 << 63, 0, u64::MAX]);
    rand::mc::install(Some(Box::new(move || draws)));
    let (range, tol) = (s.range, s.tol);
    let m = build(vec![vec![s]]);
    let paths = draw(cx, &m, (100.0, 60.0))?;
    let g = |u: f64| {
        let q = m.curves[0].segments[0].curve.get_point(u);
        (q.x, q.y)
    };
    if range.0 == range.1 {
        // a segment without extent is a line from its point to the same point, drawn as a dot
        let (at, drawn) = (g(range.0), paths[0].len());
        let c = chains(&paths[0]).concat();
        cx.check(drawn >= 2 && c.iter().all(|q| dist(*q, at) <= ROUND), || format!("a segment at {:?} is drawn with {} elements through {:?}", at, drawn, c))?;
        return Ok(());
    }
    let c = chains(&paths[0]);
    cx.check(c.len() == 1, || format!("one segment is drawn as {} chains", c.len()))?;
    follows(cx, &c[0], &g, range, tol)
}
/// a model of several curves of several segments is the single drawings one after another
fn several(cx: &mut Cx) -> Res {
    let draws = 1u64 << 63;
    let page = (100.0, 60.0);
    let nc = 1 + cx.num("curves-1", 2);
    let mut want: Vec<Vec<P2>> = vec![];
    let mut all = vec![];
    let mut per = vec![];
    for _ in 0..nc {
        let most = if nc == 1 { if cx.thorough() { 3 } else { 2 } } else { 1 + cx.thorough() as usize };
        let ns = cx.num("segments", most + 1);
        let mut segs = vec![];
        for _ in 0..ns {
            let kind = cx.num("kind", KINDS);
            let (curve, (a, b), _) = curve_of(kind);
            let rev = cx.flag("reversed");
            let range = if rev { (b, a) } else { (a, b) };
            rand::mc::install(Some(Box::new(move || draws)));
            let one = build(vec![vec![Seg { curve: curve_of(kind).0, range, tol: None }]]);
            let paths = draw(cx, &one, page)?;
            want.extend(chains(&paths[0]));
            segs.push(Seg { curve, range, tol: None });
        }
        per.push(ns);
        all.push(segs);
    }
    rand::mc::install(Some(Box::new(move || draws)));
    let m = build(all);
    let paths = draw(cx, &m, page)?;
    let mut w = want.into_iter();
    for (k, els) in paths.iter().enumerate() {
        let mut expect: Vec<Vec<P2>> = vec![];
        for _ in 0..per[k] {
            expect.push(w.next().unwrap());
        }
        // every chain in turn, connected or not
        let got: Vec<P2> = chains(els).concat();
        let flat: Vec<P2> = {
            let mut v: Vec<P2> = vec![];
            for c in expect {
                for q in c {
                    if v.last().map_or(true, |l| dist(*l, q) > 1e-9) {
                        v.push(q);
                    }
                }
            }
            v
        };
        let ok = got.len() == flat.len() && got.iter().zip(&flat).all(|(a, b)| dist(*a, *b) < 1e-6);
        cx.check(ok, || format!("curve {} is drawn through {} points, its segments alone through {}", k, got.len(), flat.len()))?;
    }
    Ok(())
}
/// connected segments stay connected and joints are drawn once
fn connected(cx: &mut Cx) -> Res {
    let n = 1 + cx.num("segments-1", if cx.thorough() { 5 } else { 4 });
    let mut at = p(0.0, 0.0, 0.0);
    let mut segs: Vec<Seg> = vec![];
    for _ in 0..n {
        let next = at + cx.of("step", &[p(4.0, 1.0, 0.0), p(-3.0, 2.5, 1.0)]);
        let d = next - at;
        let side = p(-d.y, d.x, 0.0);
        let curve: Box<dyn Curve> = match cx.num("kind", 4) {
            0 => Box::new(Line { origin: at, direction: d }),
            1 => Box::new(Polyline::new(vec![at, at + d * 0.5 + side * 0.3, next])),
            2 => Box::new(BSplineCurve { control_points: vec![at, at + d * 0.3 + side * 0.3, at + d * 0.7 - side * 0.2, next], knots: KnotVector::bezier_knot(3), degree: 3 }),
            _ => Box::new(BSplineCurve { control_points: vec![at, at + d * 0.5 + side * 0.5, next], knots: KnotVector::bezier_knot(2), degree: 2 }),
        };
        segs.push(Seg { curve, range: (0.0, 1.0), tol: Some(0.012) });
        at = next;
    }
    rand::mc::install(Some(Box::new(|| 1 << 63)));
    let m = build(vec![segs]);
    let paths = draw(cx, &m, (40.0, 40.0))?;
    let c = chains(&paths[0]);
    cx.check(c.len() == 1, || format!("{} connected segments are drawn as {} chains", n, c.len()))?;
    let g = |u: f64| {
        let k = (u.floor() as usize).min(n - 1);
        let q = m.curves[0].segments[k].curve.get_point(u - k as f64);
        (q.x, q.y)
    };
    follows(cx, &c[0], &g, (0.0, n as f64), Some(0.05))
}
/// long polylines and splines
fn long(cx: &mut Cx) -> Res {
    let n = cx.of("pieces", &[10usize, 50, 200, 500, 1000]);
    let what = cx.of("curve", &["zigzag", "cubic", "quadratic", "double knots"]);
    let (a, b) = cx.of("range", &[(0.0, 1.0), (1.0, 0.0), (0.25, 0.75), (0.9, 0.1), (0.5, 1.0), (0.0, 0.5)]);
    if what != "zigzag" && n > 200 {
        return cx.skip();
    }
    let at = |i: usize| p(3.0 * i as f64, if i % 2 == 0 { 0.0 } else { 4.0 }, 0.0);
    let (curve, w, tol): (Box<dyn Curve>, f64, Option<f64>) = match what {
        "zigzag" => (Box::new(Polyline::new((0..=n).map(at).collect())), 1.0, Some(0.012)),
        _ => {
            let d = if what == "quadratic" { 2 } else { 3 };
            let mut t = vec![0.0; d + 1];
            for i in 1..n {
                t.push(i as f64);
                if what == "double knots" {
                    t.push(i as f64);
                }
            }
            t.extend(vec![n as f64; d + 1]);
            let m = t.len() - d - 1;
            (Box::new(BSplineCurve { control_points: (0..m).map(|i| at(i) + p(0.0, (i % 5) as f64, 0.0)).collect(), knots: KnotVector::new(t), degree: d as u8 }), n as f64, None)
        }
    };
    rand::mc::install(Some(Box::new(|| 1 << 63)));
    let m = build(vec![vec![Seg { curve, range: (a * w, b * w), tol }]]);
    let paths = draw(cx, &m, (100.0, 60.0))?;
    let c = chains(&paths[0]);
    cx.check(c.len() == 1, || format!("one segment is drawn as {} chains", c.len()))?;
    let g = |u: f64| {
        let q = m.curves[0].segments[0].curve.get_point(u);
        (q.x, q.y)
    };
    follows_n(cx, &c[0], &g, (a * w, b * w), tol, 4000.max(n * 200))
}
/// many segments, many curves
fn crowd(cx: &mut Cx) -> Res {
    let (nc, ns) = cx.of("curves x segments", &[(1usize, 12usize), (1, 100), (1, 300), (20, 3), (150, 1), (300, 2)]);
    let (k0, k1) = (cx.num("first", KINDS), cx.num("step", 4));
    let kind = |i: usize| (k0 + k1 * i) % KINDS;
    let one = |cx: &mut Cx, k: usize| -> Result<Vec<P2>, Fail> {
        rand::mc::install(Some(Box::new(|| 1 << 63)));
        let (curve, range, _) = curve_of(k);
        let paths = draw(cx, &build(vec![vec![Seg { curve, range, tol: None }]]), (100.0, 60.0))?;
        Ok(chains(&paths[0]).concat())
    };
    let mut alone: Vec<Vec<P2>> = vec![];
    for k in 0..KINDS {
        alone.push(one(cx, k)?);
    }
    let curves = (0..nc).map(|i| (0..ns).map(|j| { let (curve, range, _) = curve_of(kind(i * ns + j)); Seg { curve, range, tol: None } }).collect()).collect();
    rand::mc::install(Some(Box::new(|| 1 << 63)));
    let m = build(curves);
    let paths = draw(cx, &m, (100.0, 60.0))?;
    for (i, els) in paths.iter().enumerate() {
        let got: Vec<P2> = chains(els).concat();
        let mut flat: Vec<P2> = vec![];
        for j in 0..ns {
            for q in &alone[kind(i * ns + j)] {
                if flat.last().map_or(true, |l| dist(*l, *q) > 1e-9) {
                    flat.push(*q);
                }
            }
        }
        let ok = got.len() == flat.len() && got.iter().zip(&flat).all(|(a, b)| dist(*a, *b) < 1e-6);
        cx.check(ok, || format!("curve {} is drawn through {} points, its segments alone through {}", i, got.len(), flat.len()))?;
    }
    Ok(())
}
/// places, page sizes and magnitudes
fn pages(cx: &mut Cx) -> Res {
    let page = (cx.of("width", &[100.0, 370.0, 0.5, 297.3, 1e6]), cx.of("height", &[60.0, 245.0, 210.5, 0.25, 99.99, 1e5]));
    let x = cx.of("x", &[0.0, -12.345, 1e-9, 99999.994, -0.004, 123456.78, -1234567.89]);
    let y = cx.of("y", &[0.0, 245.5, -7.005, 54321.125, 1e-12, 7654321.21]);
    let curve: Box<dyn Curve> = match cx.num("kind", 3) {
        0 => Box::new(Line { origin: p(x, y, 0.0), direction: p(1.0, 2.0, 0.0) }),
        1 => Box::new(Polyline::new(vec![p(x, y, 0.0), p(x + 0.5, y + 1.0, 3.0), p(x + 1.0, y + 2.0, 0.0)])),
        _ => Box::new(BSplineCurve { control_points: vec![p(x, y, 0.0), p(x + 0.25, y + 0.5, 0.0), p(x + 0.5, y + 1.0, 0.0), p(x + 1.0, y + 2.0, 0.0)], knots: KnotVector::bezier_knot(3), degree: 3 }),
    };
    let m = build(vec![vec![Seg { curve, range: (0.0, 1.0), tol: None }]]);
    let paths = draw(cx, &m, page)?;
    let c = chains(&paths[0]);
    let tol = ROUND + 1e-9 * (x.abs() + y.abs() + page.1);
    let (a, b) = (c[0][0], *c[0].last().unwrap());
    cx.check(dist(a, (x, y)) <= tol && dist(b, (x + 1.0, y + 2.0)) <= tol, || format!("drawn from {:?} to {:?} on the page", a, b))
}
pub fn c16() -> Prop {
    Prop {
        id: "C16",
        scenarios: vec![
            Scenario { name: "single", run: single },
            Scenario { name: "several", run: several },
            Scenario { name: "connected", run: connected },
            Scenario { name: "pages", run: pages },
            Scenario { name: "long", run: long },
            Scenario { name: "crowd", run: crowd },
        ],
        rule: "every curve of a 17-curve alphabet (lines, polylines, circles of either axis and tilted, B-splines of degree 2, 3, 4 with repeated and shifted knots, rational, Bezier) over every parameter range between 9 cuts (full, reversed, partial, at and near knots, without extent) with 3 random answers; every sequence of segments within curves within models; every chain of connected segments; every page size and position; the written file is parsed by an independent SVG reader (transforms, relative commands) and the drawn chain is matched against 4000 points of the curve in order; non-trivial: distinct documents",
        bounds_quick: "1 curve of up to 2 segments or 2 curves of 1; chains of 4; curves of up to 1000 pieces; up to 300 segments and 300 curves",
        bounds_thorough: "11 cuts; 1 curve of 3 segments or 2 curves of 2; chains of 5",
        assumptions: vec!["the tolerance is checked where a curve does not inflect (sampling tests the flatness at one random point)", "segment end points of one curve need not coincide"],
    }
}

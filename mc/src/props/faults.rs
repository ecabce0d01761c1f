//! C18: every system call of every save and load fails, is short or is interrupted.
//! C23: every history of saves, loads and computations over a directory.
use super::files::{dir, empty_dir, mesh, pool};
use super::Prop;
use crate::core::*;
use crate::io::{self, Ans, Op};
use geom3d::curve::{CurveSegment, Line, Polyline};
use geom3d::model::{Model, StepReader};
use geom3d::points::*;
use geom3d::surface::*;
use geom3d::{curve, Face, KnotVector, Point2, Point3, Polycurve, TriangleMesh};
use std::io::Result as Io;
use std::path::Path;

fn p(x: f64, y: f64, z: f64) -> Point3 {
    Point3::new(x, y, z)
}
fn points(n: usize) -> Vec<Point3> {
    (0..n).map(|i| p(i as f64 + 0.1, -(i as f64) / 3.0, 1e-3 * i as f64)).collect()
}
fn strip(n: usize, normals: bool) -> TriangleMesh {
    if n < 3 {
        return pool(0, 0);
    }
    let v = points(n);
    let t = (0..n as u32 - 2).flat_map(|i| [i, i + 1, i + 2]).collect();
    mesh(v.clone(), if normals { v } else { vec![] }, t)
}
fn drawing(n: usize) -> Model<TriangleMesh> {
    let mut m = Model::new();
    for k in 0..n {
        let line: Box<dyn curve::Curve> = Box::new(Line { origin: p(k as f64, 0.0, 0.0), direction: p(1.0, 2.0, 0.0) });
        let poly: Box<dyn curve::Curve> = Box::new(Polyline::new(points(4)));
        let bs: Box<dyn curve::Curve> =
            Box::new(curve::BSplineCurve { control_points: points(4), knots: KnotVector::uniform_knot(3, 1), degree: 3 });
        let seg = |curve| CurveSegment { curve, parameter_range: (0.0, 1.0), tolerance: 0.01, parameter_division: 16 };
        m.add_curve(Polycurve { segments: vec![seg(line), seg(poly), seg(bs)] });
    }
    m
}
pub const SAVES: [&str; 8] = ["cloud", "cloud+normal", "points", "mesh.obj", "model.obj", "model.stl", "svg", "bound.obj"];
/// run one of the save functions with contents of a given size
fn save(kind: &str, size: usize, path: &Path) -> Io<()> {
    match kind {
        "cloud" => save_point_cloud(&points(size), path),
        "cloud+normal" => save_point_cloud_with_normal(&points(size).into_iter().map(|q| (q, q * 2.0)).collect::<Vec<_>>(), path),
        "points" => save_points(&points(size).into_iter().map(|q| Point2::new(q.x, q.y)).collect::<Vec<_>>(), path),
        "mesh.obj" => strip(size, size % 2 == 1).save_as_obj(path),
        "model.obj" => Model { faces: vec![strip(size, false), strip(size / 2, true)], curves: vec![] }.save_as_obj(path),
        "model.stl" => Model { faces: vec![strip(size, false), strip(size / 2, true)], curves: vec![] }.save_as_stl(path),
        "svg" => drawing(size / 3).save_as_svg(path, (100.0, 50.0)),
        _ => save_bound_as_obj(&points(size), path),
    }
}
const ANSWERS: [Ans; 6] = [Ans::One, Ans::Half, Ans::Intr, Ans::Err(libc::ENOSPC), Ans::Err(libc::EIO), Ans::Err(libc::EDQUOT)];
/// deviations for a run of `calls` calls: one, two, or all from some call on
fn plan(cx: &mut Cx, log: &[(Op, usize, Ans)], two: bool) -> (Vec<(usize, Ans)>, Option<(usize, Ans)>, String) {
    let calls = log.len();
    let mut dev = vec![];
    let mut from = None;
    match cx.num("mode", if two { 3 } else { 2 }) {
        0 => dev.push((cx.num("call", calls), cx.of("answer", &ANSWERS))),
        1 => {
            // interruptions must end some time
            from = Some((cx.num("from", calls), cx.of("answer", &[Ans::One, Ans::Half, Ans::Err(libc::ENOSPC), Ans::Err(libc::EIO)])));
        }
        _ => {
            // an earlier deviation shifts later call numbers, so the second one may lie beyond
            let i = cx.num("call", calls);
            dev.push((i, cx.of("answer", &ANSWERS)));
            let j = i + 1 + cx.num("later", (calls - i).min(6) + 2);
            dev.push((j, cx.of("answer", &ANSWERS)));
        }
    }
    let s = format!("{:?} {:?} of {:?}", dev, from, log.iter().map(|l| (l.0, l.1)).take(12).collect::<Vec<_>>());
    (dev, from, s)
}
fn save_faults(cx: &mut Cx) -> Res {
    let kind = cx.of("save", &SAVES);
    let th = cx.thorough();
    let size = cx.of("size", if th { &[3usize, 0, 1, 2, 9, 25, 60] } else { &[3usize, 0, 1, 2, 9, 25] });
    one_save(cx, kind, size, th || size <= 9)
}
/// more data than any buffer holds
fn save_big(cx: &mut Cx) -> Res {
    let kind = cx.of("save", &["model.stl", "svg", "model.obj"]);
    // with 4000, the buffer of the STL writer is full at every field of a triangle in turn
    let size = cx.of("size", if cx.thorough() { &[130usize, 180, 400, 4000, 1000] } else { &[130usize, 180, 400, 4000] });
    if kind != "model.stl" && size == 4000 || kind == "model.obj" && size > 180 {
        return cx.skip();
    }
    let two = (kind != "model.obj" || cx.thorough()) && size < 4000;
    one_save(cx, kind, size, two)
}
fn one_save(cx: &mut Cx, kind: &str, size: usize, two: bool) -> Res {
    let path = dir().join("f");
    let old = cx.flag("file-exists");
    let prepare = || {
        if old {
            std::fs::write(&path, vec![b'x'; 100_000]).expect("MC: prepare");
        } else {
            let _ = std::fs::remove_file(&path);
        }
    };
    prepare();
    io::script(vec![], None);
    let r = save(kind, size, &path);
    let log = io::script_off();
    if let Err(e) = r {
        return cx.fail(format!("saving failed without a fault: {}", e));
    }
    let want = std::fs::read(&path).expect("MC: read");
    if log.is_empty() {
        return cx.fail("MC: no system call seen".into());
    }
    let (dev, from, s) = plan(cx, &log, two);
    prepare();
    io::script(dev, from);
    let r = guarded(|| save(kind, size, &path));
    let done = io::script_off();
    let hit = done.iter().filter(|l| l.2 != Ans::Normal).count();
    cx.extra_transitions += done.len() as u64;
    cx.observe(&(kind, hit, done.len(), r.as_ref().map(|r| r.is_ok()).unwrap_or(false)));
    match r {
        Err(m) => cx.fail(format!("panicked: {} with {}", m, s)),
        Ok(Err(_)) => cx.check(hit > 0, || format!("failed without a fault: {}", s)),
        Ok(Ok(())) => {
            let got = std::fs::read(&path).unwrap_or_default();
            cx.check(got == want, || format!("success was reported, but {} of {} bytes agree ({} written) with {}", got.iter().zip(&want).take_while(|x| x.0 == x.1).count(), want.len(), got.len(), s))
        }
    }
}
/// a STEP file with one face and one curve
pub const STEP: &str = "ISO-10303-21;\nHEADER;\nFILE_DESCRIPTION((''),'2;1');\nFILE_NAME('','',(''),(''),'','','');\nFILE_SCHEMA(('AUTOMOTIVE_DESIGN'));\nENDSEC;\nDATA;\n#1=CARTESIAN_POINT('',(1.,2.,3.));\n#2=DIRECTION('',(0.,0.,1.));\n#3=DIRECTION('',(1.,0.,0.));\n#4=AXIS2_PLACEMENT_3D('',#1,#2,#3);\n#5=PLANE('',#4);\n#6=VERTEX_POINT('',#1);\n#7=CIRCLE('',#4,2.);\n#8=EDGE_CURVE('',#6,#6,#7,.T.);\n#9=ORIENTED_EDGE('',*,*,#8,.T.);\n#10=EDGE_LOOP('',(#9));\n#11=FACE_BOUND('',#10,.T.);\n#12=ADVANCED_FACE('',(#11),#5,.T.);\n#13=TRIMMED_CURVE('',#7,(PARAMETER_VALUE(0.)),(PARAMETER_VALUE(1.)),.T.,.PARAMETER.);\n#14=COMPOSITE_CURVE_SEGMENT(.CONTINUOUS.,.T.,#13);\n#15=COMPOSITE_CURVE('',(#14),.F.);\nENDSEC;\nEND-ISO-10303-21;\n";
fn load_faults(cx: &mut Cx) -> Res {
    let kind = cx.of("load", &["cloud", "step"]);
    let size = if kind == "cloud" { cx.of("points", &[3usize, 0, 1, 50, 400, 3000]) } else { 1 };
    let path = dir().join("l");
    if kind == "cloud" {
        save_point_cloud(&points(size), &path).expect("MC: prepare");
    } else {
        std::fs::write(&path, STEP).expect("MC: prepare");
    }
    let load = || -> Io<String> {
        Ok(if kind == "cloud" {
            format!("{:?}", load_point_cloud(&path)?)
        } else {
            let m = StepReader::read_model(&path)?;
            format!("{:?} {:?}", m.faces.iter().map(|f| format!("{:?} {:?}", f.surface, f.bounds.iter().map(|b| b.edges.len()).collect::<Vec<_>>())).collect::<Vec<_>>(), m.curves.iter().map(|c| format!("{:?}", c.segments)).collect::<Vec<_>>())
        })
    };
    io::script(vec![], None);
    let r = load();
    let log = io::script_off();
    let want = match r {
        Ok(w) => w,
        Err(e) => return cx.fail(format!("loading failed without a fault: {}", e)),
    };
    let (dev, from, s) = plan(cx, &log, true);
    io::script(dev, from);
    let r = guarded(load);
    let done = io::script_off();
    let hit = done.iter().filter(|l| l.2 != Ans::Normal).count();
    cx.extra_transitions += done.len() as u64;
    cx.observe(&(kind, hit, done.len(), r.as_ref().map(|r| r.is_ok()).unwrap_or(false)));
    match r {
        Err(m) => cx.fail(format!("panicked: {} with {}", m, s)),
        Ok(Err(_)) => cx.check(hit > 0, || format!("failed without a fault: {}", s)),
        Ok(Ok(got)) => cx.check(got == want, || format!("success was reported, but {} was loaded with {}", got.chars().take(80).collect::<String>(), s)),
    }
}
/// `write_obj` to a writer of the caller's
struct Flaky {
    data: Vec<u8>,
    at: usize,
    calls: usize,
    ans: Ans,
    forever: bool,
}
impl std::io::Write for Flaky {
    fn write(&mut self, b: &[u8]) -> Io<usize> {
        let i = self.calls;
        self.calls += 1;
        let a = if i == self.at || (self.forever && i > self.at) { self.ans } else { Ans::Normal };
        let n = match a {
            Ans::Normal => b.len(),
            Ans::One => b.len().min(1),
            Ans::Half => (b.len() + 1) / 2,
            Ans::Intr => return Err(std::io::ErrorKind::Interrupted.into()),
            Ans::Err(e) => return Err(std::io::Error::from_raw_os_error(e)),
        };
        self.data.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> Io<()> {
        Ok(())
    }
}
fn writer_faults(cx: &mut Cx) -> Res {
    let m = pool(cx.num("mesh", super::files::MESHES), 1);
    let mut w = Flaky { data: vec![], at: usize::MAX, calls: 0, ans: Ans::Normal, forever: false };
    m.write_obj(&mut w, 1, 1).unwrap();
    if w.calls == 0 {
        return cx.skip();
    }
    let want = w.data;
    let at = cx.num("call", w.calls);
    let ans = cx.of("answer", &ANSWERS);
    let forever = ans != Ans::Intr && cx.flag("forever");
    let mut w = Flaky { data: vec![], at, calls: 0, ans, forever };
    let r = m.write_obj(&mut w, 1, 1);
    cx.observe(&(r.is_ok(), w.calls));
    match r {
        Err(_) => cx.check(matches!(ans, Ans::Err(_) | Ans::Intr), || "failed without a fault".into()),
        Ok(()) => cx.check(w.data == want, || format!("success, but {} of {} bytes written", w.data.len(), want.len())),
    }
}
/// paths at which nothing can be created or read
fn bad_paths(cx: &mut Cx) -> Res {
    let d = dir().join("sub");
    let _ = std::fs::create_dir(&d);
    let bad = cx.of("path", &["", "/", ".", "..", "DIR", "DIR/none/x.stl", "DIR/none/", "DIR/..", "DIR/nul\0.obj", "LONG", "/dev/full"]);
    let path = match bad {
        "LONG" => d.join("n".repeat(300)),
        b => b.replace("DIR", d.to_str().unwrap()).into(),
    };
    let kind = cx.num("operation", SAVES.len() + 2);
    let size = cx.of("size", &[4usize, 0, 300]);
    let r = guarded(|| match kind {
        k if k < SAVES.len() => save(SAVES[k], size, &path),
        _ if bad == "/dev/full" => Err(std::io::ErrorKind::Other.into()),
        k if k == SAVES.len() => load_point_cloud(&path).map(|_| ()),
        _ => StepReader::read_model(&path).map(|_| ()),
    });
    // there is nothing to write, so either answer is right
    let empty = bad == "/dev/full" && kind < SAVES.len() && {
        let file = dir().join("e");
        let _ = std::fs::remove_file(&file);
        matches!(guarded(|| save(SAVES[kind], size, &file)), Ok(Ok(()))) && std::fs::metadata(&file).map(|m| m.len() == 0).unwrap_or(false)
    };
    cx.observe(&(kind, bad, r.is_ok()));
    match r {
        Err(m) => cx.fail(format!("panicked: {}", m)),
        Ok(Ok(())) => cx.check(empty, || "success was reported".into()),
        Ok(Err(_)) => Ok(()),
    }
}
pub fn c18() -> Prop {
    Prop {
        id: "C18",
        scenarios: vec![
            Scenario { name: "save", run: save_faults },
            Scenario { name: "save-big", run: save_big },
            Scenario { name: "load", run: load_faults },
            Scenario { name: "writer", run: writer_faults },
            Scenario { name: "paths", run: bad_paths },
        ],
        rule: "for each of the 8 save functions (several sizes, new or existing file) and 2 load functions: every system call (open, write, read, seek) x {1 byte, half, interrupted, ENOSPC, EIO, EDQUOT}; every call from which on everything is short or fails; every pair of deviations up to 7 calls apart; every call of a caller's writer; 11 paths which cannot be created or read (and /dev/full) x every operation; the file left behind by a reported success is compared byte for byte with the fault-free one; non-trivial: distinct (operation, deviations taken, calls, outcome)",
        bounds_quick: "sizes 0..25 points, big files of 130, 180, 400, STL files of 6000 triangles",
        bounds_thorough: "sizes up to 60, big files up to 1000, pairs everywhere",
        assumptions: vec!["interruptions end some time", "close() does not fail"],
    }
}

// ------------------------------------------------------------------ histories
fn loop_of(v: Vec<Point3>) -> EdgeLoop {
    let n = v.len();
    let edges = (0..n)
        .map(|i| CurveSegment {
            curve: Box::new(Line { origin: v[i], direction: v[(i + 1) % n] - v[i] }) as Box<dyn curve::Curve>,
            parameter_range: (0.0, 1.0),
            tolerance: 0.01,
            parameter_division: 4,
        })
        .collect();
    EdgeLoop { edges }
}
fn flat(n: usize) -> BSplineSurface<Point3> {
    let pts = (0..n * n).map(|i| p((i / n) as f64, (i % n) as f64, 0.1 * ((i * i) % 3) as f64)).collect();
    BSplineSurface::uniform_clamped(geom3d::Grid::from_vec(pts, n), (2, 2))
}
const COMPUTATIONS: [&str; 10] = ["trim-clockwise", "trim-stray", "trim-plane", "trim-cylinder", "trim-bspline", "patch", "sample", "project", "polygon", "edit"];
fn compute(what: &str) {
    match what {
        "trim-plane" => {
            let s = Plane { origin: p(0.0, 0.0, 0.0), normal: p(0.0, 0.0, 1.0), u_axis: p(1.0, 0.0, 0.0), v_axis: p(0.0, 1.0, 0.0) };
            let b = vec![
                loop_of(vec![p(0.0, 0.0, 0.0), p(4.0, 0.0, 0.0), p(4.0, 4.0, 0.0), p(0.0, 4.0, 0.0)]),
                loop_of(vec![p(1.0, 1.0, 0.0), p(1.0, 2.0, 0.0), p(2.0, 2.0, 0.0)]),
            ];
            TrimmedSurface { surface: s, bounds: b }.get_triangle_mesh();
        }
        "trim-cylinder" => {
            let s = Cylinder { origin: p(0.0, 0.0, 0.0), axis: p(0.0, 0.0, 1.0), ref_dir: p(1.0, 0.0, 0.0), radius: 1.0 };
            let c = |z| CurveSegment {
                curve: Box::new(curve::Circle { center: p(0.0, 0.0, z), radius: 1.0, axis: p(0.0, 0.0, 1.0), ref_dir: p(1.0, 0.0, 0.0) }) as Box<dyn curve::Curve>,
                parameter_range: if z == 0.0 { (0.0, 1.5) } else { (1.5, 0.0) },
                tolerance: 0.01,
                parameter_division: 4,
            };
            let l = |a: f64, z: f64, up: f64| CurveSegment {
                curve: Box::new(Line { origin: p(a.cos(), a.sin(), z), direction: p(0.0, 0.0, up) }) as Box<dyn curve::Curve>,
                parameter_range: (0.0, 1.0),
                tolerance: 0.01,
                parameter_division: 4,
            };
            let b = vec![EdgeLoop { edges: vec![c(0.0), l(1.5, 0.0, 2.0), c(2.0), l(0.0, 2.0, -2.0)] }];
            TrimmedSurface { surface: s, bounds: b }.get_triangle_mesh();
        }
        "trim-bspline" => {
            // two loops, as trimming a B-spline surface needs more than one to mesh anything
            let s = flat(4);
            let q = |u, v| s.get_point(u, v);
            let b = vec![loop_of(vec![q(0.1, 0.1), q(0.9, 0.1), q(0.9, 0.9), q(0.1, 0.9)]), loop_of(vec![q(0.4, 0.4), q(0.4, 0.6), q(0.6, 0.6)])];
            s.trim(&b);
            flat(3).trim(&[]);
        }
        // loops which are not what they should be
        "trim-clockwise" => {
            let s = Plane { origin: p(0.0, 0.0, 0.0), normal: p(0.0, 0.0, 1.0), u_axis: p(1.0, 0.0, 0.0), v_axis: p(0.0, 1.0, 0.0) };
            let outer = || loop_of(vec![p(0.0, 4.0, 0.0), p(4.0, 4.0, 0.0), p(4.0, 0.0, 0.0), p(0.0, 0.0, 0.0)]);
            s.trim(&[outer()]);
            s.trim(&[loop_of(vec![p(0.0, 4.0, 0.0), p(2.0, 3.5, 0.0), p(4.0, 4.0, 0.0), p(4.0, 0.0, 0.0), p(0.0, 0.0, 0.0)])]);
            s.trim(&[loop_of(vec![p(1.0, 1.0, 0.0); 3])]);
            s.trim(&[loop_of(vec![p(0.0, 0.0, 0.0), p(1.0, 0.0, 0.0)])]);
            s.trim(&[]);
            s.trim(&[outer(), EdgeLoop { edges: vec![] }]);
        }
        "trim-stray" => {
            // vertices off the surface and beyond its edges
            let s = flat(4);
            s.trim(&[loop_of(vec![p(-1.0, -1.0, 1.0), p(1.0, -1.0, 1.0), p(1.0, 1.0, 1.0), p(-1.0, 1.0, 1.0)])]);
            s.trim(&[EdgeLoop { edges: vec![] }]);
            let c = Cylinder { origin: p(0.0, 0.0, 0.0), axis: p(0.0, 0.0, 1.0), ref_dir: p(1.0, 0.0, 0.0), radius: 1.0 };
            c.trim(&[EdgeLoop { edges: vec![] }]);
            c.trim(&[]);
            flat(4).project_points(&[p(1e3, -1e3, 5.0), p(0.5, 0.5, 1e6), p(0.0, 0.0, 0.0)]);
        }
        "patch" => {
            SurfacePatch { surface: flat(3), parameter_range: ((0.0, 1.0), (0.0, 1.0)), parameter_division: (4, 4) }.get_triangle_mesh();
        }
        "sample" => {
            let c = curve::Circle { center: p(0.0, 0.0, 0.0), radius: 5.0, axis: p(0.0, 0.0, 1.0), ref_dir: p(1.0, 0.0, 0.0) };
            CurveSegment { curve: c, parameter_range: (0.0, 6.0), tolerance: 0.01, parameter_division: 4 }.get_points();
        }
        "project" => {
            flat(4).project_points(&[p(1.0, 1.0, 0.0), p(2.0, 0.5, 0.3)]);
            use geom3d::curve::Curve;
            curve::BSplineCurve { control_points: points(5), knots: KnotVector::uniform_knot(3, 2), degree: 3 }.project(p(1.0, 0.0, 0.0));
        }
        "polygon" => {
            let q: Vec<Point2> = [(0.0, 0.0), (2.0, 0.0), (2.0, 2.0), (1.0, 0.5), (0.0, 2.0)].iter().map(|&(x, y)| Point2::new(x, y)).collect();
            let (v, c) = geom3d::utils::compute_vertex_convexity(&q);
            geom3d::utils::trianglate_polygon(&q, v, c);
        }
        _ => {
            let c = curve::BSplineCurve { control_points: points(5), knots: KnotVector::uniform_knot(3, 2), degree: 3 };
            c.to_piecewise_bezier();
            strip(20, true).reverse_winding_direction();
            scale_points(&points(3), 2.0);
        }
    }
}
const SIZES: [usize; 3] = [6, 0, 40];
fn history(cx: &mut Cx) -> Res {
    let depth = if cx.thorough() { 4 } else { 3 };
    let d = dir().join("h");
    let _ = std::fs::create_dir(&d);
    empty_dir(&d);
    // what each file must contain: the content of the same save to a new file
    let mut model: std::collections::BTreeMap<String, Vec<u8>> = Default::default();
    std::fs::write(d.join("bystander"), "untouched").unwrap();
    model.insert("bystander".into(), b"untouched".to_vec());
    for step in 0..depth {
        let name = cx.of("file", &["a", "b.obj"]);
        let kinds = &SAVES[..];
        let op = cx.pick(kinds.len() * SIZES.len() + 2);
        if op < kinds.len() * SIZES.len() {
            let (kind, size) = (kinds[op % kinds.len()], SIZES[op / kinds.len()]);
            cx.say(format!("save {} {}", kind, size));
            if let Err(e) = save(kind, size, &d.join(name)) {
                return cx.fail(format!("save failed: {}", e));
            }
            let fresh = dir().join(name);
            let _ = std::fs::remove_file(&fresh);
            save(kind, size, &fresh).expect("MC: fresh save");
            model.insert(name.into(), std::fs::read(&fresh).unwrap());
            std::fs::remove_file(&fresh).unwrap();
        } else if op == kinds.len() * SIZES.len() {
            cx.say("load".into());
            // whatever is there: loading changes nothing (it may fail)
            let _ = load_point_cloud(d.join(name));
        } else {
            cx.say("compute all".into());
            for w in COMPUTATIONS {
                compute(w);
            }
        }
        let mut seen = 0;
        for e in std::fs::read_dir(&d).unwrap().flatten() {
            seen += 1;
            let n = e.file_name().to_string_lossy().into_owned();
            let got = std::fs::read(e.path()).unwrap_or_default();
            match model.get(&n) {
                None => return cx.fail(format!("step {} created {}", step, n)),
                Some(w) => cx.check(*w == got, || format!("after step {} the {} bytes of {} are not the {} bytes of its last save", step, got.len(), n, w.len()))?,
            }
        }
        cx.check(seen == model.len(), || format!("after step {} a file is gone", step))?;
        cx.observe(&model);
    }
    Ok(())
}
/// computations open no file; a save opens one and leaves one
fn no_files(cx: &mut Cx) -> Res {
    let n = if cx.thorough() { 3 } else { 2 };
    for _ in 0..n {
        let w = cx.of("compute", &COMPUTATIONS);
        let before = io::opens();
        io::script(vec![], None);
        compute(w);
        let log = io::script_off();
        cx.check(io::opens() == before && log.is_empty(), || format!("{} opened {} files and made {} file accesses", w, io::opens() - before, log.len()))?;
    }
    cx.observe(&cx.trace());
    Ok(())
}
/// the computations of the other properties, whatever comes out of them, open no file either
fn others() -> &'static [(String, fn(&mut Cx) -> Res)] {
    static ALL: std::sync::OnceLock<Vec<(String, fn(&mut Cx) -> Res)>> = std::sync::OnceLock::new();
    ALL.get_or_init(|| {
        let names: [(Prop, &[&str]); 15] = [
            (super::knots::c01(), &["standard", "construct"]),
            (super::curves::c03(), &["evaluate", "derivative", "rational"]),
            (super::curves::c04(), &[]),
            (super::edit::c05(), &["fine", "long", "long-ops"]),
            (super::project::c06(), &["line", "circle", "polyline-mixed", "bezier", "unclamped", "constant", "long"]),
            (super::project::c07(), &["walk", "mixed", "long"]),
            (super::project::c08(), &["flat", "fine", "spline"]),
            (super::surf::c10(), &["plane", "cylinder", "spin-sweep", "umbrella"]),
            (super::surf::c11(), &["tessellate", "normals", "plain"]),
            (super::trim::c12(), &["degenerate", "framed", "outlines", "plate", "touching", "notched"]),
            (super::front::c13(), &["null", "plate", "spline", "cylinder"]),
            (super::invert::c20(), &["on-surface", "off-surface"]),
            (super::util::c21(), &["degenerate", "scalars"]),
            (super::boxed::c22(), &["curves", "surfaces"]),
            (super::loops::c24(), &["empty", "many"]),
        ];
        let mut all = vec![];
        for (p, names) in names {
            for n in names {
                let s = p.scenarios.iter().find(|s| s.name == *n).expect("MC: no such scenario");
                all.push((format!("{} {}", p.id, n), s.run));
            }
        }
        all
    })
}
fn elsewhere(cx: &mut Cx) -> Res {
    let all = others();
    let (name, run) = &all[cx.pick(all.len())];
    cx.say(name.clone());
    // what they compute is judged by their own checks
    let tier = std::mem::replace(&mut cx.tier, Tier::Quick);
    let before = io::opens();
    let _ = guarded(|| run(cx));
    let n = io::opens() - before;
    cx.tier = tier;
    cx.check(n == 0, || format!("{} files were opened", n))
}
/// saving leaves the model as it was: saving again, in any other format in between, gives the same file
fn again(cx: &mut Cx) -> Res {
    let mut model = drawing(cx.num("curves", 3));
    let n = cx.num("faces", 3);
    for k in 0..n {
        model.add_face(pool(cx.num("mesh", super::files::MESHES), k));
    }
    let d = dir();
    let run = |f: usize, path: &Path| match f {
        0 => model.save_as_obj(path),
        1 => model.save_as_stl(path),
        _ => model.save_as_svg(path, (30.0, 20.0)),
    };
    let first = cx.num("format", 3);
    run(first, &d.join("first")).expect("MC: save");
    let want = std::fs::read(d.join("first")).unwrap();
    for _ in 0..2 {
        let f = cx.num("format", 3);
        run(f, &d.join("other")).expect("MC: save");
        run(first, &d.join("second")).expect("MC: save");
        let got = std::fs::read(d.join("second")).unwrap();
        // the header of an STL file carries the file name
        let skip = if first == 1 { 80 } else { 0 };
        cx.check(got.len() == want.len() && got[skip..] == want[skip..], || format!("format {} differs when saved again", first))?;
    }
    cx.observe(&want);
    Ok(())
}
pub fn c23() -> Prop {
    Prop {
        id: "C23",
        scenarios: vec![
            Scenario { name: "history", run: history },
            Scenario { name: "no-files", run: no_files },
            Scenario { name: "elsewhere", run: elsewhere },
            Scenario { name: "again", run: again },
        ],
        rule: "every history of saves (format x size x file), loads and computations over a directory with a bystander file, the whole directory compared with a reference map after every step; every sequence of 10 computations (trimming on each surface kind, patches, sampling, projection, triangulation, editing, loops which are not what they should be) and all executions of 40 scenarios of the other properties with the system-call boundary watched; every model saved again with any other save in between; non-trivial: distinct directory contents",
        bounds_quick: "histories of 3 steps over 8 formats x 3 sizes x 2 files; pairs of computations",
        bounds_thorough: "histories of 4 steps over 8 formats; triples of computations",
        assumptions: vec!["models of meshes, lines, polylines and cubic B-splines (other curves are sampled at random parameters)"],
    }
}

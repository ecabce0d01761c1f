//! C14, C15, C17: what is in the files that are written and read.
use super::Prop;
use crate::core::*;
use geom3d::model::Model;
use geom3d::points::*;
use geom3d::{Face, Point2, Point3, TriangleMesh, Vec3};
use std::path::{Path, PathBuf};

thread_local! {
    static DIR: PathBuf = {
        use std::sync::atomic::*;
        static N: AtomicUsize = AtomicUsize::new(0);
        let p = std::env::current_dir().unwrap().join(format!("t{}", N.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(&p).expect("MC: scratch");
        p
    };
}
/// a scratch directory of this explorer thread
pub fn dir() -> PathBuf {
    DIR.with(|d| d.clone())
}
pub fn empty_dir(d: &Path) {
    for e in std::fs::read_dir(d).unwrap().flatten() {
        if e.path().is_dir() {
            empty_dir(&e.path());
            std::fs::remove_dir(e.path()).unwrap();
        } else {
            std::fs::remove_file(e.path()).unwrap();
        }
    }
}
pub const VALUES: [f64; 26] = [
    0.0,
    -0.0,
    1.0,
    -1.0,
    0.1,
    -0.3,
    1.0 / 3.0,
    -2.0 / 3.0,
    std::f64::consts::PI,
    1e-7,
    -1.5e-9,
    123456.789,
    -98765432.125,
    16777217.0,
    1e15,
    1e16,
    9007199254740993.0,
    1e21,
    -1e22,
    1e300,
    f64::MAX,
    f64::MIN_POSITIVE,
    5e-324,
    -2.2250738585072011e-308,
    0.30000000000000004,
    1.7976931348623155e308,
];
fn p(x: f64, y: f64, z: f64) -> Point3 {
    Point3::new(x, y, z)
}
pub fn mesh(v: Vec<Point3>, n: Vec<Vec3>, t: Vec<u32>) -> TriangleMesh {
    TriangleMesh { vertices: v, normals: n, triangles: t }
}
pub const MESHES: usize = 11;
/// the mesh alphabet; `tag` makes coordinates of different faces distinct
pub fn pool(kind: usize, tag: usize) -> TriangleMesh {
    let o = tag as f64 * 16.0;
    let q = [p(o, 0.25, -1.0), p(o + 1.0, 0.5, 0.1), p(o, 1.75, 1.0 / 3.0), p(o + 1.5, 1.5, 1e-9), p(o - 2.0, 1e6, 7.0)];
    let n = [p(0.0, 0.0, 1.0), p(0.0, 0.6, 0.8), p(1.0, 0.0, 0.0), p(-0.6, 0.0, 0.8), p(0.0, -1.0, 0.0)];
    match kind {
        0 => mesh(vec![], vec![], vec![]),
        1 => mesh(q[..3].to_vec(), vec![], vec![0, 1, 2]),
        2 => mesh(q[..3].to_vec(), n[..3].to_vec(), vec![2, 0, 1]),
        3 => mesh(q[..4].to_vec(), n[..4].to_vec(), vec![0, 1, 2, 2, 1, 3]),
        4 => mesh(q.to_vec(), vec![], vec![0, 1, 2, 4, 3, 1, 1, 3, 2]),
        5 => mesh(q[..4].to_vec(), vec![], vec![]),
        6 => mesh(q[..2].to_vec(), n[..2].to_vec(), vec![]),
        7 => mesh(q.to_vec(), n.to_vec(), vec![4, 0, 4, 3, 2, 1, 0, 0, 0]),
        // more normals than vertices
        8 => mesh(q[..3].to_vec(), n.to_vec(), vec![0, 1, 2, 2, 1, 0]),
        9 => mesh(q[1..4].to_vec(), [n[0], n[3], n[2], n[4]].to_vec(), vec![1, 2, 0]),
        // vertex and index order unlike each other, unused vertices
        _ => mesh(q.to_vec(), n.to_vec(), vec![4, 2, 0]),
    }
}

// ------------------------------------------------------------------ OBJ
#[derive(Default)]
struct Obj {
    v: Vec<[f64; 3]>,
    n: Vec<[f64; 3]>,
    f: Vec<Vec<(i64, Option<i64>)>>,
    other: Vec<String>,
}
fn parse_obj(text: &str) -> Result<Obj, String> {
    let mut o = Obj::default();
    if !text.is_empty() && !text.ends_with('\n') {
        return Err("the last line is not terminated".into());
    }
    for l in text.lines() {
        let t: Vec<&str> = l.split_ascii_whitespace().collect();
        let Some(&k) = t.first() else { continue };
        if k.starts_with('#') || matches!(k, "o" | "g" | "s") {
            continue;
        }
        match k {
            "v" | "vn" => {
                if t.len() != 4 {
                    return Err(format!("bad line {:?}", l));
                }
                let mut c = [0.0; 3];
                for i in 0..3 {
                    c[i] = t[i + 1].parse::<f64>().map_err(|e| format!("{:?}: {}", l, e))?;
                }
                if k == "v" { &mut o.v } else { &mut o.n }.push(c);
            }
            "f" => {
                let mut f = vec![];
                for r in &t[1..] {
                    let mut it = r.split('/');
                    let v = it.next().unwrap().parse::<i64>().map_err(|e| format!("{:?}: {}", l, e))?;
                    it.next();
                    let n = match it.next() {
                        None => None,
                        Some(s) => Some(s.parse::<i64>().map_err(|e| format!("{:?}: {}", l, e))?),
                    };
                    f.push((v, n));
                }
                o.f.push(f);
            }
            _ => o.other.push(l.to_string()),
        }
    }
    Ok(o)
}
fn same(a: &[f64; 3], b: &Point3) -> bool {
    a[0].to_bits() == b.x.to_bits() && a[1].to_bits() == b.y.to_bits() && a[2].to_bits() == b.z.to_bits()
}
fn check_obj(cx: &mut Cx, text: &str, faces: &[TriangleMesh], v0: i64, n0: i64) -> Res {
    let o = match parse_obj(text) {
        Ok(o) => o,
        Err(e) => return cx.fail(format!("unreadable OBJ: {}", e)),
    };
    cx.check(o.other.is_empty(), || format!("unexpected line {:?}", o.other[0]))?;
    let (mut v, mut n, mut f) = (0, 0, 0);
    for (k, m) in faces.iter().enumerate() {
        for i in 0..m.vertices.len() {
            let ok = o.v.get(v + i).map_or(false, |c| same(c, &m.vertices[i]));
            cx.check(ok, || format!("face {} vertex {} is {:?}, not {:?}", k, i, o.v.get(v + i), m.vertices[i]))?;
        }
        for i in 0..m.normals.len() {
            let ok = o.n.get(n + i).map_or(false, |c| same(c, &m.normals[i]));
            cx.check(ok, || format!("face {} normal {} is {:?}, not {:?}", k, i, o.n.get(n + i), m.normals[i]))?;
        }
        for t in m.triangles.chunks(3) {
            let want: Vec<(i64, Option<i64>)> = t
                .iter()
                .map(|&i| (i as i64 + v as i64 + v0, if m.normals.is_empty() { None } else { Some(i as i64 + n as i64 + n0) }))
                .collect();
            cx.check(o.f.get(f) == Some(&want), || format!("face {} triangle {:?} is written {:?}, not {:?}", k, t, o.f.get(f), want))?;
            f += 1;
        }
        v += m.vertices.len();
        n += m.normals.len();
    }
    cx.check(o.v.len() == v && o.n.len() == n && o.f.len() == f, || {
        format!("{} vertices, {} normals, {} triangles instead of {}, {}, {}", o.v.len(), o.n.len(), o.f.len(), v, n, f)
    })
}
fn read(path: &Path) -> String {
    String::from_utf8_lossy(&std::fs::read(path).expect("MC: read back")).into_owned()
}
fn obj_model(cx: &mut Cx) -> Res {
    let n = cx.num("faces", if cx.thorough() { 6 } else { 5 });
    let mut model = Model::new();
    let mut faces = vec![];
    for k in 0..n {
        let m = pool(cx.num("mesh", MESHES), k);
        faces.push(m.clone());
        model.add_face(m);
    }
    let path = dir().join("m.obj");
    if let Err(e) = model.save_as_obj(&path) {
        return cx.fail(format!("save failed: {}", e));
    }
    let text = read(&path);
    cx.observe(&text);
    check_obj(cx, &text, &faces, 1, 1)
}
fn obj_mesh(cx: &mut Cx) -> Res {
    let m = pool(cx.num("mesh", MESHES), cx.trace().len());
    let (v0, n0) = (cx.of("vertex_start", &[1u32, 2, 3, 1000, 65535, 65536, 3_000_000_000]), cx.of("normal_start", &[1u32, 2, 5, 999, 70000, 4_000_000_000]));
    let mut out = Vec::new();
    if let Err(e) = m.write_obj(&mut out, v0, n0) {
        return cx.fail(format!("{}", e));
    }
    check_obj(cx, &String::from_utf8_lossy(&out), &[m.clone()], v0 as i64, n0 as i64)?;
    let path = dir().join("n.obj");
    if let Err(e) = m.save_as_obj(&path) {
        return cx.fail(format!("save failed: {}", e));
    }
    let text = read(&path);
    cx.observe(&text);
    check_obj(cx, &text, &[m], 1, 1)
}
fn obj_values(cx: &mut Cx) -> Res {
    let (a, b) = (cx.of("x", &VALUES), cx.of("y", &VALUES));
    let mut v = vec![];
    for &c in &VALUES {
        v.push(p(a, b, c));
    }
    let m = mesh(v.clone(), v, vec![0, 1, 2]);
    let mut out = Vec::new();
    m.write_obj(&mut out, 1, 1).unwrap();
    cx.observe(&out);
    check_obj(cx, &String::from_utf8_lossy(&out), &[m], 1, 1)
}
/// grids, trimmed faces and sizes beyond 16 bits
struct Both(Box<dyn Face>);
impl Face for Both {
    fn get_triangle_mesh(&self) -> TriangleMesh {
        self.0.get_triangle_mesh()
    }
}
fn strip(n: usize, normals: bool) -> TriangleMesh {
    let v: Vec<Point3> = (0..n).map(|i| p(i as f64, (i % 2) as f64, (i % 7) as f64)).collect();
    let t = (0..n as u32 - 2).flat_map(|i| [i, i + 1, i + 2]).collect();
    mesh(v.clone(), if normals { v.iter().map(|q| *q + p(0.5, 0.0, 0.0)).collect() } else { vec![] }, t)
}
fn big_faces(cx: &mut Cx) -> Vec<TriangleMesh> {
    let k = if cx.thorough() { 3 } else { 2 };
    (0..k)
        .map(|_| {
            let n = cx.of("vertices", &[3usize, 70000, 255, 65536]);
            let normals = cx.flag("normals");
            strip(n, normals)
        })
        .collect()
}
fn obj_big(cx: &mut Cx) -> Res {
    let faces = big_faces(cx);
    let model = Model { faces, curves: vec![] };
    let path = dir().join("b.obj");
    if let Err(e) = model.save_as_obj(&path) {
        return cx.fail(format!("save failed: {}", e));
    }
    let text = read(&path);
    cx.observe(&text.len());
    check_obj(cx, &text, &model.faces, 1, 1)
}
fn surfaces(cx: &mut Cx) -> (Model<Both>, Vec<TriangleMesh>) {
    use geom3d::surface::*;
    let n = 1 + cx.num("faces-1", 3);
    let mut model = Model::new();
    for k in 0..n {
        let origin = p(10.0 * k as f64, 0.0, 1.0);
        let f: Box<dyn Face> = match cx.num("kind", 5) {
            0 => Box::new(SurfacePatch {
                surface: Plane { origin, normal: p(0.0, 0.0, 1.0), u_axis: p(1.0, 0.0, 0.0), v_axis: p(0.0, 1.0, 0.0) },
                parameter_range: ((0.0, 2.0), (-1.0, 3.0)),
                parameter_division: (cx.of("u", &[1usize, 2, 5]), cx.of("v", &[1usize, 3])),
            }),
            1 => Box::new(SurfacePatch {
                surface: Cylinder { origin, axis: p(0.0, 0.0, 1.0), ref_dir: p(1.0, 0.0, 0.0), radius: 2.0 },
                parameter_range: ((0.0, 2.0), (0.0, 6.0)),
                parameter_division: (cx.of("u", &[1usize, 4]), cx.of("v", &[2usize, 8])),
            }),
            2 => Box::new(pool(4, k)),
            3 => Box::new(pool(3, k)),
            _ => Box::new(pool(0, k)),
        };
        model.add_face(Both(f));
    }
    let m = model.faces.iter().map(|f| f.get_triangle_mesh()).collect();
    (model, m)
}
fn obj_surfaces(cx: &mut Cx) -> Res {
    let (model, faces) = surfaces(cx);
    let path = dir().join("s.obj");
    if let Err(e) = model.save_as_obj(&path) {
        return cx.fail(format!("save failed: {}", e));
    }
    let text = read(&path);
    cx.observe(&text);
    check_obj(cx, &text, &faces, 1, 1)
}
/// models of many faces, the mesh kinds in every cyclic pattern
fn many_faces(cx: &mut Cx) -> Vec<TriangleMesh> {
    let n = cx.of("faces", &[6usize, 9, 17, 40, 120, 300]);
    let (a, b, c) = (cx.num("first", MESHES), cx.num("step", MESHES), cx.of("period", &[7usize, 1000]));
    (0..n).map(|k| pool((a + b * (k % c)) % MESHES, k)).collect()
}
fn obj_many(cx: &mut Cx) -> Res {
    let model = Model { faces: many_faces(cx), curves: vec![] };
    let path = dir().join("k.obj");
    if let Err(e) = model.save_as_obj(&path) {
        return cx.fail(format!("save failed: {}", e));
    }
    let text = read(&path);
    cx.observe(&text);
    check_obj(cx, &text, &model.faces, 1, 1)
}
/// a bound is a closed chain of lines
fn obj_bound(cx: &mut Cx) -> Res {
    let n = cx.of("points", &[0usize, 1, 2, 3, 4, 5, 9, 10, 11, 50, 999, 70000]);
    let a = cx.num("value", VALUES.len());
    let v: Vec<Point3> = (0..n).map(|i| p(VALUES[(a + i) % VALUES.len()], i as f64, VALUES[(a + 2 * i) % VALUES.len()])).collect();
    let path = dir().join("l.obj");
    if let Err(e) = geom3d::surface::save_bound_as_obj(&v, &path) {
        return cx.fail(format!("save failed: {}", e));
    }
    let text = read(&path);
    cx.observe(&text);
    let o = match parse_obj(&text) {
        Ok(o) => o,
        Err(e) => return cx.fail(format!("unreadable OBJ: {}", e)),
    };
    cx.check(o.v.len() == n && o.n.is_empty() && o.f.is_empty(), || format!("{} vertices for {}", o.v.len(), n))?;
    for i in 0..n {
        cx.check(same(&o.v[i], &v[i]), || format!("vertex {} is {:?}, not {:?}", i, o.v[i], v[i]))?;
    }
    // the lines, joined, run through all vertices and back
    let mut chain: Vec<usize> = vec![];
    for l in &o.other {
        let t: Vec<&str> = l.split_ascii_whitespace().collect();
        let ids: Vec<usize> = t[1..].iter().map(|x| x.parse().unwrap_or(0)).collect();
        cx.check(t[0] == "l" && ids.len() >= 2, || format!("unexpected line {:?}", l))?;
        cx.check(ids.iter().all(|&i| i >= 1 && i <= n), || format!("{:?} refers to a vertex that is not there ({} vertices)", l, n))?;
        cx.check(chain.last().map_or(true, |&x| x == ids[0]), || format!("{:?} does not go on from {:?}", l, chain.last()))?;
        chain.extend(&ids[if chain.is_empty() { 0 } else { 1 }..]);
    }
    let want: Vec<usize> = (1..=n).chain(if n > 0 { Some(1) } else { None }).collect();
    cx.check(chain == want || (n == 1 && chain.is_empty()), || format!("the lines run through {:?}", &chain[..chain.len().min(20)]))
}
pub fn c14() -> Prop {
    Prop {
        id: "C14",
        scenarios: vec![
            Scenario { name: "obj-model", run: obj_model },
            Scenario { name: "obj-mesh", run: obj_mesh },
            Scenario { name: "obj-values", run: obj_values },
            Scenario { name: "obj-big", run: obj_big },
            Scenario { name: "obj-surfaces", run: obj_surfaces },
            Scenario { name: "obj-many", run: obj_many },
            Scenario { name: "obj-bound", run: obj_bound },
        ],
        rule: "every sequence of faces from a 9-mesh alphabet (empty, vertices only, normals only, with and without normals, degenerate, unused vertices), every mesh with every pair of start indices, every triple of 26 coordinate values (extreme, subnormal, negative zero), face sequences beyond 65535 vertices, surface patches; every file written by the real code is parsed by an independent OBJ reader and compared line for line; non-trivial: distinct file contents",
        bounds_quick: "up to 4 faces, cyclic patterns of up to 300; 2 big faces; bounds of 0 to 70000 points",
        bounds_thorough: "up to 5 faces; 3 big faces",
        assumptions: vec!["a mesh has no normals or one per vertex", "triangle indices are in range"],
    }
}

// ------------------------------------------------------------------ STL
fn check_stl(cx: &mut Cx, b: &[u8], faces: &[TriangleMesh]) -> Res {
    let n: usize = faces.iter().map(|m| m.triangles.len() / 3).sum();
    cx.check(b.len() == 84 + 50 * n, || format!("{} bytes instead of {} for {} triangles", b.len(), 84 + 50 * n, n))?;
    cx.check(!b.starts_with(b"solid"), || "a binary STL file must not start with 'solid'".into())?;
    let u = |i: usize| u32::from_le_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]);
    cx.check(u(80) as usize == n, || format!("triangle count {} instead of {}", u(80), n))?;
    let mut at = 84;
    for (k, m) in faces.iter().enumerate() {
        for t in m.triangles.chunks(3) {
            let mut o = at + 12;
            for &i in t {
                let q = m.vertices[i as usize];
                for c in [q.x, q.y, q.z] {
                    let got = f32::from_bits(u(o));
                    let ok = got.to_bits() == (c as f32).to_bits();
                    cx.check(ok, || format!("face {} triangle {:?}: {} instead of {}", k, t, got, c as f32))?;
                    o += 4;
                }
            }
            let f = |i: usize| f32::from_bits(u(i)) as f64;
            let n = p(f(at), f(at + 4), f(at + 8));
            let q = |i: usize| p(f(at + 12 + 12 * i), f(at + 16 + 12 * i), f(at + 20 + 12 * i));
            let w = (q(1) - q(0)).cross(q(2) - q(0)).normalize();
            cx.check(n == Point3::ZERO || !w.is_finite() || (n - w).length() < 1e-3, || format!("face {} triangle {:?}: facet normal {} instead of {}", k, t, n, w))?;
            cx.check(b[o] == 0 && b[o + 1] == 0, || "attribute bytes".into())?;
            at += 50;
        }
    }
    Ok(())
}
fn stl(cx: &mut Cx, model: &Model<impl Face>, faces: &[TriangleMesh], name: &std::ffi::OsStr) -> Res {
    let path = dir().join(name);
    if let Err(e) = model.save_as_stl(&path) {
        return cx.fail(format!("save failed: {}", e));
    }
    let b = std::fs::read(&path).expect("MC: read back");
    cx.observe(&b[80..].to_vec());
    check_stl(cx, &b, faces)
}
fn stl_model(cx: &mut Cx) -> Res {
    let n = cx.num("faces", if cx.thorough() { 6 } else { 5 });
    let faces: Vec<TriangleMesh> = (0..n).map(|k| pool(cx.num("mesh", MESHES), k)).collect();
    let model = Model { faces, curves: vec![] };
    stl(cx, &model, &model.faces, "m.stl".as_ref())
}
fn stl_values(cx: &mut Cx) -> Res {
    let (a, b) = (cx.of("x", &VALUES), cx.of("y", &VALUES));
    let v: Vec<Point3> = VALUES.iter().map(|&c| p(a, b, c)).collect();
    let t = (0..v.len() as u32).flat_map(|i| [i, (i + 1) % 26, (i + 7) % 26]).collect();
    let model = Model { faces: vec![mesh(v, vec![], t)], curves: vec![] };
    stl(cx, &model, &model.faces, "v.stl".as_ref())
}
/// the header depends on the file name only: every length and multi-byte names
fn stl_names(cx: &mut Cx) -> Res {
    use std::os::unix::ffi::OsStringExt;
    let unit: &[u8] = cx.of("char", &[&b"a"[..], "ä".as_bytes(), "日".as_bytes(), "😀".as_bytes(), &b" "[..], &b"."[..], &b"\xff"[..], &b"\n"[..], "e\u{301}".as_bytes(), &b"{}"[..], &b"solid "[..]]);
    let n = 1 + cx.num("repeat-1", 250 / unit.len());
    let ext: &[u8] = cx.of("ext", &[&b".stl"[..], b"", b".a.b"]);
    let mut name = unit.repeat(n);
    name.extend_from_slice(ext);
    if name.len() > 255 || name == b"." || name == b".." {
        return cx.skip();
    }
    let name = std::ffi::OsString::from_vec(name);
    let model = Model { faces: vec![pool(3, 0)], curves: vec![] };
    let r = stl(cx, &model, &model.faces, &name);
    std::fs::remove_file(dir().join(&name)).expect("MC: remove");
    r
}
fn stl_big(cx: &mut Cx) -> Res {
    let faces = big_faces(cx);
    let model = Model { faces, curves: vec![] };
    stl(cx, &model, &model.faces, "b.stl".as_ref())
}
fn stl_surfaces(cx: &mut Cx) -> Res {
    let (model, faces) = surfaces(cx);
    stl(cx, &model, &faces, "s.stl".as_ref())
}
/// every number of triangles around the sizes at which buffers fill up
fn stl_counts(cx: &mut Cx) -> Res {
    let n = cx.num("triangles", if cx.thorough() { 2000 } else { 700 });
    let v: Vec<Point3> = (0..16).map(|i| p(i as f64, (i * i) as f64, -(i as f64))).collect();
    let t: Vec<u32> = (0..n as u32).flat_map(|i| [i % 16, (i / 3) % 16, (i * 7) % 16]).collect();
    let model = Model { faces: vec![mesh(v, vec![], t)], curves: vec![] };
    stl(cx, &model, &model.faces, "c.stl".as_ref())
}
fn stl_many(cx: &mut Cx) -> Res {
    let model = Model { faces: many_faces(cx), curves: vec![] };
    stl(cx, &model, &model.faces, "k.stl".as_ref())
}
pub fn c15() -> Prop {
    Prop {
        id: "C15",
        scenarios: vec![
            Scenario { name: "stl-model", run: stl_model },
            Scenario { name: "stl-values", run: stl_values },
            Scenario { name: "stl-names", run: stl_names },
            Scenario { name: "stl-big", run: stl_big },
            Scenario { name: "stl-surfaces", run: stl_surfaces },
            Scenario { name: "stl-counts", run: stl_counts },
            Scenario { name: "stl-many", run: stl_many },
        ],
        rule: "every sequence of faces from the 9-mesh alphabet, every triple of 26 coordinate values, every file name made of 1..250 repetitions of 11 characters (ASCII, multi-byte, invalid UTF-8, control) with 3 endings, every triangle count through two buffer sizes, faces beyond 65535 triangles; every file written is decoded by an independent reader and compared byte for byte; non-trivial: distinct file contents",
        bounds_quick: "up to 4 faces, cyclic patterns of up to 300, 2 big faces, 0..700 triangles",
        bounds_thorough: "up to 5 faces, 3 big faces, 0..2000 triangles",
        assumptions: vec!["the header text is not specified, a facet normal may be left zero", "triangle indices are in range"],
    }
}

// ------------------------------------------------------------------ points
fn bits(v: &[Point3]) -> Vec<[u64; 3]> {
    v.iter().map(|q| [q.x.to_bits(), q.y.to_bits(), q.z.to_bits()]).collect()
}
fn roundtrip(cx: &mut Cx, v: &[Point3]) -> Res {
    let path = dir().join("p.xyz");
    if let Err(e) = save_point_cloud(v, &path) {
        return cx.fail(format!("save failed: {}", e));
    }
    let text = read(&path);
    cx.observe(&text);
    cx.check(text.lines().count() == v.len(), || format!("{} lines for {} points", text.lines().count(), v.len()))?;
    match load_point_cloud(&path) {
        Err(e) => cx.fail(format!("load failed: {}", e)),
        Ok(w) => cx.check(bits(v) == bits(&w), || format!("{:?} became {:?}", &v[..v.len().min(5)], &w[..w.len().min(5)])),
    }
}
fn pt_values(cx: &mut Cx) -> Res {
    let (a, b) = (cx.of("x", &VALUES), cx.of("y", &VALUES));
    let v: Vec<Point3> = VALUES.iter().map(|&c| p(a, b, c)).collect();
    roundtrip(cx, &v)
}
fn pt_lists(cx: &mut Cx) -> Res {
    let n = cx.num("points", if cx.thorough() { 7 } else { 6 });
    let q = [p(0.0, 0.0, 0.0), p(1.0, 2.0, 3.0), p(-0.5, 1e-30, 1e30), p(1e6, -1e6, 0.125)];
    let v: Vec<Point3> = (0..n).map(|_| q[cx.num("point", 4)]).collect();
    roundtrip(cx, &v)
}
/// every exponent, with full mantissas
fn pt_exponents(cx: &mut Cx) -> Res {
    let e = cx.num("exponent", 2047) as u64;
    let m = cx.of("mantissa", &[0u64, 1, 0xfffffffffffff, 0x8000000000000, 0x5555555555555, 0x123456789abcd]);
    let x = f64::from_bits(e << 52 | m);
    let v = [p(x, -x, 1.0), p(-x, 0.5, x), p(3.0, x, -x)];
    roundtrip(cx, &v)
}
fn pt_big(cx: &mut Cx) -> Res {
    let n = cx.of("points", &[100usize, 70000, 1024, 8192]);
    let v: Vec<Point3> = (0..n).map(|i| p(i as f64 / 3.0, -(i as f64), 1.0 / (1.0 + i as f64))).collect();
    roundtrip(cx, &v)
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Line {
    /// three coordinates
    P,
    /// an index and three coordinates
    I,
    /// to be skipped
    Skip(&'static str),
    /// one of the numbers is malformed
    Bad(usize, &'static str),
    BadI(usize, &'static str),
}
const NUMBERS: [(&str, f64); 14] = [
    ("1", 1.0),
    ("-2.5", -2.5),
    ("+3", 3.0),
    ("1e3", 1000.0),
    ("1E-3", 0.001),
    ("0.1", 0.1),
    (".5", 0.5),
    ("7.", 7.0),
    ("-0", -0.0),
    ("1.5e+2", 150.0),
    ("000123", 123.0),
    ("12345678901234567890", 12345678901234567890.0),
    ("0.1000000000000000055511151231257827", 0.1),
    ("1e-320", 1e-320),
];
fn layout(cx: &mut Cx) -> Res {
    let kinds = [
        Line::P,
        Line::I,
        Line::Skip(""),
        Line::Skip("# a comment 1 2 3"),
        Line::Skip("#1 2 3"),
        Line::Skip("#"),
        Line::Skip("# x y z"),
        Line::Skip("  "),
        Line::Skip("\t,,"),
        Line::Skip("12"),
        Line::Skip("header"),
        Line::Skip("1 2"),
        Line::Skip("1 2 3 4 5"),
        Line::Skip("1 2 3 0 0 1"),
        Line::Bad(0, "abc"),
        Line::Bad(2, "1.2.3"),
        Line::BadI(1, "--1"),
    ];
    let n = cx.num("lines", if cx.thorough() { 5 } else { 4 });
    let seps = [" ", ",", "\t", ", ", "   ", " \t,"];
    let (lead, sep, tail) = (cx.of("lead", &["", " ", "\t"]), cx.of("sep", &seps), cx.of("tail", &["", " ", ","]));
    let (eol, last) = (cx.of("eol", &["\n", "\r\n"]), cx.flag("final-eol"));
    let mut text = String::new();
    let mut want = vec![];
    let mut bad = false;
    let mut num = 0;
    for i in 0..n {
        let k = if cx.thorough() { cx.of("line", &kinds) } else { cx.of("line", &kinds[..if n == 3 { 8 } else { 17 }]) };
        let mut line = String::new();
        if let Line::Skip(s) = k {
            line.push_str(s);
        } else {
            let mut c = [0.0; 3];
            line.push_str(lead);
            if let Line::I | Line::BadI(..) = k {
                line.push_str(&format!("{}{}", i + 1, sep));
            }
            for j in 0..3 {
                let (s, v) = NUMBERS[num % NUMBERS.len()];
                num += 1;
                c[j] = v;
                let s = match k {
                    Line::Bad(b, t) | Line::BadI(b, t) if b == j => {
                        bad = true;
                        t
                    }
                    _ => s,
                };
                line.push_str(s);
                line.push_str(if j < 2 { sep } else { tail });
            }
            want.push(p(c[0], c[1], c[2]));
        }
        text.push_str(&line);
        if i + 1 < n || last {
            text.push_str(eol);
        }
    }
    cx.say(format!("{:?}", text));
    load_text(cx, text.as_bytes(), if bad { None } else { Some(want) })
}
fn load_text(cx: &mut Cx, text: &[u8], want: Option<Vec<Point3>>) -> Res {
    let path = dir().join("l.xyz");
    std::fs::write(&path, text).expect("MC: write");
    let got = load_point_cloud(&path);
    cx.observe(&got.as_ref().map(|g| bits(g)).ok());
    match (got, want) {
        (Ok(g), Some(w)) => cx.check(bits(&g) == bits(&w), || format!("loaded {:?}, not {:?}", g, w)),
        (Err(_), None) => Ok(()),
        (Ok(g), None) => cx.fail(format!("malformed file loaded as {:?}", g)),
        (Err(e), Some(_)) => cx.fail(format!("well-formed file refused: {}", e)),
    }
}
fn numbers(cx: &mut Cx) -> Res {
    let all: Vec<(&str, Option<f64>)> = NUMBERS
        .iter()
        .map(|n| (n.0, Some(n.1)))
        .chain(["x", "1.2.3", "--1", "++1", "+-1", "3#", "1e", "0x10", "1_000", "+", "-", ".", "e5", "1.0f", "1;2", "٣", "\u{feff}1", "1\u{a0}"].map(|s| (s, None)))
        .collect();
    let n = all.len();
    let (a, b) = (cx.num("first", n), cx.num("second", n));
    let index = cx.flag("index");
    for c in &all {
        let t = [all[a], all[b], *c];
        let text = format!("{}{} {} {}\n", if index { "7 " } else { "" }, t[0].0, t[1].0, t[2].0);
        let want = match (t[0].1, t[1].1, t[2].1) {
            (Some(x), Some(y), Some(z)) => Some(vec![p(x, y, z)]),
            _ => None,
        };
        cx.say(format!("{:?}", text));
        load_text(cx, text.as_bytes(), want)?;
    }
    Ok(())
}
/// arbitrary bytes never panic
fn garbage(cx: &mut Cx) -> Res {
    let n = cx.num("bytes", if cx.thorough() { 7 } else { 6 });
    let b: Vec<u8> = (0..n).map(|_| cx.of("byte", b"1 #\n-\xff")).collect();
    let path = dir().join("g.xyz");
    std::fs::write(&path, &b).expect("MC: write");
    let r = load_point_cloud(&path);
    cx.observe(&r.map(|v| v.len()).ok());
    Ok(())
}
fn writers(cx: &mut Cx) -> Res {
    let (a, b) = (cx.of("x", &VALUES), cx.of("y", &VALUES));
    let n = cx.of("points", &[26usize, 0, 1]);
    let v: Vec<(Point3, Vec3)> = VALUES.iter().take(n).map(|&c| (p(a, c, b), p(c, b, a))).collect();
    let path = dir().join("w.xyz");
    if let Err(e) = save_point_cloud_with_normal(&v, &path) {
        return cx.fail(format!("save failed: {}", e));
    }
    let text = read(&path);
    let rows = |t: &str| -> Option<Vec<Vec<u64>>> {
        t.lines().map(|l| l.split([' ', ',', '\t']).filter(|s| !s.is_empty()).map(|s| s.parse::<f64>().ok().map(|x| x.to_bits())).collect()).collect()
    };
    let want: Vec<Vec<u64>> = v.iter().map(|(q, m)| [q.x, q.y, q.z, m.x, m.y, m.z].iter().map(|x| x.to_bits()).collect()).collect();
    cx.observe(&text);
    cx.check(rows(&text) == Some(want), || format!("points with normals {:?}", text))?;
    let v: Vec<Point2> = VALUES.iter().take(n).flat_map(|&c| [Point2::new(a, c), Point2::new(c, b)]).collect();
    if let Err(e) = save_points(&v, &path) {
        return cx.fail(format!("save failed: {}", e));
    }
    let text = read(&path);
    let want: Vec<Vec<u64>> = v.iter().map(|q| vec![q.x.to_bits(), q.y.to_bits()]).collect();
    cx.check(rows(&text) == Some(want), || format!("2D points {:?}", text))?;
    // scaling
    let v: Vec<Point3> = VALUES.iter().map(|&c| p(a, c, b)).collect();
    for s in [0.0, 1.0, -1.0, 0.5, 1000.0, 25.4, 0.001] {
        let w = scale_points(&v, s);
        let want: Vec<Point3> = v.iter().map(|q| p(q.x * s, q.y * s, q.z * s)).collect();
        cx.check(bits(&w) == bits(&want), || format!("scaled by {}: {:?}", s, w))?;
    }
    Ok(())
}
pub fn c17() -> Prop {
    Prop {
        id: "C17",
        scenarios: vec![
            Scenario { name: "values", run: pt_values },
            Scenario { name: "lists", run: pt_lists },
            Scenario { name: "exponents", run: pt_exponents },
            Scenario { name: "big", run: pt_big },
            Scenario { name: "layout", run: layout },
            Scenario { name: "numbers", run: numbers },
            Scenario { name: "garbage", run: garbage },
            Scenario { name: "writers", run: writers },
        ],
        rule: "round trips of every triple of 26 values, every binary exponent with 6 mantissas, every short list, large lists; loading of every sequence of line kinds (3 numbers, index and 3 numbers, 12 kinds to skip, malformed) with every separator, indentation, trailing separator and line ending, every triple of 32 good and bad number spellings, every short byte string; compared bit for bit with an independent reader; non-trivial: distinct contents",
        bounds_quick: "lists of 5 of 4 points, 3 lines, 5 bytes of 6",
        bounds_thorough: "lists of 6, 4 lines, 6 bytes",
        assumptions: vec!["coordinates are finite", "lines starting with # are comments"],
    }
}

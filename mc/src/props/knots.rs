//! C01 knot vectors, C02 B-spline basis.
use super::Prop;
use crate::core::*;
use crate::geo::*;
use geom3d::KnotVector;

/// Which end multiplicities the enumerated knot vectors have.
#[derive(Clone, Copy, PartialEq)]
pub enum Ends {
    Clamped,
    Any,
}

/// spacing laws: (start value, gaps cycle)
pub const SPACINGS: [(f64, [f64; 3]); 6] = [
    (0.0, [1.0, 0.5, 2.0]),
    (-1.5, [0.25, 3.0, 0.125]),
    (1048576.0, [1.0, 4.0, 0.5]),
    (0.0, [9.313225746154785e-10, 1.0, 9.313225746154785e-10]),
    (0.1, [0.1, 0.7, 0.3]),
    (-3.0e5, [1.0e5, 2.5e4, 1.0]),
];

/// every multiplicity pattern with up to `max_interior` interior knots
pub fn pick_knots(cx: &mut Cx, p: usize, max_interior: usize, ends: Ends, spacing: usize) -> Vec<f64> {
    let n = cx.num("interior", max_interior + 1);
    let (start, gaps) = SPACINGS[spacing];
    let first = if ends == Ends::Clamped { p + 1 } else { 1 + cx.num("m0-1", p + 1) };
    let mut v = Vec::new();
    let mut x = start;
    v.extend(std::iter::repeat(x).take(first));
    for i in 0..n {
        x += gaps[i % 3];
        let m = 1 + cx.num("m-1", p + 1);
        v.extend(std::iter::repeat(x).take(m));
    }
    x += gaps[n % 3];
    let last = if ends == Ends::Clamped { p + 1 } else { 1 + cx.num("m1-1", p + 1) };
    v.extend(std::iter::repeat(x).take(last));
    v
}

/// parameters deciding every half-open/closed question: knots, their neighbours, interiors
pub fn probe_params(t: &[f64], per_span: usize) -> Vec<f64> {
    let d = distinct(t);
    let mut us = Vec::new();
    for w in d.windows(2) {
        us.push(w[0]);
        us.push(up(w[0]));
        for j in 0..per_span {
            us.push(w[0] + (w[1] - w[0]) * (j as f64 + 0.5) / per_span as f64);
        }
        us.push(down(w[1]));
    }
    us.push(d[d.len() - 1]);
    us
}

// ------------------------------------------------------------------ C01
fn construct(cx: &mut Cx) -> Res {
    let k = 1 + cx.num("values-1", if cx.thorough() { 6 } else { 5 });
    let (start, gaps) = cx.of("spacing", &SPACINGS);
    let mut vals = Vec::new();
    let mut mult = Vec::new();
    let mut x = start;
    for i in 0..k {
        vals.push(x);
        mult.push(1 + cx.num("m-1", 4));
        x += gaps[i % 3];
    }
    expand(cx, vals, mult)
}
/// high multiplicities, none at all, and many values
fn construct_high(cx: &mut Cx) -> Res {
    let (start, gaps) = cx.of("spacing", &SPACINGS);
    let m: Vec<usize> = match cx.num("law", 4) {
        0 => (0..3).map(|_| cx.of("multiplicity", &[0usize, 1, 5, 6, 7, 8, 9, 10, 12, 16, 17, 33])).collect(),
        1 => (0..cx.of("values", &[10usize, 33, 70, 150])).map(|i| 1 + i % 3).collect(),
        2 => vec![cx.of("multiplicity", &[64usize, 100, 130, 260]), 1],
        _ => {
            let d = 5 + cx.num("degree-5", 12);
            vec![d + 1, 1, d, 2, d + 1]
        }
    };
    let mut x = start;
    let mut vals = Vec::new();
    for i in 0..m.len() {
        vals.push(x);
        x += gaps[i % 3];
    }
    expand(cx, vals, m)
}
fn expand(cx: &mut Cx, vals: Vec<f64>, mult: Vec<usize>) -> Res {
    let k = mult.iter().filter(|m| **m > 0).count();
    let total: usize = mult.iter().sum();
    if total < 2 {
        return cx.skip();
    }
    let t = KnotVector::from_values_and_multiplicities(vals.clone(), mult.clone());
    let mut want = Vec::new();
    for (v, m) in vals.iter().zip(&mult) {
        for _ in 0..*m {
            want.push(*v);
        }
    }
    cx.observe(&want.len());
    cx.check(t.0 == want, || format!("expanded to {:?}", t.0))?;
    cx.check(KnotVector::new(want.clone()) == t && KnotVector::from(want.clone()) == t, || "constructors differ".into())?;
    cx.check(want.iter().cloned().collect::<KnotVector>() == t, || "collect differs".into())?;
    cx.check((&t).into_iter().cloned().collect::<Vec<_>>() == want && t.as_ref() == &want[..], || "iteration differs".into())?;
    cx.check(t.range() == (want[0], want[want.len() - 1]), || format!("range {:?}", t.range()))?;
    // multiplicity of the i-th knot
    let mut i = 0;
    for m in &mult {
        for _ in 0..*m {
            let got = t.multiplicity(i);
            cx.check(got == *m, || format!("multiplicity({}) = {} in {:?}", i, got, t.0))?;
            i += 1;
        }
    }
    if total > 2 {
        let s = t.shrink();
        cx.check(s.0 == want[1..want.len() - 1], || format!("shrink gives {:?}", s.0))?;
    }
    for p in 0..total.min(6) {
        let s = t.spans(p);
        let w: Vec<f64> = (0..total - p).map(|i| want[i + p] - want[i]).collect();
        cx.check(s.len() == w.len() && s.iter().zip(&w).all(|(a, b)| near(*a, *b, 1e-12 * (1.0 + b.abs()))), || format!("spans({}) = {:?}", p, s))?;
    }
    let step = (total / 24).max(1);
    for a in (0..total).step_by(step) {
        for b in (a..total).step_by(step) {
            let s = t.sub_vec(a..=b);
            cx.check(s.0 == want[a..=b], || format!("sub_vec({}..={}) = {:?}", a, b, s.0))?;
        }
    }
    if k > 1 {
        let n = t.normalize();
        let len = want[total - 1] - want[0];
        cx.check(n.len() == total && n[0] == 0.0 && near(n[total - 1], 1.0, 1e-15), || format!("normalize gives {:?}", n.0))?;
        for i in 0..total {
            cx.check(near(n[i], (want[i] - want[0]) / len, 1e-12), || format!("normalize gives {:?}", n.0))?;
        }
    }
    Ok(())
}
fn standard(cx: &mut Cx) -> Res {
    let lim = if cx.thorough() { 200 } else { 64 };
    let p = cx.num("degree", 13);
    let b = KnotVector::bezier_knot(p);
    cx.check(
        b.len() == 2 * p + 2 && b[..p + 1].iter().all(|x| *x == 0.0) && b[p + 1..].iter().all(|x| *x == 1.0),
        || format!("bezier_knot({}) = {:?}", p, b.0),
    )?;
    let n = 1 + cx.num("division-1", lim);
    let u = KnotVector::uniform_knot(p, n);
    cx.observe(&(p, n));
    cx.check(u.len() == 2 * p + n + 1, || format!("uniform_knot({},{}) has {} knots", p, n, u.len()))?;
    for i in 0..=p {
        cx.check(u[i] == 0.0 && u[u.len() - 1 - i] == 1.0, || format!("uniform_knot({},{}) not clamped: {:?}", p, n, u.0))?;
    }
    for i in 1..n {
        cx.check(near(u[p + i], i as f64 / n as f64, 1e-14), || format!("uniform_knot({},{}) = {:?}", p, n, u.0))?;
    }
    Ok(())
}
fn lookup(cx: &mut Cx) -> Res {
    let p = cx.num("degree", 4);
    let k = cx.num("spacing", SPACINGS.len());
    let max = if cx.thorough() { 4 } else { 3 };
    let t = pick_knots(cx, p, max, Ends::Any, k);
    let kv = KnotVector(t.clone());
    let mut us = probe_params(&t, 3);
    us.push(down(t[0]));
    us.push(t[0] - 1.0);
    us.push(up(t[t.len() - 1]));
    us.push(t[t.len() - 1] + 2.0);
    us.push(-0.0);
    for u in us {
        let got = kv.span_index(u);
        let want = span_of(&t, u);
        cx.observe(&want);
        cx.check(got == want, || format!("span_index({:e}) = {} instead of {} in {:?}", u, got, want, t))?;
    }
    Ok(())
}
fn insert(cx: &mut Cx) -> Res {
    let k = cx.num("spacing", SPACINGS.len());
    let depth = if cx.thorough() { 3 } else { 2 };
    let mut t = pick_knots(cx, 2, 2, Ends::Any, k);
    for _ in 0..depth {
        let d = distinct(&t);
        let mut us = d.clone();
        us.extend(d.windows(2).map(|w| w[0] + (w[1] - w[0]) * 0.375));
        us.push(d[0] - 1.0);
        us.push(d[d.len() - 1] + 0.5);
        let i = cx.num("insert", us.len());
        let u = us[i];
        let mut kv = KnotVector(t.clone());
        let pos = kv.add_knot(u);
        let mut want = t.clone();
        want.push(u);
        want.sort_by(|a, b| a.partial_cmp(b).unwrap());
        cx.observe(&pos);
        cx.check(kv.0 == want, || format!("inserting {} into {:?} gives {:?}", u, t, kv.0))?;
        let last = want.iter().rposition(|x| *x == u).unwrap();
        cx.check(pos == last, || format!("inserting {} into {:?} reports position {}", u, t, pos))?;
        t = want;
    }
    Ok(())
}

pub fn c01() -> Prop {
    Prop {
        id: "C01",
        scenarios: vec![
            Scenario { name: "construct", run: construct },
            Scenario { name: "construct-high", run: construct_high },
            Scenario { name: "standard", run: standard },
            Scenario { name: "lookup", run: lookup },
            Scenario { name: "insert", run: insert },
        ],
        rule: "every multiplicity pattern over every spacing law (exact dyadic, decimal, 2^-30 gaps, large offsets, negative); queries at every knot, the floats adjacent to it, span interiors and outside the range; knot insertion explored as operation sequences; an execution is non-trivial when its observed answers (lengths, span indices, positions) differ from the others",
        bounds_quick: "<=5 distinct values x multiplicity 1..4; lookups: degree<=3, <=3 interior knots of multiplicity<=p+1, 6 spacings; insert sequences of depth 2; standard vectors degree<=12, <=64 divisions",
        bounds_thorough: "<=6 distinct values; lookups: <=4 interior knots; insert depth 3; <=200 divisions",
        assumptions: vec!["knots finite, sorted; at least two distinct values where a span is asked for"],
    }
}

// ------------------------------------------------------------------ C02
fn compare(cx: &mut Cx, t: &[f64], p: usize, us: &[f64]) -> Res {
    let kv = KnotVector(t.to_vec());
    let n = t.len() - 1 - p;
    for &u in us {
        let got = kv.bspline_basis(p, u);
        cx.check(got.len() == n, || format!("{} basis values for {} knots, degree {}", got.len(), t.len(), p))?;
        let s = span_of(t, u);
        let mut sum = 0.0;
        for i in 0..n {
            let want = cdb_piece(t, i, p, s, u);
            sum += got[i];
            cx.check(near(got[i], want, 1e-9), || {
                format!("basis({}, {:e}) of {:?} is {:?}: value {} should be {}", p, u, t, got, i, want)
            })?;
            cx.check(got[i] >= -1e-9, || format!("negative basis value {} at {} in {:?}", got[i], u, t))?;
            // local support [t_i, t_{i+p+1}]
            cx.check(got[i] == 0.0 || (t[i] <= u && u <= t[i + p + 1]), || format!("basis {} non-zero at {} outside its support in {:?}", i, u, t))?;
        }
        if u >= t[p] && u <= t[n] && s >= p && s < n {
            cx.check(near(sum, 1.0, 1e-9), || format!("basis values at {} sum to {} in {:?}", u, sum, t))?;
        }
    }
    Ok(())
}
fn basis_all(cx: &mut Cx) -> Res {
    let p = cx.num("degree", if cx.thorough() { 6 } else { 5 });
    let k = cx.num("spacing", SPACINGS.len());
    let max = match (cx.thorough(), p) {
        (false, 0..=2) => 3,
        (false, _) => 2,
        (true, 0..=2) => 4,
        (true, _) => 3,
    };
    let t = pick_knots(cx, p, max, Ends::Any, k);
    if t.len() < p + 2 {
        return cx.skip();
    }
    cx.observe(&(p, t.len(), t.iter().map(|x| x.to_bits()).collect::<Vec<_>>()));
    let us = probe_params(&t, p + 1);
    compare(cx, &t, p, &us)
}
fn basis_big(cx: &mut Cx) -> Res {
    let p = cx.num("degree", 10);
    let n = cx.of("spans", &[1usize, 2, 3, 5, 8, 17, 40, 100]);
    let law = cx.of("law", &["uniform", "geometric", "quadratic", "unclamped"]);
    let x = |i: usize| match law {
        "geometric" => 1.2f64.powi(i as i32),
        "quadratic" => (i * i) as f64 * 0.01,
        _ => i as f64 * 0.1,
    };
    let mut t = Vec::new();
    if law == "unclamped" {
        t.extend((0..n + 2 * p + 1).map(x));
    } else {
        t.extend(std::iter::repeat(x(0)).take(p));
        t.extend((0..=n).map(x));
        t.extend(std::iter::repeat(x(n)).take(p));
    }
    cx.observe(&(p, n, law));
    // only the functions that can be non-zero need the oracle; others must be 0
    let kv = KnotVector(t.clone());
    let m = t.len() - 1 - p;
    let sp = spans(&t);
    for (k, &s) in sp.iter().enumerate() {
        if n > 17 && k > 3 && k + 4 < sp.len() && k % 9 != 0 {
            continue;
        }
        for j in 0..3 {
            let u = [t[s], 0.5 * (t[s] + t[s + 1]), if s + 1 == t.len() - 1 || t[s + 1] == t[t.len() - 1] { t[s + 1] } else { down(t[s + 1]) }][j];
            let got = kv.bspline_basis(p, u);
            cx.check(got.len() == m, || format!("{} values, degree {}, {} knots", got.len(), p, t.len()))?;
            for i in 0..m {
                let want = if i + p >= s && i <= s { cdb_piece(&t, i, p, s, u) } else { 0.0 };
                cx.check(near(got[i], want, 1e-9), || format!("degree {} spans {} {}: value {} at {} is {} not {}", p, n, law, i, u, got[i], want))?;
            }
        }
    }
    Ok(())
}
pub fn c02() -> Prop {
    Prop {
        id: "C02",
        scenarios: vec![Scenario { name: "basis", run: basis_all }, Scenario { name: "basis-large", run: basis_big }],
        rule: "every end/interior multiplicity pattern x spacing law x degree; values compared with the Cox-de Boor recursion on p+1 interior points of every span (so equality of the polynomial pieces, hence for every parameter), at every knot and at the floats next to it; non-trivial: a distinct (degree, knot vector)",
        bounds_quick: "degree<=4, <=3 interior knots (2 for degree 3,4) of multiplicity<=p+1, end multiplicity 1..p+1, 6 spacings; structured vectors up to degree 9, 100 spans",
        bounds_thorough: "degree<=5, <=4 interior knots (3 for degree>=3)",
        assumptions: vec!["knots finite and sorted with at least one non-empty span", "comparison tolerance 1e-9"],
    }
}

mod alloc;
mod core;
mod geo;
mod io;
mod props;

use crate::core::*;
use std::collections::BTreeMap;
use std::io::Write as _;
use std::process::Command;
use std::sync::atomic::Ordering::*;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn verif_dir() -> std::path::PathBuf {
    std::env::var("VERIF_DIR").map(Into::into).unwrap_or_else(|_| "/verif".into())
}

fn tier_of(s: &str) -> Tier {
    if s == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}

fn scratch() -> std::path::PathBuf {
    for i in 0..10000 {
        let p = std::env::temp_dir().join(format!("geom3d-mc-{}-{}", std::process::id(), i));
        if std::fs::create_dir(&p).is_ok() {
            return p;
        }
    }
    panic!("no scratch directory")
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let usage = "mc check|worker|replay|one|list ...";
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in props::all() {
                println!("{} {}", p.id, p.scenarios.len());
            }
        }
        Some("describe") => {
            for p in props::all() {
                let sc: Vec<String> = p.scenarios.iter().map(|s| format!("`{}`", s.name)).collect();
                println!("{}\t{}\t{}\t{}\t{}\t{}", p.id, sc.join(", "), p.rule, p.bounds_quick, p.bounds_thorough, p.assumptions.join("; "));
            }
        }
        Some("check") => std::process::exit(check(&args[2], tier_of(args.get(3).map(|s| s.as_str()).unwrap_or("quick")))),
        Some("worker") => worker(&args[2], tier_of(&args[3]), &args[4]),
        // one <id> <tier> <scenario index> <choices,comma>: run one execution, exit 0 ok, 1 violated
        Some("one") => one(&args[2], tier_of(&args[3]), args[4].parse().unwrap(), &args[5]),
        Some("replay") => std::process::exit(replay(&args[2])),
        _ => {
            eprintln!("{}", usage);
            std::process::exit(2);
        }
    }
}

fn prop(id: &str) -> props::Prop {
    let mut p = props::all().into_iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {}", id);
        std::process::exit(2)
    });
    if let Ok(o) = std::env::var("MC_ONLY") {
        p.scenarios.retain(|s| s.name.contains(o.as_str()));
    }
    p
}

/// known findings of this property: (key)
fn known(id: &str) -> Vec<(String, String)> {
    let mut v = Vec::new();
    if let Ok(s) = std::fs::read_to_string(verif_dir().join("known_findings.txt")) {
        for l in s.lines() {
            let Some(r) = l.strip_prefix("known: property=") else { continue };
            let Some((pid, r)) = r.split_once(" key=[") else { continue };
            if pid != id {
                continue;
            }
            let Some((key, what)) = r.split_once("] ") else { continue };
            v.push((key.to_string(), what.to_string()));
        }
    }
    v
}

fn silence() {
    unsafe {
        let n = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR);
        libc::dup2(n, 1);
        if std::env::var("MC_STDERR").is_err() {
            libc::dup2(n, 2);
        }
    }
}

fn one(id: &str, tier: Tier, si: usize, choices: &str) {
    let p = prop(id);
    quiet_panics();
    let dir = std::env::current_dir().unwrap();
    map_slots(dir.join("one.slots").to_str().unwrap(), true);
    let c: Vec<u16> = choices.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
    silence();
    let work = dir.join("one.work");
    let _ = std::fs::create_dir(&work);
    std::env::set_current_dir(&work).unwrap();
    // run it on a guarded thread, exactly as the explorer does
    let sc = &p.scenarios[si];
    let slot = &slots().unwrap()[0];
    let result = std::sync::Mutex::new(None);
    std::thread::scope(|s| {
        let h = std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(s, || {
                slot.tid.store(unsafe { libc::pthread_self() } as u64, SeqCst);
                slot.exec.store(1, SeqCst);
                slot.stuck.store(0, SeqCst);
                slot.active.store(1, SeqCst);
                let (cx, r) = run_once(sc, c, tier);
                slot.active.store(0, SeqCst);
                *result.lock().unwrap() = Some((cx.trace(), r));
            })
            .unwrap();
        while !h.is_finished() {
            std::thread::sleep(std::time::Duration::from_millis(10));
            if slot.stuck.load(SeqCst) != 0 {
                std::process::exit(79);
            }
            let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
            unsafe { libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut ts) };
            if ts.tv_sec as f64 > CPU_LIMIT_S {
                std::process::exit(78);
            }
        }
    });
    let (trace, r) = result.into_inner().unwrap().unwrap();
    let mut out = String::new();
    let code = match &r {
        Ok(()) => 0,
        Err(f) => {
            out.push_str(&format!("VIOLATED {}\n", f.what));
            1
        }
    };
    out.push_str(&format!("trace: {}\n", trace));
    std::fs::write(dir.join("one.out"), out).unwrap();
    std::process::exit(code);
}

fn threads() -> usize {
    std::env::var("MC_THREADS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4))
        .clamp(1, NSLOTS)
}

/// child process: explore everything, write the result file
fn worker(id: &str, tier: Tier, out: &str) {
    let p = prop(id);
    quiet_panics();
    map_slots(&format!("{}.slots", out), true);
    silence();
    let kn: Vec<String> = known(id).into_iter().map(|k| k.0).collect();
    let scs: Vec<Scenario> = p.scenarios;
    let unknown = std::sync::atomic::AtomicUsize::new(0);
    let cap: usize = std::env::var("MC_MAXFAIL").ok().and_then(|s| s.parse().ok()).unwrap_or(40);
    let (st, found) = explore(&scs, tier, threads(), &|f| {
        !kn.iter().any(|k| *k == format!("{}|{}", f.scenario, f.fail.key)) && unknown.fetch_add(1, SeqCst) + 1 >= cap
    });
    let mut o = String::new();
    o.push_str(&format!(
        "stats {} {} {} {} {} {} {}\n",
        st.executions,
        st.states,
        st.transitions,
        st.checks,
        st.max_depth,
        st.outcomes.len(),
        st.skipped
    ));
    for (k, v) in &st.per {
        o.push_str(&format!("per\t{}\t{}\t{}\n", k, v.0, v.1));
    }
    for s in &st.samples {
        o.push_str(&format!("sample\t{}\n", s.replace('\n', " ")));
    }
    for f in &found {
        o.push_str(&format!(
            "found\t{}\t{}\t{}\t{}\n",
            f.scenario,
            f.choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","),
            f.fail.key.replace(['\n', '\t'], " "),
            f.fail.what.replace(['\n', '\t'], " ")
        ));
    }
    std::fs::write(out, o).unwrap();
    std::process::exit(0);
}

struct F {
    scenario: String,
    choices: String,
    key: String,
    what: String,
}

fn check(id: &str, tier: Tier) -> i32 {
    let t0 = std::time::Instant::now();
    let p = prop(id);
    let dir = scratch();
    let code = check_in(id, tier, &p, &dir, t0);
    let _ = std::fs::remove_dir_all(&dir);
    code
}

fn run_one(id: &str, tier: Tier, si: usize, choices: &str, dir: &std::path::Path) -> (Option<i32>, String) {
    let exe = std::env::current_exe().unwrap();
    let _ = std::fs::remove_file(dir.join("one.out"));
    let st = Command::new(exe)
        .args(["one", id, if tier == Tier::Quick { "quick" } else { "thorough" }, &si.to_string(), choices])
        .current_dir(dir)
        .stdin(std::process::Stdio::null())
        .status()
        .expect("spawn");
    (st.code(), std::fs::read_to_string(dir.join("one.out")).unwrap_or_default())
}

fn check_in(id: &str, tier: Tier, p: &props::Prop, dir: &std::path::Path, t0: std::time::Instant) -> i32 {
    let exe = std::env::current_exe().unwrap();
    let out = dir.join("result");
    let tn = if tier == Tier::Quick { "quick" } else { "thorough" };
    let work = dir.join("work");
    std::fs::create_dir(&work).unwrap();
    let st = Command::new(exe)
        .args(["worker", id, tn, out.to_str().unwrap()])
        .current_dir(&work)
        .stdin(std::process::Stdio::null())
        .status()
        .expect("spawn worker");
    let kn = known(id);
    let mut stats = [0u64; 7];
    let mut per = Vec::new();
    let mut samples = Vec::new();
    let mut found: Vec<F> = Vec::new();
    if st.code() == Some(0) {
        let s = std::fs::read_to_string(&out).expect("result");
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("stats ") {
                for (i, x) in r.split(' ').enumerate() {
                    stats[i] = x.parse().unwrap();
                }
            } else {
                let f: Vec<&str> = l.split('\t').collect();
                match f[0] {
                    "per" => per.push((f[1].to_string(), f[2].to_string(), f[3].to_string())),
                    "sample" => samples.push(f[1].to_string()),
                    "found" => found.push(F {
                        scenario: f[1].into(),
                        choices: f[2].into(),
                        key: f[3].into(),
                        what: f[4].into(),
                    }),
                    _ => {}
                }
            }
        }
    } else {
        // the code under test took the process down (or ran away): find which execution did
        map_slots(&format!("{}.slots", out.display()), false);
        let code = st.code();
        let mut cands = Vec::new();
        for s in slots().unwrap() {
            if s.active.load(SeqCst) == 1 {
                let n = (s.len.load(SeqCst) as usize).min(s.choices.len());
                let c: Vec<String> = (0..n).map(|i| s.choices[i].load(SeqCst).to_string()).collect();
                cands.push((s.stuck.load(SeqCst) != 0, s.scenario.load(SeqCst) as usize, c.join(",")));
            }
        }
        cands.sort_by(|a, b| b.0.cmp(&a.0).then(a.1.cmp(&b.1)).then(a.2.cmp(&b.2)));
        for (_, si, c) in cands {
            let (rc, txt) = run_one(id, tier, si, &c, dir);
            let why = match rc {
                Some(0) | Some(1) => continue,
                Some(70) => continue,
                Some(78) => format!("did not terminate within {} s of CPU time", CPU_LIMIT_S),
                Some(79) => "allocated without bound".to_string(),
                Some(n) => format!("ended the process with exit code {} {}", n, txt),
                None => "crashed the process (signal: abort or stack overflow)".to_string(),
            };
            found.push(F {
                scenario: p.scenarios[si].name.into(),
                key: format!("crash {}", c),
                choices: c,
                what: why,
            });
            break;
        }
        if found.is_empty() {
            println!("ENGINE-ERROR property={} worker ended with {:?}", id, code);
            return 2;
        }
    }
    // dedupe by (scenario, key), simplest first
    found.sort_by(|a, b| {
        a.choices
            .split(',')
            .count()
            .cmp(&b.choices.split(',').count())
            .then_with(|| a.scenario.cmp(&b.scenario))
            .then_with(|| a.choices.cmp(&b.choices))
    });
    let mut by: BTreeMap<String, F> = BTreeMap::new();
    let mut order = Vec::new();
    for f in found {
        let k = format!("{}|{}", f.scenario, f.key);
        if !by.contains_key(&k) {
            order.push(k.clone());
            by.insert(k, f);
        }
    }
    let mut violations = 0;
    let evdir = verif_dir().join("evidence");
    std::fs::create_dir_all(&evdir).ok();
    let mut known_hit = 0;
    for k in &order {
        let f = &by[k];
        if let Some((_, what)) = kn.iter().find(|(kk, _)| kk == k) {
            known_hit += 1;
            println!("KNOWN-FINDING: property={} [{}] {} ({})", id, k, what, f.what);
            continue;
        }
        violations += 1;
        if std::env::var("MC_DUMP").is_ok() { println!("DUMP {} :: {}", k, f.what); }
        if violations <= 10 {
            let path = evdir.join(format!("replay-{}-{}.txt", id, violations));
            let si = p.scenarios.iter().position(|s| s.name == f.scenario).unwrap_or(0);
            let mut w = std::fs::File::create(&path).unwrap();
            writeln!(w, "property: {}\nscenario: {}\nscenario_index: {}\ntier: {}\nchoices: {}", id, f.scenario, si, tn, f.choices).unwrap();
            writeln!(w, "key: {}\nviolation: {}", k, f.what).unwrap();
            writeln!(w, "# re-execute exactly this execution against /repo with: bash /verif/run.sh replay {}", path.display()).unwrap();
            println!("  {} :: {}", k, f.what);
            println!("VIOLATION property={} replay={}", id, path.display());
        }
    }
    if violations > 10 {
        println!("  ... and {} more violations", violations - 10);
    }
    // evidence
    samples.sort();
    samples.truncate(24);
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut cov = String::new();
    cov.push_str(&format!("\"states\": {}, \"transitions\": {}, ", stats[1], stats[2]));
    cov.push_str(&format!("\"traces_validated_against_impl\": {}, ", stats[0] - stats[6]));
    cov.push_str(&format!("\"evaluations\": {}, \"oracle_comparisons\": {}, ", stats[0], stats[3]));
    cov.push_str(&format!("\"distinct_nontrivial\": {}, \"outside_domain\": {}, \"max_choice_depth\": {}, ", stats[5], stats[6], stats[4]));
    cov.push_str(&format!("\"rule\": {}, ", js(p.rule)));
    cov.push_str(&format!("\"bounds\": {}, ", js(if tier == Tier::Quick { p.bounds_quick } else { p.bounds_thorough })));
    cov.push_str(&format!("\"exhaustive\": {}, ", st.code() == Some(0) && violations == 0));
    cov.push_str(&format!("\"known_findings_hit\": {}, ", known_hit));
    cov.push_str("\"scenarios\": {");
    cov.push_str(&per.iter().map(|(k, e, s)| format!("{}: {{\"executions\": {}, \"states\": {}}}", js(k), e, s)).collect::<Vec<_>>().join(", "));
    cov.push_str("}, \"samples\": [");
    cov.push_str(&samples.iter().map(|s| js(&s.chars().take(600).collect::<String>())).collect::<Vec<_>>().join(", "));
    cov.push(']');
    let ev = format!(
        "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"model_checking\", \"coverage\": {{{}}}, \"assumptions\": [{}], \"wall_s\": {:.2}, \"violations\": {}}}\n",
        js(id),
        js(tn),
        seed,
        cov,
        p.assumptions.iter().map(|a| js(a)).collect::<Vec<_>>().join(", "),
        t0.elapsed().as_secs_f64(),
        violations
    );
    std::fs::write(evdir.join(format!("{}.json", id)), ev).unwrap();
    println!(
        "{} {}: executions={} states={} transitions={} comparisons={} outcomes={} skipped={} depth={} violations={} known={} wall={:.1}s",
        id,
        tn,
        stats[0],
        stats[1],
        stats[2],
        stats[3],
        stats[5],
        stats[6],
        stats[4],
        violations,
        known_hit,
        t0.elapsed().as_secs_f64()
    );
    if violations > 0 {
        1
    } else {
        0
    }
}

fn replay(path: &str) -> i32 {
    let s = std::fs::read_to_string(path).expect("replay file");
    let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(&format!("{}: ", k))).unwrap_or("").to_string();
    let dir = scratch();
    let (rc, txt) = run_one(
        &get("property"),
        tier_of(&get("tier")),
        get("scenario_index").parse().unwrap(),
        &get("choices"),
        &dir,
    );
    let _ = std::fs::remove_dir_all(&dir);
    println!("{}", txt);
    println!("exit {:?}", rc);
    if rc == Some(0) {
        0
    } else {
        1
    }
}

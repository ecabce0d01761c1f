//! Stateless exhaustive explorer.
//!
//! A *scenario* is a closed driver around real geom3d code: a function of a `Cx` whose
//! every nondeterministic decision (operation, argument, input shape, random draw, I/O
//! answer) is taken by `Cx::pick`.  The explorer enumerates *every* sequence of picks,
//! depth first, running the real code once per complete sequence.  The nodes of the choice
//! tree are the states, its edges the transitions.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Condvar, Mutex};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// One violated execution.
#[derive(Clone, Debug)]
pub struct Fail {
    /// canonical identification of the failing input / history
    pub key: String,
    pub what: String,
}
pub type Res = Result<(), Fail>;

pub struct Cx {
    prefix: Vec<u16>,
    trail: Vec<(u16, u16)>,
    desc: Vec<String>,
    pub tier: Tier,
    obs: Fnv,
    observed: bool,
    skipped: bool,
    /// extra counters a scenario wants in the evidence
    pub extra_states: u64,
    pub extra_transitions: u64,
    pub checks: u64,
}

#[derive(Clone, Copy)]
pub struct Fnv(u64);
impl Default for Fnv {
    fn default() -> Self {
        Fnv(0xcbf29ce484222325)
    }
}
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.0 = (self.0 ^ x as u64).wrapping_mul(0x100000001b3);
        }
    }
}

impl Cx {
    pub fn new(prefix: Vec<u16>, tier: Tier) -> Cx {
        Cx {
            prefix,
            trail: Vec::new(),
            desc: Vec::new(),
            tier,
            obs: Fnv::default(),
            observed: false,
            skipped: false,
            extra_states: 0,
            extra_transitions: 0,
            checks: 0,
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// The explorer decides: a number below `n`.
    pub fn pick(&mut self, n: usize) -> usize {
        assert!(n > 0 && n < 65535, "MC: bad alphabet size {}", n);
        let i = self.trail.len();
        let c = if i < self.prefix.len() { self.prefix[i] } else { 0 };
        assert!((c as usize) < n, "MC: replay diverged (choice {} of {} at {})", c, n, i);
        self.trail.push((c, n as u16));
        publish_trail(&self.trail);
        c as usize
    }
    /// pick an element of a finite alphabet and describe it in the trace
    pub fn of<T: Clone + std::fmt::Debug>(&mut self, label: &str, xs: &[T]) -> T {
        let x = xs[self.pick(xs.len())].clone();
        self.desc.push(format!("{}={:?}", label, x));
        x
    }
    pub fn num(&mut self, label: &str, n: usize) -> usize {
        let x = self.pick(n);
        self.desc.push(format!("{}={}", label, x));
        x
    }
    pub fn flag(&mut self, label: &str) -> bool {
        self.num(label, 2) == 1
    }
    pub fn say(&mut self, s: String) {
        self.desc.push(s);
    }
    pub fn trace(&self) -> String {
        self.desc.join("; ")
    }
    pub fn observe<H: Hash>(&mut self, h: &H) {
        h.hash(&mut self.obs);
        self.observed = true;
    }
    /// observation of floats up to ~1e-9 relative noise
    pub fn observe_f(&mut self, x: f64) {
        let y = (x * 1e6).round() as i64;
        self.observe(&y);
    }
    /// the picked combination is outside the property's domain
    pub fn skip(&mut self) -> Res {
        self.skipped = true;
        Ok(())
    }
    pub fn fail<T>(&self, what: String) -> Result<T, Fail> {
        Err(Fail { key: self.trace(), what })
    }
    pub fn fail_key<T>(&self, key: String, what: String) -> Result<T, Fail> {
        Err(Fail { key, what })
    }
    pub fn check(&mut self, ok: bool, what: impl FnOnce() -> String) -> Res {
        self.checks += 1;
        if ok {
            Ok(())
        } else {
            self.fail(what())
        }
    }
    pub fn choices(&self) -> Vec<u16> {
        self.trail.iter().map(|t| t.0).collect()
    }
    pub fn path(&self) -> &[(u16, u16)] {
        &self.trail
    }
}

pub struct Scenario {
    pub name: &'static str,
    pub run: fn(&mut Cx) -> Res,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub executions: u64,
    pub skipped: u64,
    pub states: u64,
    pub transitions: u64,
    pub checks: u64,
    pub max_depth: u64,
    pub outcomes: HashSet<u64>,
    pub samples: Vec<String>,
    pub per: BTreeMap<String, (u64, u64, u64)>,
}

pub struct Found {
    pub scenario: String,
    pub choices: Vec<u16>,
    pub fail: Fail,
}

// ---------------------------------------------------------------- guard rails
/// shared-memory slot of one explorer thread: what it is executing right now
#[repr(C)]
pub struct Slot {
    pub active: AtomicU64,
    pub scenario: AtomicU64,
    pub exec: AtomicU64,
    pub len: AtomicU64,
    pub stuck: AtomicU64,
    pub tid: AtomicU64,
    pub choices: [AtomicU64; 2048],
}
pub const NSLOTS: usize = 64;
static SLOTS: AtomicUsize = AtomicUsize::new(0);
thread_local! {
    static MYSLOT: Cell<usize> = const { Cell::new(0) };
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn slots() -> Option<&'static [Slot]> {
    let p = SLOTS.load(SeqCst);
    if p == 0 {
        return None;
    }
    Some(unsafe { std::slice::from_raw_parts(p as *const Slot, NSLOTS) })
}
pub fn map_slots(path: &str, create: bool) {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new()
        .read(true)
        .write(true)
        .create(create)
        .truncate(false)
        .open(path)
        .expect("MC: slot file");
    let len = NSLOTS * std::mem::size_of::<Slot>();
    f.set_len(len as u64).expect("MC: slot size");
    let p = unsafe {
        libc::mmap(
            std::ptr::null_mut(),
            len,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            f.as_raw_fd(),
            0,
        )
    };
    assert!(p != libc::MAP_FAILED);
    SLOTS.store(p as usize, SeqCst);
}
fn publish_trail(t: &[(u16, u16)]) {
    let s = MYSLOT.with(|s| s.get());
    if s != 0 {
        let slot = unsafe { &*(s as *const Slot) };
        let i = t.len() - 1;
        if i < slot.choices.len() {
            slot.choices[i].store(t[i].0 as u64, Relaxed);
            slot.len.store(t.len() as u64, Relaxed);
        }
    }
}

/// run `f`, turning a panic of the code under test into a message
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let m = PANIC.with(|p| p.borrow().clone());
            if m.contains("MC:") {
                eprintln!("{}", m);
                std::process::exit(70);
            }
            Err(m)
        }
    }
}
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let m = format!("{}", info).replace('\n', " ");
        PANIC.with(|p| *p.borrow_mut() = m);
    }));
}

pub fn run_once(sc: &Scenario, choices: Vec<u16>, tier: Tier) -> (Cx, Res) {
    let mut cx = Cx::new(choices, tier);
    crate::alloc::reset();
    rand::mc::install(None);
    let r = guarded(|| (sc.run)(&mut cx));
    rand::mc::install(None);
    crate::io::script_off();
    let r = match r {
        Ok(r) => r,
        Err(p) => Err(Fail { key: cx.trace(), what: format!("panicked: {}", p) }),
    };
    (cx, r)
}

struct Pool {
    q: Mutex<VecDeque<(usize, Vec<u16>)>>,
    cv: Condvar,
    busy: AtomicUsize,
    hungry: AtomicUsize,
    stop: AtomicBool,
}

pub const CPU_LIMIT_S: f64 = 20.0;
pub const MAX_FAILS: usize = 20000;

pub fn explore(scs: &[Scenario], tier: Tier, threads: usize, stop_at: &(dyn Fn(&Found) -> bool + Sync)) -> (Stats, Vec<Found>) {
    let pool = Pool {
        q: Mutex::new(scs.iter().enumerate().map(|(i, _)| (i, vec![])).collect()),
        cv: Condvar::new(),
        busy: AtomicUsize::new(0),
        hungry: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
    };
    let total = Mutex::new((Stats::default(), Vec::<Found>::new()));
    let done = AtomicBool::new(false);
    std::thread::scope(|s| {
        let mut hs = Vec::new();
        for t in 0..threads {
            let pool = &pool;
            let total = &total;
            hs.push(
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || worker(t, scs, tier, pool, total, stop_at))
                    .unwrap(),
            );
        }
        s.spawn(|| watchdog(&done));
        for h in hs {
            h.join().unwrap();
        }
        done.store(true, SeqCst);
    });
    total.into_inner().unwrap()
}

fn watchdog(done: &AtomicBool) {
    let Some(slots) = slots() else { return };
    let mut seen: Vec<(u64, f64)> = vec![(0, 0.0); slots.len()];
    while !done.load(SeqCst) {
        std::thread::sleep(std::time::Duration::from_millis(200));
        for (i, s) in slots.iter().enumerate() {
            if s.active.load(SeqCst) == 0 {
                continue;
            }
            if s.stuck.load(SeqCst) != 0 {
                std::process::exit(79);
            }
            let e = s.exec.load(SeqCst);
            let mut clk: libc::clockid_t = 0;
            let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
            unsafe {
                if libc::pthread_getcpuclockid(s.tid.load(SeqCst) as libc::pthread_t, &mut clk) != 0 {
                    continue;
                }
                libc::clock_gettime(clk, &mut ts);
            }
            let now = ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9;
            if seen[i].0 != e {
                seen[i] = (e, now);
            } else if now - seen[i].1 > CPU_LIMIT_S {
                s.stuck.store(1, SeqCst);
                std::process::exit(78);
            }
        }
    }
}

fn worker(
    t: usize,
    scs: &[Scenario],
    tier: Tier,
    pool: &Pool,
    total: &Mutex<(Stats, Vec<Found>)>,
    stop_at: &(dyn Fn(&Found) -> bool + Sync),
) {
    let slot = slots().map(|s| &s[t]);
    if let Some(s) = slot {
        s.tid.store(unsafe { libc::pthread_self() } as u64, SeqCst);
        MYSLOT.with(|m| m.set(s as *const Slot as usize));
    }
    let mut st = Stats::default();
    let mut fails = Vec::new();
    loop {
        let task = {
            let mut q = pool.q.lock().unwrap();
            loop {
                if pool.stop.load(SeqCst) {
                    break None;
                }
                if let Some(x) = q.pop_front() {
                    pool.busy.fetch_add(1, SeqCst);
                    break Some(x);
                }
                if pool.busy.load(SeqCst) == 0 {
                    pool.cv.notify_all();
                    break None;
                }
                pool.hungry.fetch_add(1, SeqCst);
                q = pool.cv.wait_timeout(q, std::time::Duration::from_millis(2)).unwrap().0;
                pool.hungry.fetch_sub(1, SeqCst);
            }
        };
        let Some((si, prefix)) = task else { break };
        let sc = &scs[si];
        let mut floor = prefix.len();
        let mut next = prefix;
        let mut fresh_from = if floor == 0 { 0 } else { floor - 1 };
        let per = st.per.entry(sc.name.to_string()).or_default();
        let mut first = true;
        loop {
            if pool.stop.load(SeqCst) {
                break;
            }
            if let Some(s) = slot {
                s.scenario.store(si as u64, SeqCst);
                s.len.store(0, SeqCst);
                s.exec.fetch_add(1, SeqCst);
                s.active.store(1, SeqCst);
            }
            let want = next.len();
            let (cx, r) = run_once(sc, std::mem::take(&mut next), tier);
            if let Some(s) = slot {
                s.active.store(0, SeqCst);
            }
            if cx.trail.len() < want && r.is_ok() {
                eprintln!("MC: execution shorter than its prefix in {}", sc.name);
                std::process::exit(70);
            }
            st.executions += 1;
            per.0 += 1;
            if cx.skipped {
                st.skipped += 1;
            }
            st.checks += cx.checks;
            let new = (cx.trail.len() - fresh_from.min(cx.trail.len())) as u64 + (first && floor == 0) as u64;
            first = false;
            st.states += new + cx.extra_states;
            per.1 += new + cx.extra_states;
            st.transitions += (cx.trail.len() - fresh_from.min(cx.trail.len())) as u64 + cx.extra_transitions;
            st.max_depth = st.max_depth.max(cx.trail.len() as u64);
            if cx.observed {
                let mut h = cx.obs;
                si.hash(&mut h);
                st.outcomes.insert(h.finish());
            }
            if per.2 < 2 && !cx.skipped && (per.2 == 0 || st.executions % 97 == 0) {
                per.2 += 1;
                st.samples.push(format!("[{}] {}", sc.name, cx.trace()));
            }
            if let Err(fail) = r {
                let f = Found { scenario: sc.name.to_string(), choices: cx.choices(), fail };
                if stop_at(&f) {
                    pool.stop.store(true, SeqCst);
                }
                fails.push(f);
                if fails.len() > MAX_FAILS {
                    pool.stop.store(true, SeqCst);
                }
            }
            // split work if someone is idle
            let tr = &cx.trail;
            if pool.hungry.load(Relaxed) > 0 {
                if let Some(i) = (floor..tr.len()).find(|&i| tr[i].0 + 1 < tr[i].1) {
                    let mut q = pool.q.lock().unwrap();
                    for alt in tr[i].0 + 1..tr[i].1 {
                        let mut p: Vec<u16> = tr[..i].iter().map(|x| x.0).collect();
                        p.push(alt);
                        q.push_back((si, p));
                    }
                    floor = i + 1;
                    pool.cv.notify_all();
                }
            }
            match (floor..tr.len()).rev().find(|&i| tr[i].0 + 1 < tr[i].1) {
                None => break,
                Some(i) => {
                    next = tr[..i].iter().map(|x| x.0).collect();
                    next.push(tr[i].0 + 1);
                    fresh_from = i;
                }
            }
        }
        pool.busy.fetch_sub(1, SeqCst);
        pool.cv.notify_all();
    }
    let mut g = total.lock().unwrap();
    let g = &mut *g;
    g.0.executions += st.executions;
    g.0.skipped += st.skipped;
    g.0.states += st.states;
    g.0.transitions += st.transitions;
    g.0.checks += st.checks;
    g.0.max_depth = g.0.max_depth.max(st.max_depth);
    g.0.outcomes.extend(st.outcomes);
    g.0.samples.extend(st.samples);
    for (k, v) in st.per {
        let e = g.0.per.entry(k).or_default();
        e.0 += v.0;
        e.1 += v.1;
    }
    g.1.extend(fails);
}

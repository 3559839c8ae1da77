//! Infrastructure shared by every check: deterministic hash seeds, a deterministic parallel
//! loop, watchdog (time and memory), violation/evidence reporting.
use serde_json::{json, Map, Value};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::Instant;

pub const WORKERS: usize = 8;

// ---------------------------------------------------------------- hash seeds
// std's RandomState asks the OS for a per-thread key. Defining `getrandom` here puts that
// source of nondeterminism under the harness' control: every thread gets the seed the harness
// chose for it before its first HashMap is created.
thread_local! { static SEED: Cell<u64> = const { Cell::new(0x5eed) }; static SEED_USED: Cell<u64> = const { Cell::new(0) }; }
static SEED_CALLS: AtomicU64 = AtomicU64::new(0);

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    SEED_CALLS.fetch_add(1, Relaxed);
    SEED_USED.with(|u| u.set(u.get() + 1));
    let mut s = SEED.with(|s| s.get());
    for i in 0..len {
        *buf.add(i) = (splitmix(&mut s) & 0xff) as u8;
    }
    len as isize
}

pub fn seed_calls() -> u64 {
    SEED_CALLS.load(Relaxed)
}

/// Runs `f` on a fresh thread whose HashMaps are keyed from `seed`.
pub fn with_hash_seed<R: Send>(seed: u64, f: impl FnOnce() -> R + Send) -> R {
    let slot = SLOT.with(|s| s.borrow().clone());
    std::thread::scope(|s| {
        s.spawn(move || {
            SEED.with(|c| c.set(seed));
            SLOT.with(|x| *x.borrow_mut() = slot);
            f()
        })
        .join()
        .unwrap_or_else(|e| std::panic::resume_unwind(e))
    })
}

// ---------------------------------------------------------------- memory guard
pub struct Guarded;
thread_local! { static NET: Cell<isize> = const { Cell::new(0) }; static LIMIT: Cell<isize> = const { Cell::new(isize::MAX) }; }
const CASE_MEM_LIMIT: isize = 1500 << 20;

unsafe impl GlobalAlloc for Guarded {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        account(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = NET.try_with(|n| n.set(n.get() - l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        account(new as isize - l.size() as isize);
        System.realloc(p, l, new)
    }
}
fn account(d: isize) {
    let over = NET
        .try_with(|n| {
            n.set(n.get() + d);
            LIMIT.try_with(|l| if n.get() > l.get() { l.set(isize::MAX); true } else { false }).unwrap_or(false)
        })
        .unwrap_or(false);
    if over {
        runaway("memory: more than 1500 MiB allocated by one small case");
    }
}

// ---------------------------------------------------------------- watchdog
#[derive(Default)]
pub struct Slot {
    started_ms: AtomicU64, // 0 = idle
    what: Mutex<(Value, String)>,
}
thread_local! { static SLOT: RefCell<Option<Arc<Slot>>> = const { RefCell::new(None) }; }
static SLOTS: Mutex<Vec<Arc<Slot>>> = Mutex::new(Vec::new());
static T0: Mutex<Option<Instant>> = Mutex::new(None);
pub const CASE_TIME_LIMIT_MS: u64 = 60_000;

fn now_ms() -> u64 {
    T0.lock().unwrap().unwrap().elapsed().as_millis() as u64 + 1
}

/// Names the group of cases (grammar, pattern set) the current thread works on.
pub fn set_group(desc: impl FnOnce() -> Value) {
    SLOT.with(|s| {
        if let Some(s) = &*s.borrow() {
            let v = desc();
            let mut g = s.what.lock().unwrap();
            g.0 = v;
            g.1.clear();
        }
    });
}
/// Names the input within the group; cheap.
pub fn set_input(d: &str) {
    SLOT.with(|s| {
        if let Some(s) = &*s.borrow() {
            let mut g = s.what.lock().unwrap();
            g.1.clear();
            g.1.push_str(d);
        }
    });
}

/// Runs code under test: panics become `Err`, runaway time or memory becomes a violation.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let slot = SLOT.with(|s| s.borrow().clone());
    if let Some(s) = &slot {
        s.started_ms.store(now_ms_fast(), Relaxed);
    }
    let base = NET.with(|n| n.get());
    LIMIT.with(|l| l.set(base.saturating_add(CASE_MEM_LIMIT)));
    let r = catch_unwind(AssertUnwindSafe(f));
    LIMIT.with(|l| l.set(isize::MAX));
    if let Some(s) = &slot {
        s.started_ms.store(0, Relaxed);
    }
    r.map_err(|e| {
        let m = LAST_PANIC.with(|p| p.borrow_mut().take());
        m.unwrap_or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| e.downcast_ref::<String>().cloned()).unwrap_or_else(|| "panic".into()))
    })
}
static CLOCK_MS: AtomicU64 = AtomicU64::new(1);
fn now_ms_fast() -> u64 {
    CLOCK_MS.load(Relaxed)
}
thread_local! { static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) }; }

static CURRENT: Mutex<Option<(String, String)>> = Mutex::new(None); // (property, tier)

fn runaway(why: &str) -> ! {
    let (group, input) = SLOT.with(|s| s.borrow().as_ref().map(|s| { let g = s.what.lock().unwrap(); (g.0.clone(), g.1.clone()) }).unwrap_or((Value::Null, String::new())));
    let cur = CURRENT.lock().unwrap().clone();
    finish_violation(cur, &format!("the code under test did not finish ({why})"), json!({"group": group, "input": input}));
}
fn finish_violation(cur: Option<(String, String)>, why: &str, case: Value) -> ! {
    let (prop, tier) = cur.unwrap_or(("?".into(), "quick".into()));
    let v = Violation { order: 0, why: why.to_string(), case };
    let path = write_replay(&prop, &v);
    let ev = json!({"property": prop, "tier": tier, "seed": env_seed(), "level": "model_checking",
        "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [v.case], "note": "run stopped by the watchdog"},
        "wall_s": now_ms() as f64 / 1000.0, "violations": 1});
    let _ = std::fs::write(evidence_path(&prop), serde_json::to_string_pretty(&ev).unwrap());
    println!("{}: {}", prop, v.why);
    println!("VIOLATION property={} replay={}", prop, path);
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(1);
}

pub fn init(prop: &str, tier: &str) {
    *T0.lock().unwrap() = Some(Instant::now());
    *CURRENT.lock().unwrap() = Some((prop.into(), tier.into()));
    std::panic::set_hook(Box::new(|info| {
        let m = format!("{info}");
        if std::thread::current().name() == Some("main") {
            eprintln!("{m}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(m));
    }));
    std::thread::Builder::new()
        .name("watchdog".into())
        .spawn(|| loop {
            std::thread::sleep(std::time::Duration::from_millis(50));
            let now = now_ms();
            CLOCK_MS.store(now, Relaxed);
            let slots = SLOTS.lock().unwrap().clone();
            for s in slots {
                let st = s.started_ms.load(Relaxed);
                if st != 0 && now > st + CASE_TIME_LIMIT_MS {
                    let g = s.what.lock().unwrap();
                    let (group, input) = (g.0.clone(), g.1.clone());
                    drop(g);
                    let cur = CURRENT.lock().unwrap().clone();
                    finish_violation(cur, "the code under test did not finish (one small case ran for more than 60 s)", json!({"group": group, "input": input}));
                }
            }
        })
        .unwrap();
}

// ---------------------------------------------------------------- results
#[derive(Clone, Debug)]
pub struct Violation {
    pub order: usize,
    pub why: String,
    pub case: Value,
}

#[derive(Default)]
pub struct Stats {
    pub n: BTreeMap<&'static str, u64>,
    pub samples: Vec<Value>,
    pub known: BTreeMap<String, u64>,
}
impl Stats {
    pub fn add(&mut self, k: &'static str, v: u64) {
        *self.n.entry(k).or_insert(0) += v;
    }
    pub fn max(&mut self, k: &'static str, v: u64) {
        let e = self.n.entry(k).or_insert(0);
        *e = (*e).max(v);
    }
    pub fn get(&self, k: &str) -> u64 {
        self.n.get(k).copied().unwrap_or(0)
    }
    pub fn merge(&mut self, o: Stats) {
        for (k, v) in o.n {
            if k.starts_with("max_") {
                self.max(k, v)
            } else {
                self.add(k, v)
            }
        }
        for (k, v) in o.known {
            *self.known.entry(k).or_insert(0) += v;
        }
        self.samples.extend(o.samples);
    }
    pub fn sample(&mut self, every: u64, key: &'static str, f: impl FnOnce() -> Value) {
        let c = self.get(key);
        if self.samples.len() < 4 && c % every == 0 {
            self.samples.push(f());
        }
    }
}

pub struct Run {
    pub prop: String,
    pub tier: String,
    pub stats: Stats,
    pub violation: Option<Violation>,
    pub bounds: Map<String, Value>,
    pub t0: Instant,
    pub base: usize,
}
pub type R = Result<(), Violation>;
pub fn bad<T>(why: impl Into<String>, case: Value) -> Result<T, Violation> {
    Err(Violation { order: 0, why: why.into(), case })
}

impl Run {
    pub fn new(prop: &str, tier: &str) -> Self {
        Run { prop: prop.into(), tier: tier.into(), stats: Stats::default(), violation: None, bounds: Map::new(), t0: Instant::now(), base: 0 }
    }
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    pub fn bound(&mut self, k: &str, v: impl Into<Value>) {
        self.bounds.insert(k.into(), v.into());
    }
    /// Calls `f` on 0..n. Item i always runs on worker i % WORKERS, in order, and worker w's hash
    /// seed is fixed, so a run is reproducible. Skipped once a violation was found.
    pub fn par(&mut self, what: &str, n: usize, f: impl Fn(usize, &mut Stats) -> R + Sync) {
        if self.violation.is_some() {
            return;
        }
        let t = Instant::now();
        let stop = AtomicUsize::new(usize::MAX);
        let found: Mutex<Vec<Violation>> = Mutex::new(Vec::new());
        let all: Mutex<Stats> = Mutex::new(Stats::default());
        std::thread::scope(|s| {
            for w in 0..WORKERS {
                let (stop, found, all, f) = (&stop, &found, &all, &f);
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(s, move || {
                        SEED.with(|c| c.set(env_seed().wrapping_mul(1000) + w as u64));
                        let slot = Arc::new(Slot::default());
                        SLOTS.lock().unwrap().push(slot.clone());
                        SLOT.with(|x| *x.borrow_mut() = Some(slot));
                        let mut st = Stats::default();
                        let mut i = w;
                        while i < n && i <= stop.load(Relaxed) {
                            let r = catch_unwind(AssertUnwindSafe(|| f(i, &mut st)));
                            let r = match r {
                                Ok(r) => r,
                                Err(_) => {
                                    let m = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
                                    eprintln!("HARNESS PANIC in item {i}: {m}");
                                    HARNESS_PANIC.store(true, SeqCst);
                                    stop.fetch_min(0, SeqCst);
                                    break;
                                }
                            };
                            if let Err(mut v) = r {
                                v.order = i;
                                found.lock().unwrap().push(v);
                                stop.fetch_min(i, SeqCst);
                                break;
                            }
                            i += WORKERS;
                        }
                        all.lock().unwrap().merge(st);
                    })
                    .unwrap();
            }
        });
        if HARNESS_PANIC.load(SeqCst) {
            std::process::exit(3);
        }
        self.stats.merge(all.into_inner().unwrap());
        let mut f = found.into_inner().unwrap();
        f.sort_by_key(|v| v.order);
        if let Some(v) = f.into_iter().next() {
            self.violation = Some(v);
        }
        eprintln!("[{}] {what}: {n} items in {:.1}s", self.prop, t.elapsed().as_secs_f64());
        let e = self.stats.n.entry("work_items").or_insert(0);
        *e += n as u64;
    }
    pub fn finish(mut self, level: &str) -> ! {
        let known = load_known(&self.prop);
        let mut unlisted = None;
        for (k, c) in &self.stats.known {
            match known.iter().find(|e| e["key"] == json!(k)) {
                Some(e) => println!("KNOWN-FINDING: property={} {} ({} cases)", self.prop, e["what"].as_str().unwrap_or(k), c),
                None => unlisted = Some(k.clone()),
            }
        }
        if self.violation.is_none() {
            if let Some(k) = unlisted {
                self.violation = Some(Violation { order: 0, why: format!("unlisted deviation class {k}"), case: json!({"key": k}) });
            }
        }
        let st = &self.stats;
        let mut cov = Map::new();
        for (k, v) in &st.n {
            cov.insert(k.to_string(), json!(v));
        }
        for k in ["states", "transitions", "traces_validated_against_impl"] {
            cov.entry(k).or_insert(json!(0));
        }
        let mut samples: Vec<Value> = st.samples.iter().take(6).cloned().collect();
        if samples.is_empty() {
            samples.push(json!("none recorded"));
        }
        cov.insert("samples".into(), json!(samples));
        cov.insert("bounds".into(), Value::Object(self.bounds.clone()));
        cov.insert("exhaustive".into(), json!(self.violation.is_none()));
        cov.insert("known_findings_hit".into(), json!(st.known));
        let ev = json!({"property": self.prop, "tier": self.tier, "seed": env_seed(), "level": level, "coverage": cov,
            "assumptions": ["bounds as listed under coverage.bounds; reference models in /verif/harness are trusted, cross-checked by their own self-tests on every run"],
            "wall_s": self.t0.elapsed().as_secs_f64(), "violations": if self.violation.is_some() { 1 } else { 0 }});
        std::fs::write(evidence_path(&self.prop), serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
        let brief: Vec<String> = st.n.iter().map(|(k, v)| format!("{k}={v}")).collect();
        println!("{} {} {}", self.prop, self.tier, brief.join(" "));
        if let Some(v) = &self.violation {
            let path = write_replay(&self.prop, v);
            println!("{}: {}", self.prop, v.why);
            println!("VIOLATION property={} replay={}", self.prop, path);
            std::process::exit(1);
        }
        println!("{} holds on everything explored ({:.1}s)", self.prop, self.t0.elapsed().as_secs_f64());
        std::process::exit(0);
    }
}
static HARNESS_PANIC: AtomicBool = AtomicBool::new(false);

pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}
pub fn env_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}
fn evidence_path(p: &str) -> String {
    let d = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&d);
    format!("{d}/{p}.json")
}
fn write_replay(p: &str, v: &Violation) -> String {
    let d = format!("{}/replays", verif_dir());
    let _ = std::fs::create_dir_all(&d);
    let path = format!("{d}/{p}.json");
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&json!({"property": p, "why": v.why, "item": v.order, "seed": env_seed(), "case": v.case})).unwrap());
    path
}
fn load_known(p: &str) -> Vec<Value> {
    let s = std::fs::read_to_string(format!("{}/known_findings.jsonl", verif_dir())).unwrap_or_default();
    s.lines().filter_map(|l| serde_json::from_str::<Value>(l).ok()).filter(|v| v["property"] == json!(p) && v["status"] == json!("known")).collect()
}

/// The output of this binary run as `fresh <id> <i>`: what a process that did nothing else before gives.
pub fn fresh_process(id: &str, i: usize) -> Result<String, String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let o = std::process::Command::new(exe).args(["fresh", id, &i.to_string()]).output().map_err(|e| e.to_string())?;
    if !o.status.success() {
        return Err(format!("{}: {}", o.status, String::from_utf8_lossy(&o.stderr)));
    }
    Ok(String::from_utf8_lossy(&o.stdout).trim_end().to_string())
}
/// Bytes this thread has allocated and not freed.
pub fn net_bytes() -> isize {
    NET.with(|n| n.get())
}

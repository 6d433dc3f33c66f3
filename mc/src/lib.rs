//! Shared machinery of the checks: exhaustive-enumeration driver, comparison with the reference
//! model, known findings, replay artefacts and evidence.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

pub mod shexm;
pub mod shexw;
pub mod gen_;
pub mod recu;
pub mod xsd;
pub mod shaclm;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Cfg {
    pub id: &'static str,
    pub tier: Tier,
    pub seed: i64,
    pub verif: PathBuf,
    pub replay: Option<String>,
    pub hang_secs: u64,
}

static CFG: OnceLock<Cfg> = OnceLock::new();
pub fn cfg() -> &'static Cfg {
    CFG.get().expect("cfg")
}
pub fn thorough() -> bool {
    cfg().tier == Tier::Thorough
}

#[derive(Clone)]
pub struct Viol {
    pub key: String,
    pub expected: String,
    pub observed: String,
}

/// Per-worker accumulator.
#[derive(Default)]
pub struct Local {
    pub transitions: u64,
    pub traces: u64,
    pub cases: u64,
    pub nontrivial: u64,
    seen: HashSet<u64>,
    outcomes: HashMap<String, u64>,
    samples: Vec<String>,
    viols: Vec<Viol>,
    nviol: u64,
    nknown: u64,
}

const MAX_VIOLS: usize = 4000;

pub fn h64<T: Hash + ?Sized>(t: &T) -> u64 {
    // FNV based: deterministic over runs
    struct Fnv(u64);
    impl Hasher for Fnv {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, b: &[u8]) {
            for x in b {
                self.0 ^= *x as u64;
                self.0 = self.0.wrapping_mul(0x100000001b3);
            }
        }
    }
    let mut f = Fnv(0xcbf29ce484222325);
    t.hash(&mut f);
    f.finish()
}

// ---- current case tracking (hang watchdog and abort handler) ----
struct Slot {
    buf: Box<[u8; 8192]>,
    len: AtomicUsize,
    start_ms: AtomicU64, // 0: idle
}
unsafe impl Sync for Slot {}
static SLOTS: OnceLock<Vec<Slot>> = OnceLock::new();
static EPOCH: OnceLock<Instant> = OnceLock::new();
static NEXT_SLOT: AtomicUsize = AtomicUsize::new(0);
const NSLOTS: usize = 256;
thread_local! {
    static MYSLOT: usize = NEXT_SLOT.fetch_add(1, Ordering::SeqCst) % NSLOTS;
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}
fn slots() -> &'static Vec<Slot> {
    SLOTS.get_or_init(|| {
        (0..NSLOTS)
            .map(|_| Slot { buf: Box::new([0u8; 8192]), len: AtomicUsize::new(0), start_ms: AtomicU64::new(0) })
            .collect()
    })
}
fn now_ms() -> u64 {
    EPOCH.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}
fn slot_begin(key: &str) {
    let i = MYSLOT.with(|s| *s);
    let s = &slots()[i];
    let b = key.as_bytes();
    let n = b.len().min(8192);
    unsafe {
        std::ptr::copy_nonoverlapping(b.as_ptr(), s.buf.as_ptr() as *mut u8, n);
    }
    s.len.store(n, Ordering::SeqCst);
    s.start_ms.store(now_ms(), Ordering::SeqCst);
}
fn slot_end() {
    let i = MYSLOT.with(|s| *s);
    slots()[i].start_ms.store(0, Ordering::SeqCst);
}

unsafe extern "C" {
    fn signal(sig: i32, h: usize) -> usize;
    fn _exit(c: i32) -> !;
    fn write(fd: i32, p: *const core::ffi::c_void, n: usize) -> isize;
    fn creat(p: *const u8, mode: u32) -> i32;
    fn getpid() -> i32;
}
static ABORT_PATH: OnceLock<Vec<u8>> = OnceLock::new();
static ABORT_LINE: OnceLock<Vec<u8>> = OnceLock::new();
extern "C" fn on_abort(_sig: i32) {
    unsafe {
        let mut any = false;
        if let (Some(p), Some(l), Some(sl)) = (ABORT_PATH.get(), ABORT_LINE.get(), SLOTS.get()) {
            let fd = creat(p.as_ptr(), 0o644);
            for s in sl {
                if s.start_ms.load(Ordering::SeqCst) != 0 {
                    any = true;
                    let n = s.len.load(Ordering::SeqCst);
                    write(fd, b"ABORTED (stack overflow or abort) while running:\n".as_ptr().cast(), 49);
                    write(fd, s.buf.as_ptr().cast(), n);
                    write(fd, b"\n".as_ptr().cast(), 1);
                }
            }
            if any {
                write(1, l.as_ptr().cast(), l.len());
                _exit(1);
            }
        }
        let _ = getpid();
        _exit(134);
    }
}

pub struct Check {
    pub level: &'static str,
    pub rule: String,
    pub bounds: String,
    pub assumptions: Vec<String>,
    pub extra: BTreeMap<String, serde_json::Value>,
    tot: Local,
    start: Instant,
    phases: Vec<serde_json::Value>,
    exhaustive: bool,
}

/// Runs code under test; a panic is an observation, not an engine error.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    QUIET.with(|q| *q.borrow_mut() = true);
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = false);
    r.map_err(|e| {
        let m = if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        format!("PANIC: {m}")
    })
}

impl Local {
    /// One case: `key` identifies it completely; `expected` comes from the reference model,
    /// `observed` from the real code.
    pub fn compare(&mut self, key: &str, expected: &str, f: impl FnOnce() -> String) {
        if let Some(r) = &cfg().replay
            && r != key
        {
            return;
        }
        self.cases += 1;
        let fresh = self.seen.insert(h64(key));
        slot_begin(key);
        let obs = match guard(f) {
            Ok(s) => s,
            Err(p) => p,
        };
        slot_end();
        self.transitions += 1;
        self.traces += 1;
        if fresh {
            let cut: String = obs.chars().take(48).collect();
            if self.outcomes.len() < 400 || self.outcomes.contains_key(&cut) {
                *self.outcomes.entry(cut).or_insert(0) += 1;
            }
            if self.samples.len() < 3 && (self.cases % 97 == 1) {
                self.samples.push(format!("{key} => {obs}"));
            }
        }
        if cfg().replay.is_some() {
            println!("REPLAY case:\n{key}\n  expected: {expected}\n  observed: {obs}");
        }
        if obs != expected {
            self.fail(key, expected, &obs);
        }
    }
    pub fn fail(&mut self, key: &str, expected: &str, observed: &str) {
        let h = h64(&(key, observed));
        if known().iter().any(|k| k.keys.contains(&h)) {
            self.nknown += 1;
            return;
        }
        self.nviol += 1;
        if self.viols.len() < MAX_VIOLS {
            self.viols.push(Viol { key: key.into(), expected: expected.into(), observed: observed.into() });
        }
    }
    /// Note a nontrivial case (as defined by the check's rule).
    pub fn nontrivial(&mut self) {
        self.nontrivial += 1;
    }
    pub fn step(&mut self, n: u64) {
        self.transitions += n;
    }
    fn merge(&mut self, o: Local) {
        self.transitions += o.transitions;
        self.traces += o.traces;
        self.cases += o.cases;
        self.nontrivial += o.nontrivial;
        self.seen.extend(o.seen);
        for (k, v) in o.outcomes {
            *self.outcomes.entry(k).or_insert(0) += v;
        }
        self.samples.extend(o.samples);
        self.viols.extend(o.viols);
        self.nviol += o.nviol;
        self.nknown += o.nknown;
    }
}

pub fn nthreads() -> usize {
    std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8)
}

impl Check {
    /// Exhaustively runs `f` on every index of `0..n` (dynamic work distribution, all indices covered).
    pub fn par<F>(&mut self, phase: &str, n: usize, f: F)
    where
        F: Fn(usize, &mut Local) + Sync,
    {
        let t0 = Instant::now();
        let next = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let results: Mutex<Vec<Local>> = Mutex::new(vec![]);
        let nt = nthreads().min(n.max(1));
        let chunk = (n / (nt * 64)).clamp(1, 4096);
        let engine_err: Mutex<Option<String>> = Mutex::new(None);
        std::thread::scope(|s| {
            for _ in 0..nt {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, || {
                        let mut l = Local::default();
                        let r = catch_unwind(AssertUnwindSafe(|| {
                            loop {
                                if stop.load(Ordering::Relaxed) {
                                    break;
                                }
                                let a = next.fetch_add(chunk, Ordering::SeqCst);
                                if a >= n {
                                    break;
                                }
                                for i in a..(a + chunk).min(n) {
                                    f(i, &mut l);
                                    if l.nviol > 200_000 {
                                        stop.store(true, Ordering::Relaxed);
                                        break;
                                    }
                                }
                            }
                        }));
                        if let Err(e) = r {
                            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                            *engine_err.lock().unwrap() = Some(m);
                            stop.store(true, Ordering::Relaxed);
                        }
                        results.lock().unwrap().push(l);
                    })
                    .expect("spawn");
            }
        });
        if let Some(m) = engine_err.into_inner().unwrap() {
            // a panic outside a guarded case: the code under test could not even be set up
            self.tot.fail(&format!("phase {phase}"), "no panic", &format!("PANIC: {m}"));
        }
        let mut ph = Local::default();
        for l in results.into_inner().unwrap() {
            ph.merge(l);
        }
        if stop.load(Ordering::Relaxed) {
            self.exhaustive = false;
        }
        eprintln!(
            "[{}] phase {phase}: n={n} cases={} distinct={} outcomes={} violations(raw)={} {:.1}s",
            cfg().id,
            ph.cases,
            ph.seen.len(),
            ph.outcomes.len(),
            ph.nviol,
            t0.elapsed().as_secs_f64()
        );
        self.phases.push(serde_json::json!({"phase": phase, "index_space": n, "cases": ph.cases, "distinct": ph.seen.len(),
            "distinct_outcomes": ph.outcomes.len(), "seconds": t0.elapsed().as_secs_f64()}));
        self.tot.merge(ph);
    }
    pub fn seq<F>(&mut self, phase: &str, f: F)
    where
        F: Fn(&mut Local) + Sync,
    {
        self.par(phase, 1, |_, l| f(l));
    }
    pub fn note(&mut self, k: &str, v: serde_json::Value) {
        self.extra.insert(k.into(), v);
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.into());
    }
}

fn short(s: &str, n: usize) -> String {
    if s.chars().count() <= n { s.to_string() } else { s.chars().take(n).collect::<String>() + "…" }
}

/// Known findings: /verif/known_findings.txt lists `KNOWN id=<fid> property=<P> keys=<file> <description>`;
/// the keys file has one line per failing case: hex hash of (case key + observed outcome).
struct Known {
    fid: String,
    desc: String,
    keys: HashSet<u64>,
}
static KNOWN: OnceLock<Vec<Known>> = OnceLock::new();
fn known() -> &'static [Known] {
    KNOWN.get_or_init(load_known)
}
fn load_known() -> Vec<Known> {
    let p = cfg().verif.join("known_findings.txt");
    let Ok(t) = std::fs::read_to_string(&p) else { return vec![] };
    let mut out = vec![];
    for line in t.lines() {
        let Some(rest) = line.strip_prefix("known: ") else { continue };
        let mut parts = rest.splitn(4, ' ');
        let (Some(p), Some(f), Some(k), Some(d)) = (parts.next(), parts.next(), parts.next(), parts.next()) else {
            eprintln!("ENGINE ERROR: bad known-findings line: {line}");
            std::process::exit(3)
        };
        if p != format!("property={}", cfg().id) {
            continue;
        }
        let kf = cfg().verif.join(k.trim_start_matches("keys="));
        let keys = std::fs::read_to_string(&kf)
            .unwrap_or_else(|e| {
                eprintln!("ENGINE ERROR: {}: {e}", kf.display());
                std::process::exit(3)
            })
            .lines()
            .filter_map(|l| u64::from_str_radix(l.split_whitespace().next()?, 16).ok())
            .collect();
        out.push(Known { fid: f.trim_start_matches("id=").into(), desc: d.into(), keys });
    }
    out
}

pub fn viol_hash(v: &Viol) -> u64 {
    h64(&(v.key.as_str(), v.observed.as_str()))
}

/// Entry point of every check binary.
pub fn main_check(id: &'static str, level: &'static str, f: impl FnOnce(&mut Check)) -> ! {
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let args: Vec<String> = std::env::args().collect();
    let replay = args.iter().position(|a| a == "--replay").map(|i| {
        let t = std::fs::read_to_string(&args[i + 1]).expect("replay file");
        let b = t.find("--- case\n").expect("case marker") + 9;
        let e = t[b..].find("\n--- expected\n").expect("end marker") + b;
        t[b..e].to_string()
    });
    let verif = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or("/verif".into()));
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let hang_secs = std::env::var("MC_HANG").ok().and_then(|s| s.parse().ok()).unwrap_or(90);
    CFG.set(Cfg { id, tier, seed, verif: verif.clone(), replay, hang_secs }).ok();
    EPOCH.get_or_init(Instant::now);
    slots();
    let rdir = verif.join("replays");
    std::fs::create_dir_all(&rdir).ok();
    let ap = rdir.join(format!("{id}-abort.txt"));
    ABORT_PATH.set(format!("{}\0", ap.display()).into_bytes()).ok();
    ABORT_LINE.set(format!("VIOLATION property={id} replay={}\n", ap.display()).into_bytes()).ok();
    unsafe {
        signal(6, on_abort as *const () as usize);
    }
    let hook = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        let q = QUIET.try_with(|q| *q.borrow()).unwrap_or(false);
        if !q && std::env::var("MC_VERBOSE_PANIC").is_ok() || (!q && std::thread::current().name() == Some("main")) {
            hook(i)
        } else if !q {
            eprintln!("panic outside guard: {i}");
        }
    }));
    // hang watchdog
    {
        let rdir = rdir.clone();
        std::thread::spawn(move || {
            loop {
                std::thread::sleep(Duration::from_millis(500));
                let now = now_ms();
                for s in slots() {
                    let st = s.start_ms.load(Ordering::SeqCst);
                    if st != 0 && now > st && now - st > hang_secs * 1000 {
                        let n = s.len.load(Ordering::SeqCst);
                        let key = String::from_utf8_lossy(&s.buf[..n]).to_string();
                        if s.start_ms.load(Ordering::SeqCst) != st {
                            continue;
                        }
                        let p = rdir.join(format!("{id}-hang.txt"));
                        std::fs::write(&p, format!("property {id}\n--- case\n{key}\n--- expected\ntermination\n--- observed\nno result after {hang_secs} s\n")).ok();
                        println!("VIOLATION property={id} replay={}", p.display());
                        println!("  no result after {hang_secs} s on: {}", short(&key, 600));
                        std::io::stdout().flush().ok();
                        std::process::exit(1);
                    }
                }
            }
        });
    }
    let mut ck = Check {
        level,
        rule: String::new(),
        bounds: String::new(),
        assumptions: vec![],
        extra: BTreeMap::new(),
        tot: Local::default(),
        start: Instant::now(),
        phases: vec![],
        exhaustive: true,
    };
    if let Err(e) = catch_unwind(AssertUnwindSafe(|| f(&mut ck))) {
        let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        ck.tot.fail("setup", "no panic", &format!("PANIC: {m}"));
    }
    finish(ck)
}

fn finish(ck: Check) -> ! {
    let c = cfg();
    let mut fresh: Vec<&Viol> = ck.tot.viols.iter().collect();
    let nknown = ck.tot.nknown;
    if let Ok(p) = std::env::var("MC_DUMP") {
        let mut o = std::fs::File::create(p).unwrap();
        for v in &fresh {
            writeln!(o, "{:016x} {:?} expected {:?} observed {:?}", viol_hash(v), v.key, v.expected, v.observed).unwrap();
        }
    }
    fresh.sort_by(|a, b| (a.key.len(), &a.key).cmp(&(b.key.len(), &b.key)));
    let states = ck.tot.seen.len();
    let mut samples: Vec<String> = ck.tot.samples.clone();
    samples.sort();
    samples.dedup();
    let st = (samples.len() / 6).max(1);
    let samples: Vec<String> = samples.into_iter().step_by(st).take(8).map(|s| short(&s, 700)).collect();
    let mut outc: Vec<(&String, &u64)> = ck.tot.outcomes.iter().collect();
    outc.sort_by(|a, b| b.1.cmp(a.1).then(a.0.cmp(b.0)));
    let mut cov = serde_json::json!({
        "states": states,
        "transitions": ck.tot.transitions,
        "traces_validated_against_impl": ck.tot.traces,
        "evaluations": ck.tot.cases,
        "distinct_nontrivial": if ck.tot.nontrivial > 0 { ck.tot.nontrivial.min(states as u64) } else { states as u64 },
        "rule": ck.rule,
        "bounds": ck.bounds,
        "exhaustive": ck.exhaustive,
        "distinct_outcomes": ck.tot.outcomes.len(),
        "most_common_outcomes": outc.iter().take(12).map(|(k, v)| format!("{v} x {k}")).collect::<Vec<_>>(),
        "phases": ck.phases,
        "samples": samples,
        "known_finding_cases": nknown,
    });
    for (k, v) in &ck.extra {
        cov[k] = v.clone();
    }
    let ev = serde_json::json!({
        "property": c.id,
        "tier": if c.tier == Tier::Quick {"quick"} else {"thorough"},
        "seed": c.seed,
        "level": ck.level,
        "coverage": cov,
        "assumptions": ck.assumptions,
        "wall_s": ck.start.elapsed().as_secs_f64(),
        "violations": fresh.len(),
    });
    if c.replay.is_none() {
        std::fs::create_dir_all(c.verif.join("evidence")).ok();
        std::fs::write(c.verif.join(format!("evidence/{}.json", c.id)), serde_json::to_string_pretty(&ev).unwrap() + "\n")
            .expect("write evidence");
    }
    for kf in known() {
        println!("KNOWN-FINDING: property={} {} {}", c.id, kf.fid, kf.desc);
    }
    if ck.tot.cases == 0 && c.replay.is_none() {
        eprintln!("ENGINE ERROR: no case was explored");
        std::process::exit(3);
    }
    println!(
        "{}: states={} transitions={} traces_validated={} distinct_outcomes={} known_cases={} new_violations={} wall={:.1}s",
        c.id,
        states,
        ck.tot.transitions,
        ck.tot.traces,
        ck.tot.outcomes.len(),
        nknown,
        fresh.len(),
        ck.start.elapsed().as_secs_f64()
    );
    if fresh.is_empty() {
        std::process::exit(0)
    }
    let p = c.verif.join(format!("replays/{}-{:016x}.txt", c.id, viol_hash(fresh[0])));
    let v = fresh[0];
    std::fs::write(
        &p,
        format!(
            "property {}\nreplay with: sh check.sh {} --replay {}\n--- case\n{}\n--- expected\n{}\n--- observed\n{}\n",
            c.id,
            c.id,
            p.display(),
            v.key,
            v.expected,
            v.observed
        ),
    )
    .ok();
    println!("VIOLATION property={} replay={}", c.id, p.display());
    for v in fresh.iter().take(if c.replay.is_some() { 1 } else { 6 }) {
        println!("  case: {}\n    expected: {}\n    observed: {}", short(&v.key, 900), short(&v.expected, 400), short(&v.observed, 400));
    }
    std::io::stdout().flush().ok();
    std::process::exit(1)
}

//! Case runner, observation counters, watchdog, verdicts, evidence and replay files.
use crate::oracle::hex;
use crate::rng::{hash64, Rng};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::Instant;

pub type R = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($m:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err(format!("{}: got {:?}, expected {:?}", format!($($m)*), a, b)); }
    }};
}

pub fn verif_dir() -> String {
    concat!(env!("CARGO_MANIFEST_DIR"), "/..").to_string()
}

pub struct Env {
    pub prop: String,
    pub variant: String,
    pub thorough: bool,
    pub second: bool,
    pub seed: u64,
    pub threads: usize,
    pub only: Option<(String, u64)>,
    pub start: Instant,
    pub all: Mutex<Mon>,
    pub violations: Mutex<Vec<(String, u64, String)>>,
    pub rules: Mutex<Vec<String>>,
    pub level: Mutex<String>,
    pub assumptions: Mutex<Vec<String>>,
    pub part: String,
}

/// What one worker observed.
#[derive(Default)]
pub struct Mon {
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    nsamp: BTreeMap<String, u64>,
    phase: String,
}
impl Mon {
    /// One library execution judged by the oracle.
    pub fn eval(&mut self) {
        self.evals += 1;
    }
    /// Records a distinct non-trivial case.
    pub fn seen(&mut self, b: &[u8]) {
        let h = hash64(b) ^ hash64(self.phase.as_bytes()).rotate_left(1);
        self.distinct.insert(h);
    }
    pub fn count(&mut self, k: &str) {
        self.count_n(k, 1)
    }
    pub fn count_n(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.to_string()).or_default() += n;
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.counters.entry(format!("max {k}")).or_default();
        *e = (*e).max(n);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        let n = self.nsamp.entry(self.phase.clone()).or_default();
        if *n < 1 {
            *n += 1;
            let s = format!("[{}] {}", self.phase, f());
            self.samples.push(s.chars().take(600).collect());
        }
    }
    fn merge(&mut self, o: Mon) {
        self.evals += o.evals;
        self.distinct.extend(o.distinct);
        for (k, v) in o.counters {
            let e = self.counters.entry(k.clone()).or_default();
            if k.starts_with("max ") {
                *e = (*e).max(v)
            } else {
                *e += v
            }
        }
        for s in o.samples {
            let tag = s.split(']').next().unwrap().to_string();
            if self.samples.iter().filter(|x| x.starts_with(&tag)).count() < 2 {
                self.samples.push(s);
            }
        }
    }
}

// ---- what was going on, kept where it survives a crash ---------------------------------------------
/// Shared page: [phase name, 64 bytes][slot: seq, case] * SLOTS
static MAP: std::sync::atomic::AtomicPtr<AtomicU64> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());
const MAP_BYTES: usize = 64 + SLOTS * 16;
fn map_file(path: &str) -> Option<*mut AtomicU64> {
    use std::os::unix::io::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).open(path).ok()?;
    f.set_len(MAP_BYTES as u64).ok()?;
    let p = unsafe { libc::mmap(std::ptr::null_mut(), MAP_BYTES, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
    (p != libc::MAP_FAILED).then_some(p as *mut AtomicU64)
}
fn cell(i: usize) -> Option<&'static AtomicU64> {
    let p = MAP.load(Relaxed);
    (!p.is_null()).then(|| unsafe { &*p.add(i) })
}
fn note_phase(name: &str) {
    *PHASE.lock().unwrap() = name.to_string();
    let mut b = [0u8; 64];
    let n = name.len().min(63);
    b[..n].copy_from_slice(&name.as_bytes()[..n]);
    for i in 0..8 {
        if let Some(c) = cell(i) {
            c.store(u64::from_le_bytes(b[i * 8..i * 8 + 8].try_into().unwrap()), Relaxed);
        }
    }
}
fn note_call(slot: usize, seq: u64, case: u64) {
    if let Some(c) = cell(8 + slot * 2 + 1) {
        c.store(case, Relaxed);
        cell(8 + slot * 2).unwrap().store(seq, Relaxed);
    }
}
/// (phase, cases inside a library call) left behind by a process that died.
fn post_mortem(path: &str) -> (String, Vec<u64>) {
    let Ok(b) = std::fs::read(path) else { return Default::default() };
    if b.len() < MAP_BYTES {
        return Default::default();
    }
    let w = |i: usize| u64::from_le_bytes(b[i * 8..i * 8 + 8].try_into().unwrap());
    let ph = String::from_utf8_lossy(&b[..64]).trim_end_matches('\0').to_string();
    (ph, (0..SLOTS).filter(|s| w(8 + s * 2) % 2 == 1).map(|s| w(8 + s * 2 + 1)).collect())
}

// ---- watchdog: a library call that burns CPU without returning ------------------------------------
const SLOTS: usize = 64;
struct Slot {
    seq: AtomicU64,   // odd while inside a library call
    case: AtomicU64,
    clock: AtomicU64, // clock id + 1, 0 when unused
}
static SLOT: [Slot; SLOTS] = [const { Slot { seq: AtomicU64::new(0), case: AtomicU64::new(0), clock: AtomicU64::new(0) } }; SLOTS];
static PHASE: Mutex<String> = Mutex::new(String::new());
thread_local! {
    static MY: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) };
    static IN_LIB: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static PANIC_MSG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

fn claim_slot(i: usize) {
    MY.with(|m| m.set(i));
    unsafe {
        let mut c: libc::clockid_t = 0;
        if libc::pthread_getcpuclockid(libc::pthread_self(), &mut c) == 0 {
            SLOT[i].clock.store((c as i64 as u64).wrapping_add(1), SeqCst);
        }
    }
}
fn release_slot(i: usize) {
    SLOT[i].clock.store(0, SeqCst);
    MY.with(|m| m.set(usize::MAX));
}
fn cpu_of(slot: usize) -> Option<u64> {
    let c = SLOT[slot].clock.load(SeqCst);
    if c == 0 {
        return None;
    }
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    let id = c.wrapping_sub(1) as i64 as libc::clockid_t;
    if unsafe { libc::clock_gettime(id, &mut ts) } != 0 {
        return None;
    }
    Some(ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64)
}
/// CPU seconds one library call may burn before it counts as not returning (normal: under 10 ms).
pub const HANG_CPU_S: u64 = 60;
/// Seconds a library call may sit without using any CPU (a deadlock; no operation of the library waits for anything).
pub const STUCK_WALL_S: u64 = 150;

fn watchdog(env: &'static Env) {
    let mut last = [(0u64, 0u64); SLOTS];
    let mut since = [Instant::now(); SLOTS];
    loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        for s in 0..SLOTS {
            let seq = SLOT[s].seq.load(SeqCst);
            let cpu = match cpu_of(s) {
                Some(c) => c,
                None => {
                    last[s] = (0, 0);
                    continue;
                }
            };
            if seq % 2 == 0 || last[s].0 != seq {
                last[s] = (seq, cpu);
                since[s] = Instant::now();
            } else if since[s].elapsed().as_secs() > STUCK_WALL_S && cpu.saturating_sub(last[s].1) < 1_000_000_000 {
                let ph = PHASE.lock().unwrap().clone();
                let case = SLOT[s].case.load(SeqCst);
                env.violations.lock().unwrap().push((ph, case, format!("a library call is blocked: it neither returned nor ran for {STUCK_WALL_S} s")));
                finish(env);
                std::process::exit(0);
            } else if cpu.saturating_sub(last[s].1) > HANG_CPU_S * 1_000_000_000 {
                let ph = PHASE.lock().unwrap().clone();
                let case = SLOT[s].case.load(SeqCst);
                env.violations.lock().unwrap().push((ph, case, format!("a library call did not return within {HANG_CPU_S} s of CPU time")));
                finish(env);
                std::process::exit(0);
            }
        }
    }
}
pub fn start_watchdog(env: &'static Env) {
    std::thread::spawn(move || watchdog(env));
}

pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if IN_LIB.with(|x| x.get()) {
            let _ = PANIC_MSG.try_with(|m| *m.borrow_mut() = i.to_string());
        } else {
            old(i)
        }
    }));
}
pub fn in_lib() -> bool {
    IN_LIB.with(|x| x.get())
}
/// Panics on this thread are part of the workload.
pub fn quiet() {
    IN_LIB.with(|x| x.set(true));
}
/// Drops the kept text of the last panic.
pub fn forget_panic() {
    PANIC_MSG.with(|m| drop(std::mem::take(&mut *m.borrow_mut())));
}
/// Runs one library call; a panic in it becomes Err.
pub fn lib<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let my = MY.with(|m| m.get());
    let nested = IN_LIB.with(|x| x.replace(true));
    if my < SLOTS && !nested {
        let q = SLOT[my].seq.fetch_add(1, Relaxed) + 1;
        note_call(my, q, SLOT[my].case.load(Relaxed));
    }
    let r = catch_unwind(AssertUnwindSafe(f));
    if my < SLOTS && !nested {
        let q = SLOT[my].seq.fetch_add(1, Relaxed) + 1;
        note_call(my, q, SLOT[my].case.load(Relaxed));
    }
    IN_LIB.with(|x| x.set(nested));
    r.map_err(|_| format!("library call panicked: {}", PANIC_MSG.try_with(|m| m.borrow().clone()).unwrap_or_default()))
}

impl Env {
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        // the cheap properties get more cases, so that a quick check takes at least some seconds
        let k = match &self.prop[..] {
            "C06" | "C09" => 8,
            "C01" | "C02" | "C12" => 4,
            "C22" | "C25" => 3,
            "C05" | "C07" | "C11" | "C13" | "C18" => 2,
            _ => 1,
        };
        let n = if self.thorough { thorough } else { (quick * k).min(thorough) };
        // the second look at the optimised build is a shorter one
        if self.second && n > 200 {
            n / 3
        } else {
            n
        }
    }
    pub fn rule(&self, s: &str) {
        self.rules.lock().unwrap().push(s.to_string());
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.to_string());
    }
    pub fn failed(&self) -> bool {
        self.violations.lock().unwrap().len() >= 3
    }
    pub fn violation(&self, phase: &str, case: u64, msg: String) {
        self.violations.lock().unwrap().push((phase.to_string(), case, msg));
    }
    pub fn with<T>(&self, phase: &str, f: impl FnOnce(&mut Mon) -> T) -> T {
        let mut m = Mon { phase: phase.to_string(), ..Default::default() };
        let r = f(&mut m);
        self.all.lock().unwrap().merge(m);
        r
    }
    /// True when a single process-level phase should run (not filtered out by a replay).
    pub fn wants(&self, phase: &str) -> bool {
        !self.failed() && self.only.as_ref().map_or(true, |o| o.0 == phase)
    }
    /// Runs cases 0..n of a phase on all threads.
    pub fn phase(&'static self, name: &str, n: u64, f: impl Fn(&mut Mon, &mut Rng, u64) -> R + Sync) {
        self.phase_t(name, n, self.threads, f)
    }
    pub fn phase_t(&'static self, name: &str, n: u64, threads: usize, f: impl Fn(&mut Mon, &mut Rng, u64) -> R + Sync) {
        if !self.wants(name) {
            return;
        }
        let t0 = Instant::now();
        note_phase(name);
        let (lo, hi) = match &self.only {
            Some((_, c)) => (*c, *c + 1),
            None => (0, n),
        };
        let next = AtomicU64::new(lo);
        let chunk = ((hi - lo) / (threads as u64 * 16)).clamp(1, 256);
        let stop = AtomicBool::new(false);
        std::thread::scope(|s| {
            for t in 0..threads {
                let (next, stop, f) = (&next, &stop, &f);
                s.spawn(move || {
                    claim_slot(t);
                    let mut m = Mon { phase: name.to_string(), ..Default::default() };
                    'o: while !stop.load(Relaxed) {
                        let a = next.fetch_add(chunk, SeqCst);
                        if a >= hi {
                            break;
                        }
                        for i in a..(a + chunk).min(hi) {
                            SLOT[t].case.store(i, Relaxed);
                            let mut rng = Rng::new(self.seed, name, i);
                            // every other case runs with made-up surroundings
                            let w = if i % 2 == 1 { 1 + (hash64(&i.to_le_bytes()) % 64) as u8 } else { 0 };
                            crate::world::mine(w);
                            m.count_n("cases with made-up environment variables and dates", (w != 0) as u64);
                            if let Err(e) = f(&mut m, &mut rng, i) {
                                self.violation(name, i, e);
                                if self.failed() {
                                    stop.store(true, SeqCst);
                                    break 'o;
                                }
                            }
                        }
                    }
                    crate::world::mine(0);
                    release_slot(t);
                    self.all.lock().unwrap().merge(m);
                });
            }
        });
        let ms = t0.elapsed().as_millis();
        if ms > 200 {
            eprintln!("  {} {name}: {} cases, {ms} ms", self.prop, hi - lo);
        }
    }
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Known, unrepaired findings: "known: property=<id> signature=<phase>#<text> <what>".
fn known(prop: &str, phase: &str, msg: &str) -> Option<String> {
    let f = std::fs::read_to_string(format!("{}/known_findings.txt", verif_dir())).unwrap_or_default();
    for l in f.lines() {
        if let Some(r) = l.strip_prefix(&format!("known: property={prop} signature=")) {
            let (sig, what) = r.split_once("  ").unwrap_or((r, ""));
            if let Some((ph, m)) = sig.split_once('#') {
                if ph == phase && msg == m {
                    return Some(what.to_string());
                }
            }
        }
    }
    None
}

// ---- the part a worker process hands to its supervisor ----------------------------------------------
fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r")
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('r') => o.push('\r'),
                Some(x) => o.push(x),
                None => (),
            }
        } else {
            o.push(c)
        }
    }
    o
}
/// Writes what this worker saw; the supervisor judges it.
pub fn finish(env: &Env) -> i32 {
    let mut m = env.all.lock().unwrap();
    for (k, v) in [("made-up environment variables the library asked for", &crate::world::LOOKUPS), ("made-up times the library was told", &crate::world::DATES)] {
        m.count_n(k, v.load(std::sync::atomic::Ordering::Relaxed));
    }
    let vs = env.violations.lock().unwrap();
    let mut s = format!("evals {}\ndistinct {}\nlevel {}\n", m.evals, m.distinct.len(), env.level.lock().unwrap());
    for (k, v) in &m.counters {
        s += &format!("counter {v} {}\n", esc(k));
    }
    for x in &m.samples {
        s += &format!("sample {}\n", esc(x));
    }
    for x in env.rules.lock().unwrap().iter() {
        s += &format!("rule {}\n", esc(x));
    }
    for x in env.assumptions.lock().unwrap().iter() {
        s += &format!("assume {}\n", esc(x));
    }
    for (ph, case, msg) in vs.iter() {
        s += &format!("viol {case} {ph} {}\n", esc(&msg.chars().take(4000).collect::<String>()));
    }
    s += "end\n";
    if let Err(e) = std::fs::write(&env.part, s) {
        eprintln!("cannot write {}: {e}", env.part);
        return 2;
    }
    0
}

pub struct Job {
    pub variant: &'static str,
    pub wrap: Vec<String>,             // command put in front
    pub envs: Vec<(String, String)>,
}
pub struct Order {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub only: Option<(String, String, u64)>, // variant, phase, case
}
fn seed_for(seed: u64, k: usize) -> u64 {
    seed.wrapping_add(0x1_0000_0001 * k as u64)
}
/// Runs the workers of a property one after another, merges what they saw, writes evidence, prints the verdict.
pub fn supervise(o: &Order, jobs: Vec<Job>) -> i32 {
    let start = Instant::now();
    let dir = verif_dir().replace("/harness/..", "");
    let tmp = format!("{dir}/.build/run-{}", std::process::id());
    for d in ["evidence", "replays"] {
        let _ = std::fs::create_dir_all(format!("{dir}/{d}"));
    }
    let _ = std::fs::create_dir_all(&tmp);
    let (mut evals, mut distinct, mut level) = (0u64, 0u64, "exploration".to_string());
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let (mut samples, mut rules, mut assumes): (Vec<String>, Vec<String>, Vec<String>) = Default::default();
    let mut viols: Vec<(String, u64, String, u64, String)> = vec![]; // variant, seed, phase, case, msg
    let mut broken = None;
    let tier = if o.thorough { "thorough" } else { "quick" };
    for (k, j) in jobs.iter().enumerate() {
        if o.only.as_ref().map_or(false, |x| x.0 != j.variant) {
            continue;
        }
        let seed = if o.only.is_some() { o.seed } else { seed_for(o.seed, k) };
        let (part, slots, errf) = (format!("{tmp}/part"), format!("{tmp}/slots"), format!("{tmp}/stderr"));
        let _ = std::fs::remove_file(&part);
        let _ = std::fs::remove_file(&slots);
        let exe = match std::env::var(format!("KMSMON_{}", j.variant)) {
            Ok(e) => e,
            Err(_) if j.variant == "plain" || jobs.len() == 1 => std::env::current_exe().unwrap().to_string_lossy().to_string(),
            Err(_) => {
                eprintln!("no {} build of the harness (run check.sh)", j.variant);
                return 2;
            }
        };
        let mut argv = j.wrap.clone();
        argv.extend([exe, "inner".into(), o.prop.clone(), tier.into(), seed.to_string(), part.clone(), slots.clone(), j.variant.into()]);
        if let Some((_, ph, c)) = &o.only {
            argv.extend([ph.clone(), c.to_string()]);
        }
        let err = std::fs::File::create(&errf).unwrap();
        let st = std::process::Command::new(&argv[0]).args(&argv[1..]).envs(j.envs.iter().cloned()).stdin(std::process::Stdio::null()).stderr(err).status();
        let errtxt = String::from_utf8_lossy(&std::fs::read(&errf).unwrap_or_default()).to_string();
        eprint!("{}", errtxt.chars().take(6000).collect::<String>());
        let text = std::fs::read_to_string(&part).unwrap_or_default();
        let done = text.ends_with("end\n");
        for l in text.lines() {
            let (t, r) = l.split_once(' ').unwrap_or((l, ""));
            match t {
                "evals" => evals += r.parse::<u64>().unwrap_or(0),
                "distinct" => distinct += r.parse::<u64>().unwrap_or(0),
                "level" => level = r.to_string(),
                "counter" => {
                    let (v, name) = r.split_once(' ').unwrap();
                    let name = if jobs.len() > 1 { format!("{} ({})", unesc(name), j.variant) } else { unesc(name) };
                    let e = counters.entry(name.clone()).or_default();
                    let v: u64 = v.parse().unwrap_or(0);
                    *e = if name.starts_with("max ") { (*e).max(v) } else { *e + v };
                }
                "sample" => {
                    if k == 0 || samples.len() < 12 {
                        samples.push(if jobs.len() > 1 { format!("{}: {}", j.variant, unesc(r)) } else { unesc(r) })
                    }
                }
                "rule" => {
                    if !rules.contains(&unesc(r)) {
                        rules.push(unesc(r))
                    }
                }
                "assume" => {
                    if !assumes.contains(&unesc(r)) {
                        assumes.push(unesc(r))
                    }
                }
                "viol" => {
                    let mut it = r.splitn(3, ' ');
                    let c = it.next().unwrap_or("0").parse().unwrap_or(0);
                    let ph = it.next().unwrap_or("").to_string();
                    viols.push((j.variant.into(), seed, ph, c, unesc(it.next().unwrap_or(""))));
                }
                _ => (),
            }
        }
        match st {
            Ok(s) if s.success() && done => (),
            Ok(s) => {
                let (ph, cases) = post_mortem(&slots);
                let report = ["ERROR: AddressSanitizer", "WARNING: ThreadSanitizer", "ERROR: ThreadSanitizer", "runtime error", "has overflowed its stack", "memory allocation of"].iter().find_map(|p| errtxt.find(p));
                let excerpt = report.map(|i| errtxt[..].chars().skip(errtxt[..i].chars().count()).take(1500).collect::<String>());
                if s.code() == Some(2) || (cases.is_empty() && excerpt.is_none()) {
                    broken = Some(format!("the {} worker of {} ended with {s}", j.variant, o.prop));
                } else {
                    let c = cases.first().copied().unwrap_or(0);
                    viols.push((j.variant.into(), seed, ph, c, format!("the process died in a library call: {s}; cases then running {cases:?}; {}", excerpt.unwrap_or_default())));
                }
            }
            Err(e) => broken = Some(format!("cannot start the {} worker: {e}", j.variant)),
        }
        if !viols.is_empty() || broken.is_some() {
            break;
        }
    }
    let _ = std::fs::remove_dir_all(&tmp);
    let mut shown = vec![];
    for v in &viols {
        match known(&o.prop, &v.2, &v.4) {
            Some(w) => println!("KNOWN-FINDING: property={} {w}", o.prop),
            None => shown.push(v),
        }
    }
    if o.only.is_none() {
        let cnt = counters.iter().map(|(k, v)| format!("{}: {v}", jstr(k))).collect::<Vec<_>>().join(", ");
        let js = format!(
            "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": {},\n  \"coverage\": {{\n    \"evaluations\": {evals},\n    \"distinct_nontrivial\": {distinct},\n    \"rule\": {},\n    \"observed\": {{{cnt}}},\n    \"samples\": [{}]\n  }},\n  \"assumptions\": [{}],\n  \"wall_s\": {:.2},\n  \"violations\": {}\n}}\n",
            jstr(&o.prop),
            jstr(tier),
            o.seed,
            jstr(&level),
            jstr(&(rules.join(" ") + if jobs.len() > 1 { " Counted per build of the library." } else { "" })),
            samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",\n      "),
            assumes.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", "),
            start.elapsed().as_secs_f64(),
            shown.len(),
        );
        if let Err(e) = std::fs::write(format!("{dir}/evidence/{}.json", o.prop), js) {
            eprintln!("cannot write evidence: {e}");
            return 2;
        }
    }
    for (variant, seed, ph, case, msg) in &shown {
        let rp = format!("{dir}/replays/{}-{}-{}.json", o.prop, ph, case);
        let body = format!(
            "{{\"property\": {}, \"variant\": {}, \"phase\": {}, \"case\": {case}, \"seed\": {seed}, \"tier\": {}, \"message\": {}}}\n",
            jstr(&o.prop), jstr(variant), jstr(ph), jstr(tier), jstr(msg)
        );
        if o.only.is_none() {
            let _ = std::fs::write(&rp, body);
        }
        println!("{} [{variant}] {ph} case {case}: {}", o.prop, msg.chars().take(1500).collect::<String>());
        println!("VIOLATION property={} replay={rp}", o.prop);
    }
    if !shown.is_empty() {
        return 1;
    }
    if let Some(b) = broken {
        eprintln!("{b}");
        return 2;
    }
    if evals == 0 || (o.only.is_none() && distinct == 0) {
        println!("{}: nothing was observed", o.prop);
        return 2;
    }
    println!("{}: held on {evals} evaluations, {distinct} distinct ({:.1} s)", o.prop, start.elapsed().as_secs_f64());
    0
}
pub fn open_slots(path: &str) {
    if let Some(p) = map_file(path) {
        MAP.store(p, SeqCst);
    }
}

pub fn short(b: &[u8]) -> String {
    let h = hex(b);
    if h.len() > 80 {
        format!("{}..({} bytes)", &h[..80], b.len())
    } else {
        h
    }
}

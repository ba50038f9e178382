//! C17: many threads at once. Fresh processes whose threads race for every first use, and threads sharing objects, each
//! result compared with what the same call gives alone; run plain and under ThreadSanitizer.
use crate::gen;
use crate::mon::{lib, Env, Mon, R};
use crate::oracle::bip39::lists;
use crate::oracle::hex;
use crate::rng::{hash64, Rng};
use crate::spec::{self, Pool};
use crate::{ensure, ensure_eq};
use kms::bip32 as k;
use kms::bip39::{Language, Mnemonic, MnemonicType, Seed};
use std::collections::{HashMap, HashSet};
use std::io::Read;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};
use subtle::ConstantTimeEq;

// ---- schedules -----------------------------------------------------------------------------------------
fn now() -> u64 {
    unsafe { std::arch::x86_64::_rdtsc() }
}
/// Held up at random, so that the same calls meet in many orders.
fn jitter(r: &mut Rng) {
    match r.below(12) {
        0 => std::thread::yield_now(),
        1 => (0..r.below(200)).for_each(|_| std::hint::spin_loop()),
        2 => (0..r.below(4000)).for_each(|_| std::hint::spin_loop()),
        3 if r.chance(1, 8) => std::thread::sleep(Duration::from_micros(r.below(60))),
        _ => (),
    }
}
/// Lets all threads go at (nearly) the same instant.
struct Gate {
    waiting: AtomicU32,
    open: AtomicBool,
}
impl Gate {
    const fn new() -> Gate {
        Gate { waiting: AtomicU32::new(0), open: AtomicBool::new(false) }
    }
    fn pass(&self, n: u32, cores: u32) {
        if self.waiting.fetch_add(1, Relaxed) + 1 == n {
            self.open.store(true, Relaxed);
        }
        let mut spins = 0u32;
        while !self.open.load(Relaxed) {
            spins += 1;
            if n > cores || spins > 20_000 {
                std::thread::yield_now()
            } else {
                std::hint::spin_loop()
            }
        }
    }
}
/// The order in which calls began, and which calls were under way at once, from time stamps alone (no synchronisation
/// that could hide a race).
fn schedule(logs: &[Vec<(u64, u64)>]) -> (u64, u64) {
    let mut ev: Vec<(u64, usize, bool)> = vec![];
    for (t, l) in logs.iter().enumerate() {
        for (a, b) in l {
            ev.push((*a, t, true));
            ev.push((*b, t, false));
        }
    }
    ev.sort();
    let (mut open, mut over) = (0u64, 0u64);
    for e in &ev {
        if e.2 {
            over += (open > 0) as u64;
            open += 1;
        } else {
            open = open.saturating_sub(1);
        }
    }
    let order: Vec<u8> = ev.iter().flat_map(|e| [e.1 as u8, e.2 as u8]).collect();
    (hash64(&order), over)
}
fn pin(cpus: u64) {
    if cpus == 0 {
        return;
    }
    unsafe {
        let mut have: libc::cpu_set_t = std::mem::zeroed();
        libc::sched_getaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &mut have);
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        let mut n = 0;
        for c in 0..256 {
            if libc::CPU_ISSET(c, &have) && n < cpus {
                libc::CPU_SET(c, &mut set);
                n += 1;
            }
        }
        libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &set);
    }
}

// ---- first use -----------------------------------------------------------------------------------------
/// Which call each thread of a fresh process makes, in order. Kinds cluster so that many threads reach the same
/// first use together.
fn plan(seed: u64) -> (u64, u32, Vec<Vec<u64>>) {
    let mut g = Rng::new(seed, "race-plan", 0);
    let r = &mut g;
    let cpus = *r.pick(&[0u64, 0, 0, 0, 1, 2, 3]);
    let threads = *r.pick(&[2u32, 2, 3, 4, 4, 8, 8, 16]);
    let calls = r.range(1, 5);
    let focus: Vec<u64> = match r.below(5) {
        0 => vec![r.below(spec::KINDS)],
        1 => vec![0, 1, 2, 3, 4, 6, 7], // the word lists and maps
        2 => vec![8, 9, 10, 11, 12, 13, 18],
        _ => (0..spec::KINDS).collect(),
    };
    let same = r.chance(1, 4);
    let base: Vec<u64> = (0..8).map(|_| r.below(1 << 20) * spec::KINDS + *r.pick(&focus)).collect();
    let mut v = vec![];
    for _ in 0..threads {
        v.push((0..calls).map(|_| if same { *r.pick(&base) } else { r.below(1 << 20) * spec::KINDS + *r.pick(&focus) }).collect());
    }
    (cpus, threads, v)
}
pub fn child_main(a: &[String]) -> i32 {
    if a[0] == "control" {
        return control_child(&a[1]);
    }
    let pool = Pool::new(a[0].parse().unwrap_or(1));
    let seed: u64 = a[1].parse().unwrap_or(0);
    let (cpus, n, calls) = plan(seed);
    pin(cpus);
    let cores = std::thread::available_parallelism().map_or(1, |c| c.get() as u32);
    let gate = Gate::new();
    let out: Vec<(Vec<(u64, u64)>, Vec<String>)> = std::thread::scope(|s| {
        let hs: Vec<_> = calls
            .iter()
            .enumerate()
            .map(|(t, ids)| {
                let (gate, pool) = (&gate, &pool);
                s.spawn(move || {
                    let mut r = Rng::new(seed, "race-jitter", t as u64);
                    let (mut times, mut got) = (vec![], vec![]);
                    let loose = r.chance(1, 3);
                    gate.pass(n, cores);
                    for id in ids {
                        if loose {
                            jitter(&mut r);
                        }
                        let a = now();
                        let (_, res) = spec::run(pool, *id);
                        times.push((a, now()));
                        got.push(res);
                    }
                    (times, got)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let (order, over) = schedule(&out.iter().map(|x| x.0.clone()).collect::<Vec<_>>());
    let mut s = format!("order {order:x} {over}\n");
    for (t, (_, got)) in out.iter().enumerate() {
        for (id, res) in calls[t].iter().zip(got) {
            s += &format!("call {id} {:016x} {}\n", hash64(res.as_bytes()), res.chars().filter(|c| !c.is_control()).take(300).collect::<String>());
        }
    }
    s += "end\n";
    print!("{s}");
    0
}
struct Cell0(std::cell::UnsafeCell<u64>);
unsafe impl Sync for Cell0 {}
static CELL: Cell0 = Cell0(std::cell::UnsafeCell::new(0));
/// A data race of the monitor's own making: ThreadSanitizer has to end this process.
fn control_child(what: &str) -> i32 {
    if what == "race" {
        std::thread::scope(|s| {
            for _ in 0..2 {
                s.spawn(|| {
                    for i in 0..1000 {
                        unsafe { CELL.0.get().write_volatile(i) };
                        std::thread::yield_now();
                    }
                });
            }
        });
        return 0;
    }
    std::thread::sleep(Duration::from_secs(60));
    0
}
/// How long one process of a handful of calls may take (alone it takes well under a second).
const CHILD_WALL_S: u64 = 120;
enum End {
    Done(String),
    Died(String),
    Stuck,
}
fn run_child(args: &[String], limit: Duration) -> Result<End, String> {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.arg("c17child").args(args).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    let mut p = c.spawn().map_err(|e| e.to_string())?;
    let (mut so, mut se) = (p.stdout.take().unwrap(), p.stderr.take().unwrap());
    let t1 = std::thread::spawn(move || {
        let mut b = vec![];
        let _ = so.read_to_end(&mut b);
        b
    });
    let t2 = std::thread::spawn(move || {
        let mut b = vec![];
        let _ = se.read_to_end(&mut b);
        b
    });
    let start = Instant::now();
    let st = loop {
        match p.try_wait().map_err(|e| e.to_string())? {
            Some(s) => break Some(s),
            None if start.elapsed() > limit => {
                let _ = p.kill();
                let _ = p.wait();
                break None;
            }
            None => std::thread::sleep(Duration::from_millis(if start.elapsed().as_millis() < 50 { 1 } else { 5 })),
        }
    };
    let out = String::from_utf8_lossy(&t1.join().unwrap()).to_string();
    let err = String::from_utf8_lossy(&t2.join().unwrap()).to_string();
    Ok(match st {
        None => End::Stuck,
        Some(s) if s.success() => End::Done(out),
        Some(s) => End::Died(format!("{s}: {}", err.chars().take(2500).collect::<String>())),
    })
}
struct Alone(Mutex<HashMap<u64, (u64, String)>>);
impl Alone {
    /// What call `id` gives when nothing else runs... in this process, where C21 has the results independent of history.
    fn of(&self, p: &Pool, id: u64) -> (u64, String) {
        if let Some(x) = self.0.lock().unwrap().get(&id) {
            return x.clone();
        }
        let s = spec::run(p, id).1;
        let v = (hash64(s.as_bytes()), s);
        self.0.lock().unwrap().insert(id, v.clone());
        v
    }
}
fn first_use(m: &mut Mon, r: &mut Rng, pool: &Pool, alone: &Alone, orders: &Mutex<HashSet<u64>>) -> R {
    let seed = r.u64();
    let out = match run_child(&[pool.seed.to_string(), seed.to_string()], Duration::from_secs(CHILD_WALL_S))? {
        End::Done(s) => s,
        End::Died(e) => return Err(format!("a process whose threads race for first use died: {e}; plan {:?}", plan(seed))),
        End::Stuck => return Err(format!("a process whose threads race for first use did not finish in {CHILD_WALL_S} s; plan {:?}", plan(seed))),
    };
    ensure!(out.ends_with("end\n"), "a process whose threads race for first use printed {out:?}");
    for l in out.lines() {
        let f: Vec<&str> = l.splitn(4, ' ').collect();
        match f[0] {
            "order" => {
                let h = u64::from_str_radix(f[1], 16).unwrap_or(0);
                orders.lock().unwrap().insert(h);
                m.seen(&[h.to_le_bytes(), seed.to_le_bytes()].concat());
                m.count_n("first use: calls begun while another was under way", f[2].parse().unwrap_or(0));
            }
            "call" => {
                let id: u64 = f[1].parse().map_err(|_| "bad report")?;
                let (h, s) = alone.of(pool, id);
                m.eval();
                ensure!(f[2] == format!("{h:016x}"), "racing with other first uses, a call gave another result:\n  call {}\n  alone  {}\n  racing {}", spec::run(pool, id).0, s, f.get(3).unwrap_or(&""));
                m.count("first use: calls");
            }
            _ => (),
        }
    }
    m.count("first use: processes");
    m.sample(|| format!("{:?}", plan(seed)));
    Ok(())
}

// ---- shared objects ------------------------------------------------------------------------------------
struct Shared {
    mn: Mnemonic,
    seed: Seed,
    prv: k::XPrv,
    xpub: k::XPub,
    path: k::DerivationPath,
    ek: k::ExtendedKey,
    list: Language,
    pass: String,
    raw: Vec<u8>,
}
impl Shared {
    /// Built the same way from the same seed every time.
    fn build(seed: u64) -> Shared {
        let mut g = Rng::new(seed, "shared", 0);
        let r = &mut g;
        let l = r.idx(2);
        let mn = Mnemonic::from_entropy(&gen::entropy(r), lists()[l].lang).unwrap();
        let pass = gen::passphrase(r);
        let sd = Seed::new(&mn, &pass);
        let prv = gen::lib_prv(&gen::prv(r, 200)).unwrap();
        let path: Vec<u32> = (0..r.range(0, 5)).map(|_| gen::index31(r)).collect();
        Shared { seed: sd, xpub: prv.public_key(), path: gen::lib_path(&path), ek: prv.to_extended_key(k::Prefix::XPRV), prv, list: lists()[l].lang, mn, pass, raw: r.bytes(32) }
    }
    /// One operation on the shared objects, rendered.
    fn op(&self, n: u64) -> String {
        let idx = (n / 24) as u32;
        let c = k::ChildNumber(idx);
        match n % 24 {
            0 => format!("{} {:?} {:x}", self.mn, self.mn, self.mn),
            1 => format!("{} {}", hex(&self.mn.as_bytes()), hex(self.mn.entropy())),
            2 => self.mn.clone().into_phrase(),
            3 => hex(Seed::new(&self.mn, &self.pass).as_bytes()),
            4 => format!("{:x} {:?} {}", self.seed, self.seed, hex(self.seed.clone().as_bytes())),
            5 => k::XPrv::new(self.seed.as_bytes()).map_or_else(|e| e.to_string(), |x| spec::show_prv(&x)),
            6 => k::XPrv::new_from_path(self.seed.as_bytes(), &self.path).map_or_else(|e| e.to_string(), |x| spec::show_prv(&x)),
            7 => self.prv.derive_child(c).map_or_else(|e| e.to_string(), |x| spec::show_prv(&x)),
            8 => self.prv.clone().derive_from_path(&self.path).map_or_else(|e| e.to_string(), |x| spec::show_prv(&x)),
            9 => self.xpub.derive_child(c).map_or_else(|e| e.to_string(), |x| spec::show_pub(&x)),
            10 => self.xpub.clone().derive_from_path(&self.path).map_or_else(|e| e.to_string(), |x| spec::show_pub(&x)),
            11 => format!("{} {:?}", spec::show_pub(&self.prv.public_key()), self.prv.public_key().fingerprint()),
            12 => format!("{} {}", self.prv.to_string(k::Prefix::XPRV).as_str(), self.xpub.to_string(k::Prefix::TPUB)),
            13 => format!("{} {:?}", self.prv == self.prv.clone(), bool::from(self.prv.ct_eq(&self.prv))),
            14 => format!("{} {:?} {}", self.path, self.path.parent().map(|p| p.to_string()), self.path.iter().map(|c| c.to_string()).collect::<String>()),
            15 => format!("{} {:?}", self.ek, k::XPrv::try_from(self.ek.clone()).map(|x| spec::show_prv(&x))),
            16 => format!("{:?}", self.prv),
            17 => format!("{:?}", self.prv.to_string(k::Prefix::XPRV).parse::<k::XPrv>().map(|x| spec::show_prv(&x))),
            18 => format!("{:?}", Mnemonic::from_phrase(self.mn.phrase(), self.list).map(|m| spec::show_mn(&m)).map_err(|e| e.to_string())),
            19 => format!("{:?} {:?}", Language::from_phrase(self.mn.phrase()), MnemonicType::for_phrase(self.mn.phrase()).map_err(|e| e.to_string())),
            20 => {
                let w = self.mn.phrase().split(' ').next().unwrap_or("");
                format!("{:?} {:?}", self.list.wordlist().get_words_by_prefix(&w.chars().take(1 + n as usize / 24 % 3).collect::<String>()), self.list.wordmap().get_bits(w).map(u16::from))
            }
            21 => format!("{:?}", kms::ecdsa_sign(self.prv.private_key(), &self.raw).map(|(s, v)| format!("{} {v}", hex(&s)))),
            22 => kms::crypto::ripemd(&self.raw),
            _ => format!("{} {}", self.mn.phrase(), self.path.to_string().parse::<k::DerivationPath>().map_or("error".into(), |p| p.to_string())),
        }
    }
}
fn shared(m: &mut Mon, r: &mut Rng, tsan: bool, orders: &Mutex<HashSet<u64>>) -> R {
    let seed = r.u64();
    let threads = *r.pick(&[2usize, 3, 4, 6, 8]);
    let per = r.range(2, if tsan { 10 } else { 24 });
    let hot: Vec<u64> = (0..r.range(1, 6)).map(|_| r.below(24) + 24 * r.below(1 << 27)).collect();
    let todo: Vec<Vec<u64>> = (0..threads).map(|_| (0..per).map(|_| if r.chance(2, 3) { *r.pick(&hot) } else { r.below(24) + 24 * r.below(1 << 27) }).collect()).collect();
    // alone: on objects of its own
    let mut want: HashMap<u64, String> = HashMap::new();
    let own = lib(|| Shared::build(seed))?;
    for n in todo.iter().flatten().chain(&hot) {
        if !want.contains_key(n) {
            want.insert(*n, lib(|| own.op(*n)).unwrap_or_else(|e| e));
        }
    }
    drop(own);
    let obj = lib(|| Shared::build(seed))?;
    let gate = Gate::new();
    let cores = std::thread::available_parallelism().map_or(1, |c| c.get() as u32);
    let out: Vec<(Vec<(u64, u64)>, Vec<String>)> = std::thread::scope(|s| {
        let hs: Vec<_> = todo
            .iter()
            .enumerate()
            .map(|(t, ids)| {
                let (gate, obj) = (&gate, &obj);
                s.spawn(move || {
                    let mut r = Rng::new(seed, "shared-jitter", t as u64);
                    let (mut times, mut got) = (vec![], vec![]);
                    gate.pass(threads as u32, cores / 2);
                    for n in ids {
                        jitter(&mut r);
                        let a = now();
                        let res = lib(|| obj.op(*n)).unwrap_or_else(|e| e);
                        times.push((a, now()));
                        got.push(res);
                    }
                    (times, got)
                })
            })
            .collect();
        // a stuck thread keeps us here; the watchdog sees this thread's call slot
        lib(|| hs.into_iter().map(|h| h.join().unwrap()).collect()).unwrap()
    });
    for (ids, (_, got)) in todo.iter().zip(&out) {
        for (n, res) in ids.iter().zip(got) {
            m.eval();
            ensure!(want[n] == *res, "operation {n} on shared objects (seed {seed:x}) gave, with {threads} threads, {res} and alone {}", want[n]);
        }
    }
    // nothing any thread did shows on the shared objects
    for n in hot {
        let again = lib(|| obj.op(n)).unwrap_or_else(|e| e);
        ensure_eq!(again, want[&n].clone(), "operation {n} on shared objects (seed {seed:x}) after {threads} threads used them");
    }
    let (order, over) = schedule(&out.iter().map(|x| x.0.clone()).collect::<Vec<_>>());
    orders.lock().unwrap().insert(order);
    m.seen(&order.to_le_bytes());
    m.count("shared: groups of threads");
    m.count_n("shared: calls begun while another was under way", over);
    m.sample(|| format!("{threads} threads, {per} operations each on one set of objects, {over} overlapping"));
    Ok(())
}
// ---- hammering -----------------------------------------------------------------------------------------
pub type Call = Box<dyn Fn() -> Vec<u8> + Send + Sync>;
/// Calls of one kind on `n` different arguments each, with as little around the call as possible: threads that do
/// nothing else meet inside the library all the time.
pub fn hammers(r: &mut Rng, n: usize) -> Vec<(&'static str, Vec<Call>)> {
    fn enc<T>(x: Result<T, k::Error>, f: impl Fn(&T) -> Vec<u8>) -> Vec<u8> {
        x.map_or_else(|e| format!("{e:?}").into_bytes(), |x| f(&x))
    }
    fn prv(x: &k::XPrv) -> Vec<u8> {
        let a = x.attrs();
        [&x.to_bytes()[..], &a.chain_code, &a.parent_fingerprint, &u32::from(a.child_number).to_be_bytes(), &[a.depth]].concat()
    }
    fn public(x: &k::XPub) -> Vec<u8> {
        let a = x.attrs();
        [&x.to_bytes()[..], &a.chain_code, &a.parent_fingerprint, &u32::from(a.child_number).to_be_bytes(), &[a.depth]].concat()
    }
    let mut all: Vec<(&'static str, Vec<Call>)> = vec![];
    macro_rules! kind {
        ($name:expr, $make:expr) => {{
            let mut v: Vec<Call> = vec![];
            for i in 0..n {
                #[allow(clippy::redundant_closure_call)]
                v.push(($make)(&mut *r, i));
            }
            all.push(($name, v));
        }};
    }
    let xprv = |r: &mut Rng| gen::lib_prv(&gen::prv(r, 200)).unwrap();
    let mnem = |r: &mut Rng, i: usize| Mnemonic::from_entropy(&gen::entropy(r), lists()[i % 2].lang).unwrap();
    kind!("fingerprint", |r: &mut Rng, _: usize| { let x = xprv(r).public_key(); Box::new(move || x.fingerprint().to_vec()) as Call });
    kind!("public key", |r: &mut Rng, _: usize| { let x = xprv(r); Box::new(move || public(&x.public_key())) as Call });
    kind!("private child", |r: &mut Rng, _: usize| { let (x, c) = (xprv(r), gen::index31(r)); Box::new(move || enc(x.derive_child(k::ChildNumber(c)), prv)) as Call });
    kind!("hardened child", |r: &mut Rng, _: usize| { let (x, c) = (xprv(r), gen::index31(r) | 1 << 31); Box::new(move || enc(x.derive_child(k::ChildNumber(c)), prv)) as Call });
    kind!("public child", |r: &mut Rng, i: usize| { let (x, c) = (xprv(r).public_key(), gen::index31(r) | ((i as u32 % 3 == 2) as u32) << 31); Box::new(move || enc(x.derive_child(k::ChildNumber(c)), public)) as Call });
    kind!("master key", |r: &mut Rng, i: usize| { let s = r.bytes([16, 32, 64, 128, 17][i % 5]); Box::new(move || enc(k::XPrv::new(&s), prv)) as Call });
    kind!("path from seed", |r: &mut Rng, _: usize| { let (s, p) = (r.bytes(64), gen::lib_path(&[gen::index31(r), gen::index31(r) | 1 << 31])); Box::new(move || enc(k::XPrv::new_from_path(&s, &p), prv)) as Call });
    kind!("private text", |r: &mut Rng, i: usize| { let x = xprv(r); let p = [k::Prefix::XPRV, k::Prefix::TPRV, k::Prefix::ZPRV][i % 3]; Box::new(move || x.to_string(p).as_bytes().to_vec()) as Call });
    kind!("public text", |r: &mut Rng, i: usize| { let x = xprv(r).public_key(); let p = [k::Prefix::XPUB, k::Prefix::TPUB, k::Prefix::YPUB][i % 3]; Box::new(move || x.to_string(p).into_bytes()) as Call });
    kind!("read private text", |r: &mut Rng, _: usize| { let t = xprv(r).to_string(k::Prefix::XPRV).to_string(); Box::new(move || enc(t.parse::<k::XPrv>(), prv)) as Call });
    kind!("read public text", |r: &mut Rng, _: usize| { let t = xprv(r).public_key().to_string(k::Prefix::XPUB); Box::new(move || enc(t.parse::<k::XPub>(), public)) as Call });
    kind!("read and print", |r: &mut Rng, i: usize| { let mut t = xprv(r).to_string(k::Prefix::XPRV).to_string(); if i % 3 == 1 { t.push('1') } Box::new(move || enc(t.parse::<k::ExtendedKey>(), |e| e.to_string().into_bytes())) as Call });
    kind!("compare", |r: &mut Rng, i: usize| { let x = xprv(r); let y = if i % 2 == 0 { x.clone() } else { xprv(r) }; Box::new(move || vec![(x == y) as u8, x.ct_eq(&y).unwrap_u8()]) as Call });
    kind!("debug", |r: &mut Rng, _: usize| { let x = xprv(r); Box::new(move || format!("{x:?}").into_bytes()) as Call });
    kind!("encode entropy", |r: &mut Rng, i: usize| { let (e, l) = (gen::entropy(r), lists()[i % 2].lang); Box::new(move || Mnemonic::from_entropy(&e, l).map_or(vec![], |m| m.phrase().as_bytes().to_vec())) as Call });
    kind!("decode phrase", |r: &mut Rng, i: usize| { let m = mnem(r, i); let mut p = m.phrase().to_string(); if i % 3 == 2 { p += " zoo" } let l = m.language(); Box::new(move || Mnemonic::from_phrase(&p, l).map_or_else(|e| e.to_string().into_bytes(), |m| m.entropy().to_vec())) as Call });
    kind!("validate phrase", |r: &mut Rng, i: usize| { let m = mnem(r, i); let mut p = m.phrase().to_string(); if i % 3 == 1 { p.pop(); } let l = m.language(); Box::new(move || format!("{:?}", Mnemonic::validate(&p, l).map_err(|e| e.to_string())).into_bytes()) as Call });
    kind!("mnemonic text", |r: &mut Rng, i: usize| { let m = mnem(r, i); Box::new(move || [format!("{m} {m:x}").into_bytes(), m.as_bytes()].concat()) as Call });
    kind!("seed", |r: &mut Rng, i: usize| { let (m, p) = (mnem(r, i), gen::passphrase(r).chars().take(20).collect::<String>()); Box::new(move || Seed::new(&m, &p).as_bytes().to_vec()) as Call });
    kind!("detect language", |r: &mut Rng, i: usize| { let p = if i % 3 == 2 { "zzz".to_string() } else { mnem(r, i).phrase().to_string() }; Box::new(move || format!("{:?}", Language::from_phrase(&p)).into_bytes()) as Call });
    kind!("language code", |_: &mut Rng, i: usize| { let c = ["en", "zh-cn", "EN", "zh-CN", "fr", ""][i % 6]; Box::new(move || format!("{:?}", Language::from_language_code(c)).into_bytes()) as Call });
    kind!("word index", |r: &mut Rng, i: usize| { let l = &lists()[i % 2]; let w = if i % 3 == 2 { format!("x{}", r.u32()) } else { l.words[r.idx(2048)].to_string() }; let g = l.lang; Box::new(move || g.wordmap().get_bits(&w).map_or(vec![], |b| u16::from(b).to_be_bytes().to_vec())) as Call });
    kind!("word index, ever other misses", |_: &mut Rng, i: usize| { let n = AtomicU32::new(0); let w = ["zoo", "abandon", "able"][i % 3]; Box::new(move || { let miss = format!("q{i}x{}", n.fetch_add(1, Relaxed)); let m = Language::English.wordmap(); vec![m.get_bits(&miss).is_ok() as u8, m.get_bits(w).is_ok() as u8] }) as Call });
    kind!("indexed word", |r: &mut Rng, i: usize| { let (g, n) = (lists()[i % 2].lang, r.below(2048) as u16); Box::new(move || g.wordlist().get_word(n.into()).as_bytes().to_vec()) as Call });
    kind!("prefix search", |r: &mut Rng, i: usize| { let l = &lists()[i % 2]; let w: String = l.words[r.idx(2048)].chars().take(1 + i % 3).collect(); let g = l.lang; Box::new(move || g.wordlist().get_words_by_prefix(&w).join(" ").into_bytes()) as Call });
    kind!("mnemonic size", |r: &mut Rng, i: usize| { let p = mnem(r, i).phrase().to_string(); Box::new(move || format!("{:?}", MnemonicType::for_phrase(&p).map_err(|e| e.to_string())).into_bytes()) as Call });
    kind!("read path", |r: &mut Rng, _: usize| { let p = gen::lib_path(&(0..r.range(0, 6)).map(|_| gen::child(r)).collect::<Vec<_>>()).to_string(); Box::new(move || enc(p.parse::<k::DerivationPath>(), |p| p.iter().flat_map(|c| c.to_bytes()).collect())) as Call });
    kind!("print path", |r: &mut Rng, _: usize| { let p = gen::lib_path(&(0..r.range(0, 6)).map(|_| gen::child(r)).collect::<Vec<_>>()); Box::new(move || format!("{p} {:?}", p.parent()).into_bytes()) as Call });
    kind!("letters of a version", |r: &mut Rng, i: usize| { let v = if i % 2 == 0 { r.u32() } else { [0x0488ade4, 0x0488b21e, 0x04358394][i / 2 % 3] }; Box::new(move || enc(k::Prefix::try_from(v), |p| format!("{p:?}").into_bytes())) as Call });
    kind!("sign", |r: &mut Rng, _: usize| { let (x, d) = (xprv(r), r.bytes(32)); Box::new(move || kms::ecdsa_sign(x.private_key(), &d).map_or(vec![], |(s, v)| [&s[..], &[v]].concat())) as Call });
    kind!("ripemd", |r: &mut Rng, i: usize| { let b = r.bytes(i * 30); Box::new(move || kms::crypto::ripemd(&b).into_bytes()) as Call });
    all
}
extern "C" fn hold_up(_: libc::c_int) {
    // a thread stopped here may be anywhere inside a library call
    static N: AtomicU32 = AtomicU32::new(0);
    let n = N.fetch_add(0x9e3779b9, Relaxed);
    if n % 3 == 0 {
        unsafe { libc::sched_yield() };
    } else {
        (0..n >> 21).for_each(|_| std::hint::spin_loop());
    }
}
/// Threads that do nothing but call, on arguments of their own and shared ones, interrupted at random points.
fn hammer(env: &'static Env, m: &mut Mon, r: &mut Rng, i: u64, sizes: &[usize], millis: u64, disturb: bool) -> R {
    let threads = *r.pick(sizes);
    let all = lib(|| hammers(r, 8))?;
    let kinds: Vec<usize> = if i < all.len() as u64 { vec![i as usize] } else { (0..r.range(2, 4)).map(|_| r.idx(all.len())).collect() };
    let spread = r.range(1, 9) as usize;
    let name = kinds.iter().map(|k| all[*k].0).collect::<Vec<_>>().join(" + ");
    let jobs: Vec<(&'static str, &Call, Vec<u8>)> = kinds
        .iter()
        .flat_map(|k| all[*k].1.iter().take(spread.max(2)).map(|c| (all[*k].0, c)).collect::<Vec<_>>())
        .map(|(n, c)| lib(|| c()).map(|w| (n, c, w)))
        .collect::<Result<_, _>>()?;
    let order: Vec<Vec<usize>> = (0..threads).map(|_| (0..r.range(1, 7)).map(|_| r.idx(jobs.len())).collect()).collect();
    let (gate, stop) = (Gate::new(), AtomicBool::new(false));
    let cores = std::thread::available_parallelism().map_or(1, |c| c.get() as u32);
    let ids: Mutex<Vec<libc::pthread_t>> = Mutex::new(vec![]);
    let (tx, rx) = std::sync::mpsc::channel::<()>();
    let wrong: Mutex<Vec<String>> = Mutex::new(vec![]);
    let mut held = 0u64;
    let calls: u64 = std::thread::scope(|s| {
        let hs: Vec<_> = order
            .iter()
            .map(|mine| {
                let (gate, stop, jobs, wrong, ids, tx) = (&gate, &stop, &jobs, &wrong, &ids, tx.clone());
                s.spawn(move || {
                    crate::mon::quiet();
                    ids.lock().unwrap().push(unsafe { libc::pthread_self() });
                    gate.pass(threads as u32, cores);
                    let (mut n, mut at) = (0u64, 0);
                    while !stop.load(Relaxed) {
                        let (name, call, want) = &jobs[mine[at]];
                        at = (at + 1) % mine.len();
                        n += 1;
                        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(call)) {
                            Ok(got) if got == *want => (),
                            got => {
                                let got = got.map_or("a panic".into(), |g| format!("{:?}", String::from_utf8_lossy(&g)));
                                wrong.lock().unwrap().push(format!("\"{name}\" while {threads} threads hammered {name} gave {got}, alone {:?}", String::from_utf8_lossy(want)));
                                break;
                            }
                        }
                    }
                    drop(tx);
                    n
                })
            })
            .collect();
        drop(tx);
        let end = Instant::now() + Duration::from_millis(millis);
        while Instant::now() < end {
            if disturb {
                let ids = ids.lock().unwrap();
                if ids.len() == threads {
                    unsafe { libc::pthread_kill(ids[r.idx(threads)], libc::SIGUSR2) };
                    held += 1;
                }
                drop(ids);
                (0..r.below(300)).for_each(|_| std::hint::spin_loop());
            } else {
                std::thread::sleep(Duration::from_millis(2));
            }
        }
        stop.store(true, Relaxed);
        // every call takes milliseconds: threads that do not come back are blocked for ever
        if let Err(std::sync::mpsc::RecvTimeoutError::Timeout) = rx.recv_timeout(Duration::from_secs(CHILD_WALL_S)) {
            env.violation("hammer", i, format!("threads hammering {name} did not come back within {CHILD_WALL_S} s"));
            crate::mon::finish(env);
            std::process::exit(0);
        }
        hs.into_iter().map(|h| h.join().unwrap()).sum()
    });
    if let Some(w) = wrong.lock().unwrap().first() {
        return Err(w.clone());
    }
    m.evals += calls;
    m.seen(&[&i.to_le_bytes()[..], &r.u64().to_le_bytes()].concat());
    m.count_n("hammered: calls compared", calls);
    m.count_n("hammered: threads held up inside", held);
    m.sample(|| format!("{threads} threads made {calls} calls: {name}"));
    Ok(())
}
/// All threads of the worker run unrelated calls; results as alone.
fn mixed(m: &mut Mon, r: &mut Rng, pool: &Pool, table: &[(u64, u64, String)]) -> R {
    let (id, h, s) = r.pick(table);
    jitter(r);
    let (d, got) = spec::run(pool, *id);
    m.eval();
    ensure!(hash64(got.as_bytes()) == *h, "among other threads' calls, a call gave another result:\n  call {d}\n  alone {s}\n  now   {got}");
    Ok(())
}
/// Very many threads alive at once, then very many one after another; more than any fixed number of places kept for
/// threads would hold. Some sit inside a call (in the caller's code) while the others go on.
fn crowd(m: &mut Mon, r: &mut Rng, pool: &Pool, table: &[(u64, u64, String)], threads: usize, after: usize) -> R {
    let seed = r.u64();
    let (gate, leave) = (Gate::new(), Gate::new());
    let wrong: Mutex<Option<String>> = Mutex::new(None);
    let one = |r: &mut Rng| {
        let (id, h, s) = r.pick(table);
        let (d, got) = spec::run(pool, *id);
        if hash64(got.as_bytes()) != *h {
            *wrong.lock().unwrap() = Some(format!("call {d}\n  alone {s}\n  now   {got}"));
        }
    };
    lib(|| {
        std::thread::scope(|s| {
            for t in 0..threads {
                let (gate, leave, one, wrong) = (&gate, &leave, &one, &wrong);
                s.spawn(move || {
                    crate::mon::quiet();
                    let mut r = Rng::new(seed, "crowd", t as u64);
                    one(&mut r);
                    gate.pass(threads as u32, 0);
                    let b = r.bytes(64);
                    let want = k::XPrv::new(&b).map(|x| spec::show_prv(&x));
                    let got = k::XPrv::new(Slow(&b)).map(|x| spec::show_prv(&x));
                    if got != want {
                        *wrong.lock().unwrap() = Some(format!("master key of {} alone {want:?}, in a call that takes long {got:?}", hex(&b)));
                    }
                    for _ in 0..2 {
                        one(&mut r);
                    }
                    leave.pass(threads as u32, 0);
                    one(&mut r);
                });
            }
        });
        for t in 0..after {
            std::thread::scope(|s| {
                s.spawn(|| {
                    crate::mon::quiet();
                    one(&mut Rng::new(seed, "crowd-after", t as u64));
                });
            });
        }
    })?;
    m.evals += (threads * 5 + after) as u64;
    m.seen(&seed.to_le_bytes());
    m.count_n("crowd: threads alive at once", threads as u64);
    m.count_n("crowd: threads one after another", after as u64);
    if let Some(w) = wrong.lock().unwrap().take() {
        return Err(format!("with {threads} threads in the process, a call gave another result: {w}"));
    }
    Ok(())
}
struct Slow<'a>(&'a [u8]);
impl AsRef<[u8]> for Slow<'_> {
    fn as_ref(&self) -> &[u8] {
        std::thread::sleep(Duration::from_millis(3));
        self.0
    }
}
/// Objects handed from thread to thread, used and dropped elsewhere.
fn handoff(m: &mut Mon, r: &mut Rng) -> R {
    let seed = r.u64();
    let mut n0 = vec![];
    for _ in 0..6 {
        n0.push(r.below(24) + 24 * r.below(1 << 27));
    }
    let want: Vec<String> = lib(|| {
        let own = Shared::build(seed);
        n0.iter().map(|n| own.op(*n)).collect()
    })?;
    let made = lib(|| Shared::build(seed))?;
    let ns = n0.clone();
    let r1 = lib(|| {
        std::thread::spawn(move || {
            crate::mon::quiet();
            let a: Vec<String> = ns[..2].iter().map(|n| made.op(*n)).collect();
            let ns2 = ns.clone();
            let b = std::thread::spawn(move || {
                crate::mon::quiet();
                let a: Vec<String> = ns2[2..].iter().map(|n| made.op(*n)).collect();
                drop(made);
                a
            })
            .join()
            .map_err(|_| "a thread panicked")?;
            Ok::<_, &str>([a, b].concat())
        })
        .join()
        .map_err(|_| "a thread panicked")?
    })?;
    m.eval();
    ensure_eq!(r1, Ok::<_, &str>(want), "operations {n0:?} on objects (seed {seed:x}) passed between threads");
    m.count("hand-offs");
    Ok(())
}

pub fn c17(env: &'static Env) {
    let tsan = env.variant == "tsan";
    env.rule("Fresh processes whose threads are released together into their first library calls, and threads sharing one set of objects, at random offsets, thread counts and core counts; single calls hammered by 2 to 300 threads that a signal handler holds up inside; 400 threads alive at once and 800 after another; every result compared with the same call made alone; in the tsan build ThreadSanitizer watches every memory access. Non-trivial: a distinct observed interleaving of call starts and ends.");
    env.assume("ThreadSanitizer sees the accesses of the executed schedules; a process of a few calls that does not finish in 120 s counts as deadlocked");
    if env.only.is_none() {
        match run_child(&["control".into(), "race".into()], Duration::from_secs(60)) {
            Ok(End::Died(e)) if tsan && e.contains("data race") => env.with("control", |m| m.count("control: a planted data race was reported")),
            Ok(End::Done(_)) if !tsan => (),
            x => {
                eprintln!("the race monitor does not work here: {}", match x { Ok(End::Died(e)) => e, Ok(End::Done(_)) => "the planted race went unnoticed".into(), Ok(End::Stuck) => "stuck".into(), Err(e) => e });
                std::process::exit(2);
            }
        }
        if let Ok(End::Stuck) = run_child(&["control".into(), "stuck".into()], Duration::from_millis(300)) {
            env.with("control", |m| m.count("control: a stuck process was noticed"));
        }
    }
    let scale = if tsan { 4 } else { 1 };
    let pool = Pool::new(env.seed);
    let alone = Alone(Mutex::new(HashMap::new()));
    let orders = Mutex::new(HashSet::new());
    // children are multi-threaded themselves: a few at a time
    env.phase_t("first-use", env.n(1600, 60_000) / scale, 4, |m, r, _| first_use(m, r, &pool, &alone, &orders));
    env.phase_t("shared", env.n(1200, 40_000) / scale, 3, |m, r, _| shared(m, r, tsan, &orders));
    let table: Vec<(u64, u64, String)> = {
        let mut r = Rng::new(env.seed, "race-table", 0);
        (0..if env.wants("mixed") || env.wants("crowd") { 400 } else { 0 }).map(|_| {
            let id = r.below(1 << 20) * spec::KINDS + r.below(spec::KINDS);
            let s = spec::run(&pool, id).1;
            (id, hash64(s.as_bytes()), s)
        }).collect()
    };
    env.phase_t("mixed", env.n(40_000, 1_500_000) / scale / scale, env.threads * 2, |m, r, _| mixed(m, r, &pool, &table));
    unsafe { libc::signal(libc::SIGUSR2, hold_up as extern "C" fn(libc::c_int) as usize) };
    let (n, millis) = if tsan { (env.n(40, 400), 120) } else { (env.n(60, 1200), 250) };
    env.phase_t("hammer", n, 1, |m, r, i| hammer(env, m, r, i, &[2, 4, 6, 8, 8, 12, 16], millis, !tsan));
    // far more threads than cores: of those that run, any two may share what is kept for a bounded number of threads
    let sizes: &[usize] = if tsan { &[40, 80] } else { &[40, 80, 150, 300] };
    env.phase_t("hammer-crowd", if tsan { env.n(6, 60) } else { env.n(33, 600) }, 1, |m, r, i| hammer(env, m, r, if tsan { 99 } else { i }, sizes, 150, !tsan));
    let (many, after) = if tsan { (90, 60) } else { (400, 800) };
    env.phase_t("crowd", if tsan { env.n(2, 20) } else { env.n(3, 60) }, 1, |m, r, _| crowd(m, r, &pool, &table, many, after));
    env.phase("hand-off", env.n(2000, 60_000) / scale, |m, r, _| handoff(m, r));
    let n = orders.lock().unwrap().len() as u64;
    env.with("orders", |m| m.count_n("distinct interleavings of call starts and ends", n));
}

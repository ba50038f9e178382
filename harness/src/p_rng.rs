//! C04: what the operating system's random source contributes to generated mnemonics.
use crate::mon::{lib, verif_dir, Env, R};
use crate::oracle::bip39::{self as o, SIZES};
use crate::oracle::{hex, unhex};
use crate::p_bip39::check_mnemonic;
use crate::{ensure, ensure_eq};
use kms::bip39::{Mnemonic, MnemonicType};
use std::collections::{HashMap, HashSet};
use std::io::{Read, Write};
use std::os::unix::io::FromRawFd;
use std::process::{Command, Stdio};
use std::sync::{Barrier, Mutex};

#[repr(C)]
#[derive(Clone, Copy, Debug)]
struct Cfg {
    seed: u64,
    flip: i64,
    fail_at: u64,
    fail_errno: i32,
    dev_errno: i32,
    dev_stage: i32,
    no_syscall: i32,
    max_chunk: u64,
    eintr: u64,
    pattern: u64,
}
const OK: Cfg = Cfg { seed: 0, flip: -1, fail_at: u64::MAX, fail_errno: 0, dev_errno: 0, dev_stage: 0, no_syscall: 0, max_chunk: 0, eintr: 0, pattern: 0 };
#[derive(Clone, Copy, Debug, Default)]
struct Served {
    bytes: u64,
    calls: u64,
    faults: u64,
}

fn sym(name: &[u8]) -> *mut libc::c_void {
    let p = unsafe { libc::dlsym(libc::RTLD_DEFAULT, name.as_ptr() as *const _) };
    if p.is_null() {
        eprintln!("the random-source stand-in is not loaded");
        std::process::exit(2);
    }
    p
}
fn arm(c: &Cfg) {
    let f: extern "C" fn(*const Cfg) = unsafe { std::mem::transmute(sym(b"kmsfake_arm\0")) };
    f(c)
}
fn disarm() -> Served {
    let f: extern "C" fn(*mut u64) = unsafe { std::mem::transmute(sym(b"kmsfake_disarm\0")) };
    let mut o = [0u64; 3];
    f(o.as_mut_ptr());
    Served { bytes: o[0], calls: o[1], faults: o[2] }
}

fn mtype(s: usize) -> MnemonicType {
    [MnemonicType::Words12, MnemonicType::Words15, MnemonicType::Words18, MnemonicType::Words21, MnemonicType::Words24][s]
}
fn gen(s: usize, l: usize) -> Mnemonic {
    Mnemonic::new(mtype(s), o::lists()[l].lang)
}
/// Generates under an armed source; Err only for a panic.
fn armed(c: &Cfg, s: usize, l: usize) -> (Result<Mnemonic, String>, Served) {
    arm(c);
    let r = lib(|| gen(s, l));
    let v = disarm();
    (r, v)
}
/// A generated mnemonic is valid, of the requested size and language.
fn well_formed(m: &Mnemonic, s: usize, l: usize) -> Result<Vec<u8>, String> {
    let e = m.entropy().to_vec();
    ensure_eq!(e.len(), SIZES[s], "entropy bytes of a generated {:?} mnemonic", mtype(s));
    check_mnemonic(m, &e, &o::sentence(&e, l), l, false)?;
    Ok(e)
}
fn enough(v: &Served, s: usize, what: &dyn Fn() -> String) -> R {
    ensure!(
        v.bytes >= SIZES[s] as u64,
        "a mnemonic of {} entropy bits was generated from only {} bits of the operating system's random source ({} requests) {}",
        SIZES[s] * 8,
        v.bytes * 8,
        v.calls,
        what()
    );
    Ok(())
}

/// Rank over GF(2) of the affine span of the rows.
fn affine_rank(rows: &[Vec<u8>]) -> usize {
    let mut piv: HashMap<usize, Vec<u8>> = HashMap::new();
    for r in rows.iter().skip(1) {
        let mut v: Vec<u8> = r.iter().zip(&rows[0]).map(|(a, b)| a ^ b).collect();
        while let Some(p) = (0..v.len() * 8).find(|i| v[i / 8] >> (i % 8) & 1 == 1) {
            match piv.get(&p) {
                Some(q) => v.iter_mut().zip(q).for_each(|(a, b)| *a ^= b),
                None => {
                    piv.insert(p, v);
                    break;
                }
            }
        }
    }
    piv.len()
}

/// 8-byte windows of every generated entropy; a second sighting is a repeat.
#[derive(Default)]
struct Seen {
    win: HashMap<[u8; 8], (String, usize)>,
    repeats: Vec<String>,
}
impl Seen {
    fn add(&mut self, e: &[u8], who: &str) {
        for (k, w) in e.chunks_exact(8).enumerate() {
            if let Some((other, at)) = self.win.insert(w.try_into().unwrap(), (who.to_string(), k)) {
                if self.repeats.len() < 3 {
                    self.repeats.push(format!("64 bits of entropy {} ({who}, part {k}) had already come up ({other}, part {at})", hex(e)));
                }
            }
        }
    }
}

/// How often things came up in a sample of generated entropies.
struct Tally {
    len: usize,
    n: u64,
    hist: Vec<[u32; 256]>,
    alike: Vec<u32>, // byte p equals byte q
    ones: Vec<u32>,  // number of set bits
    word: Vec<[u32; 2048]>,
    repeated_word: u64,
    rows: Vec<Vec<u8>>,
}
impl Tally {
    fn new(len: usize) -> Tally {
        Tally { len, n: 0, hist: vec![[0; 256]; len], alike: vec![0; len * len], ones: vec![0; len * 8 + 1], word: vec![[0; 2048]; len * 8 / 11], repeated_word: 0, rows: vec![] }
    }
    fn add(&mut self, e: &[u8]) {
        self.n += 1;
        for p in 0..e.len() {
            self.hist[p][e[p] as usize] += 1;
            for q in 0..p {
                self.alike[p * self.len + q] += (e[p] == e[q]) as u32;
            }
        }
        self.ones[e.iter().map(|b| b.count_ones()).sum::<u32>() as usize] += 1;
        let w = o::indices(e);
        let mut sorted = w.clone();
        sorted.sort();
        self.repeated_word += sorted.windows(2).any(|x| x[0] == x[1]) as u64;
        self.word.iter_mut().zip(&w).for_each(|(h, w)| h[*w] += 1);
        if self.rows.len() < self.len * 8 + 80 {
            self.rows.push(e.to_vec());
        }
    }
    fn merge(&mut self, o: Tally) {
        fn sum<'a>(a: impl Iterator<Item = &'a mut u32>, b: impl Iterator<Item = &'a u32>) {
            a.zip(b).for_each(|(x, y)| *x += y)
        }
        self.n += o.n;
        sum(self.hist.iter_mut().flatten(), o.hist.iter().flatten());
        sum(self.alike.iter_mut(), o.alike.iter());
        sum(self.ones.iter_mut(), o.ones.iter());
        sum(self.word.iter_mut().flatten(), o.word.iter().flatten());
        self.repeated_word += o.repeated_word;
        self.rows.extend(o.rows);
        self.rows.truncate(self.len * 8 + 80);
    }
    /// Every bound is ten deviations or more away: no chance event comes near.
    fn judge(&self, m: &mut crate::mon::Mon) -> R {
        let (len, n) = (self.len, self.n as f64);
        let what = format!("{} generated {len}-byte entropies", self.n);
        let z = |seen: u64, p: f64| (seen as f64 - n * p) / (n * p * (1.0 - p)).sqrt();
        let chi = |h: &[u32]| {
            let e = n / h.len() as f64;
            let x: f64 = h.iter().map(|x| (*x as f64 - e).powi(2) / e).sum();
            (x - (h.len() - 1) as f64) / (2.0 * (h.len() - 1) as f64).sqrt()
        };
        let rk = affine_rank(&self.rows);
        ensure!(rk == len * 8, "{} generated entropies of {} bits only span {rk} dimensions", self.rows.len(), len * 8);
        for (p, h) in self.hist.iter().enumerate() {
            let x = chi(h);
            m.max("deviations of a byte position's chi-square (in hundredths)", (x.max(0.0) * 100.0) as u64);
            ensure!(x < 14.0, "byte {p} of {what} is not uniform: its chi-square is {x:.0} deviations too high; value 0 came up {} times where {:.0} are expected", h[0], n / 256.0);
            for b in 0..8 {
                let ones: u64 = (0..256).filter(|v| v >> b & 1 == 1).map(|v| h[v] as u64).sum();
                ensure!(z(ones, 0.5).abs() < 10.0, "bit {b} of byte {p} of {what} is biased: set {ones} times");
            }
            for q in 0..p {
                let k = self.alike[p * len + q] as u64;
                ensure!(z(k, 1.0 / 256.0).abs() < 10.0, "bytes {q} and {p} of {what} are equal {k} times, expected {:.0}", n / 256.0);
            }
        }
        for (p, h) in self.word.iter().enumerate() {
            let x = chi(h);
            ensure!(x < 14.0, "word {p} of the phrases of {what} is not uniform: chi-square {x:.0} deviations too high");
        }
        let words = (len * 8 + len / 4) / 11;
        let distinct: f64 = (0..words).map(|i| 1.0 - i as f64 / 2048.0).product();
        let x = z(self.repeated_word, 1.0 - distinct);
        m.count_n("generated phrases with a repeated word", self.repeated_word);
        ensure!(x.abs() < 10.0, "{} of {what} have a phrase with a repeated word, expected {:.0}", self.repeated_word, n * (1.0 - distinct));
        // number of set bits: binomial
        let mut p = 0.5f64.powi((len * 8) as i32);
        for (k, h) in self.ones.iter().enumerate() {
            if n * p > 100.0 {
                ensure!(z(*h as u64, p).abs() < 10.0, "{h} of {what} have {k} set bits, expected {:.0}", n * p);
            }
            p *= (len * 8 - k) as f64 / (k + 1) as f64;
        }
        Ok(())
    }
}

fn child(kind: &str, args: &[String]) -> Command {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.arg("c04child").arg(kind).args(args).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::inherit());
    c
}

/// Builds the stand-in and tells the worker to load it.
pub fn preload() -> Vec<(String, String)> {
    let so = format!("{}/.build/osrng.so", verif_dir().replace("/harness/..", ""));
    let tmp = format!("{so}.{}", std::process::id());
    let src = format!("{}/shim/osrng.c", env!("CARGO_MANIFEST_DIR"));
    let ok = Command::new("gcc").args(["-O1", "-shared", "-fPIC", "-o", &tmp, &src]).status().map_or(false, |s| s.success());
    if !ok || std::fs::rename(&tmp, &so).is_err() {
        eprintln!("cannot compile the random-source stand-in");
        std::process::exit(2);
    }
    vec![("LD_PRELOAD".into(), so)]
}

pub fn c04(env: &'static Env) {
    env.rule("Generation runs with the operating system's random source replaced by a recorded, reproducible stream (getrandom, getentropy, raw SYS_getrandom, /dev/urandom, /dev/random). Counted: per (size, language, stream) every stream bit is flipped and the resulting entropy compared; rank of the outputs over GF(2) across streams and over two calls in a row; every failure position, error number, short read and interruption in warm and fresh processes; 64-bit windows of real outputs compared within a sequence, across threads, processes and forks. Non-trivial: a distinct generated entropy or a distinct fault plan that was applied.");
    env.assume("entropy is judged by what is read from the operating system during the call: the quality of the operating system's source itself is taken for granted");
    env.assume("a 64-bit coincidence among the outputs compared (chance below 1e-6) would be reported as a repeat");

    // every bit of the output space is reached by OS bits, and by at least as many as promised
    env.phase_t("bits", 10 * 12 * env.n(2, 20), 1, |m, r, i| {
        let (s, l) = (i as usize % 5, i as usize / 5 % 2);
        // random streams, and unlikely ones (constant, periodic, leading zeros, ...): no stream may be treated as unfit
        let base = Cfg { pattern: i / 10 % 12, seed: r.u64(), max_chunk: *r.pick(&[0, 0, 1, 3, 7, 16]), eintr: *r.pick(&[0, 0, 2, 3]), ..OK };
        let (a, v) = armed(&base, s, l);
        let a = well_formed(&a?, s, l)?;
        enough(&v, s, &|| format!("({base:?})"))?;
        let (b, _) = armed(&base, s, l);
        let b = well_formed(&b?, s, l)?;
        m.eval();
        m.seen(&a);
        m.count_n("stream bytes served", v.bytes);
        m.count_n("short reads and interruptions injected", v.faults);
        if a != b {
            m.count("streams whose output also depends on something else");
            return Ok(());
        }
        let bits = (v.bytes * 8).min(8192);
        let mut live = 0u64;
        let mut outputs = HashSet::from([a.clone()]);
        let mut hit = vec![0u8; a.len()];
        for f in 0..bits {
            let (x, _) = armed(&Cfg { flip: f as i64, ..base }, s, l);
            let x = well_formed(&x?, s, l)?;
            m.eval();
            m.seen(&x);
            outputs.insert(x.clone());
            if x != a {
                live += 1;
                hit.iter_mut().zip(x.iter().zip(&a)).for_each(|(h, (p, q))| *h |= p ^ q);
            }
        }
        m.count_n("stream bits flipped", bits);
        m.count_n("stream bits that changed the entropy", live);
        m.sample(|| format!("{} {:?}: entropy {} from {} stream bits, {live} of which change it", o::lists()[l].name, mtype(s), hex(&a), bits));
        ensure!(live >= SIZES[s] as u64 * 8, "only {live} bits of the operating system's random source influence a mnemonic that promises {} bits", SIZES[s] * 8);
        ensure!(
            outputs.len() > SIZES[s] * 8,
            "a stream and its {bits} single-bit variations only give {} different entropies of {} bits ({base:?}, entropy {})",
            outputs.len(), SIZES[s] * 8, hex(&a)
        );
        let fixed: u32 = hit.iter().map(|h| h.count_zeros()).sum();
        ensure!(fixed == 0, "{fixed} of the {} entropy bits do not depend on the operating system's random source (mask {})", SIZES[s] * 8, hex(&hit));
        Ok(())
    });

    // outputs over many streams span the whole space: alone, and two calls in a row
    env.phase_t("rank", 10, 1, |m, r, i| {
        let (s, l) = (i as usize % 5, i as usize / 5);
        let n = SIZES[s] * 8;
        let (mut one, mut two) = (vec![], vec![]);
        for k in 0..2 * n + 80 {
            let c = Cfg { seed: r.u64(), ..OK };
            arm(&c);
            let x = lib(|| gen(s, l));
            let v1 = disarm();
            let e1 = well_formed(&x?, s, l)?;
            enough(&v1, s, &|| format!("(call {k})"))?;
            arm(&c);
            let _ = lib(|| gen(s, l));
            let y = lib(|| gen(s, 1 - l));
            let v2 = disarm();
            let e2 = well_formed(&y?, s, 1 - l)?;
            ensure!(v2.bytes >= 2 * SIZES[s] as u64, "two mnemonics of {n} bits were generated in a row from only {} bits of the random source", v2.bytes * 8);
            m.eval();
            m.seen(&e1);
            let mut both = e1.clone();
            both.extend(&e2);
            one.push(e1);
            two.push(both);
        }
        let (a, b) = (affine_rank(&one), affine_rank(&two));
        m.count_n("output space rank", a as u64);
        ensure!(a == n, "over {} random streams the {n} entropy bits only span {a} dimensions: bits are constant or tied to each other", one.len());
        ensure!(b == 2 * n, "two mnemonics generated in a row only span {b} of {} dimensions: their entropies are tied to each other", 2 * n);
        Ok(())
    });

    // failures of the source
    let errs = [libc::EIO, libc::ENOSYS, libc::EPERM, libc::EAGAIN, libc::EFAULT, libc::EINVAL];
    let dev = [(libc::ENOENT, 0), (libc::EACCES, 0), (libc::EMFILE, 0), (libc::EIO, 1), (libc::EBADF, 1), (0, 0)];
    let judge = |m: &mut crate::mon::Mon, c: &Cfg, s: usize, l: usize, out: &str, how: &str| -> R {
        // "E <entropy> <bytes> <calls> <faults>" or "P <bytes> <calls> <faults>"; nothing when the process died
        m.eval();
        m.seen(format!("{how} {c:?} {s} {l}").as_bytes());
        let w: Vec<&str> = out.split_whitespace().collect();
        let (made, nums) = match w.first() {
            Some(&"E") => (Some(w[1]), &w[2..]),
            Some(&"P") => (None, &w[1..]),
            _ => {
                m.count("failing source: process ended");
                return Ok(());
            }
        };
        let n: Vec<u64> = nums.iter().map(|x| x.parse().unwrap_or(0)).collect();
        let v = Served { bytes: n[0], calls: n[1], faults: n[2] };
        m.count_n("source failures injected", v.faults);
        match made {
            None => m.count("failing source: refused to generate"),
            Some(e) => {
                m.count("generated from what the source still gave");
                ensure!(unhex(e).map(|x| x.len()) == Some(SIZES[s]), "generated entropy {e} under {c:?} has the wrong size");
                enough(&v, s, &|| format!("although the source failed: {c:?} ({how}); its entropy was {e}"))?;
            }
        }
        m.sample(|| format!("{how} {:?} {c:?} -> {out}", mtype(s)));
        Ok(())
    };
    let plan = |r: &mut crate::rng::Rng, i: u64| {
        let (s, l) = (i as usize % 5, i as usize / 5 % 2);
        let need = SIZES[s] as u64;
        let mut c = Cfg { seed: r.u64(), fail_errno: *r.pick(&errs), fail_at: r.below(need), max_chunk: *r.pick(&[0, 0, 1, 5, 8]), eintr: *r.pick(&[0, 0, 0, 2]), ..OK };
        (c.dev_errno, c.dev_stage) = *r.pick(&dev);
        match r.below(4) {
            0 => c.fail_at = 0,
            1 => c.fail_at = need - 1,
            2 => {
                c.no_syscall = *r.pick(&[libc::ENOSYS, libc::EPERM, libc::EIO]);
                if r.chance(1, 3) {
                    c.fail_at = u64::MAX; // only the system call is gone: the device may still serve
                }
            }
            _ => (),
        }
        (c, s, l)
    };
    env.phase_t("faults", env.n(1200, 12000), 1, |m, r, i| {
        let (c, s, l) = plan(r, i);
        let warm = r.below(3);
        let out = forked(|w| {
            for _ in 0..warm {
                let _ = lib(|| gen(s, l));
            }
            w(&one_armed(&c, s, l));
        });
        judge(m, &c, s, l, &out, &format!("after {warm} good calls"))?;
        // the source has recovered: generation works again
        let g = lib(|| gen(s, l))?;
        well_formed(&g, s, l).map(|_| ())
    });
    env.phase("faults-fresh", env.n(240, 2400), |m, r, i| {
        let (mut c, s, l) = plan(r, i);
        if i % 6 == 0 {
            // the system call is missing but the device works (an old kernel)
            c = Cfg { seed: c.seed, no_syscall: libc::ENOSYS, max_chunk: c.max_chunk, eintr: c.eintr, ..OK };
        }
        let bytes: Vec<u8> = unsafe { std::slice::from_raw_parts(&c as *const Cfg as *const u8, std::mem::size_of::<Cfg>()) }.to_vec();
        let out = child("fault", &[hex(&bytes), s.to_string(), l.to_string()]).output().map_err(|e| e.to_string())?;
        judge(m, &c, s, l, &String::from_utf8_lossy(&out.stdout), "fresh process")
    });
    // a failure in the middle of a run of calls: later calls are whole again, and nothing is carried over
    env.phase_t("recovery", env.n(400, 4000), 1, |m, r, i| {
        let (mut c, s, l) = plan(r, i);
        c.dev_errno = libc::EIO;
        let base = Cfg { seed: c.seed, ..OK };
        let (a, _) = armed(&base, s, l);
        let a = well_formed(&a?, s, l)?;
        let out = forked(|w| {
            let x = one_armed(&c, s, l);
            let y = one_armed(&base, s, l);
            w(&format!("{x}\n{y}"));
        });
        let lines: Vec<&str> = out.lines().collect();
        if lines.len() < 2 {
            m.count("failing source: process ended");
            return Ok(());
        }
        judge(m, &c, s, l, lines[0], "first of two")?;
        let w: Vec<&str> = lines[1].split_whitespace().collect();
        ensure!(w.first() == Some(&"E"), "generation keeps failing after the random source recovered from {c:?}");
        let v = Served { bytes: w[2].parse().unwrap_or(0), ..Default::default() };
        enough(&v, s, &|| format!("after the source recovered from {c:?}"))?;
        m.count(if w[1] == hex(&a) { "same stream, same entropy after recovery" } else { "other entropy after recovery" });
        Ok(())
    });

    // real outputs
    let seen = Mutex::new(Seen::default());
    if env.wants("statistics") {
        for s in 0..5 {
            let len = SIZES[s];
            let per = env.n(400_000, 3_000_000) as usize / env.threads;
            let tally: Mutex<Tally> = Mutex::new(Tally::new(len));
            std::thread::scope(|sc| {
                for t in 0..env.threads {
                    let (tally, seen) = (&tally, &seen);
                    sc.spawn(move || {
                        env.with("statistics", |m| {
                            let mut mine = Tally::new(len);
                            for k in 0..per {
                                let e = match lib(|| gen(s, k % 2)).and_then(|x| well_formed(&x, s, k % 2)) {
                                    Ok(e) => e,
                                    Err(x) => return env.violation("statistics", 0, x),
                                };
                                m.eval();
                                m.seen(&e);
                                mine.add(&e);
                                if k < 3000 {
                                    seen.lock().unwrap().add(&e, &format!("thread {t} of many"));
                                }
                            }
                            tally.lock().unwrap().merge(mine);
                        })
                    });
                }
            });
            if env.failed() {
                return;
            }
            env.with("statistics", |m| {
                if let Err(x) = tally.lock().unwrap().judge(m) {
                    env.violation("statistics", 0, x);
                }
            });
        }
    }
    // several threads (first use in the process included), several processes at once, forks
    let lines_of = |m: &mut crate::mon::Mon, out: std::process::Output, who: &str| -> R {
        ensure!(out.status.success(), "generating in another process ({who}) ended with {:?}: {}", out.status, String::from_utf8_lossy(&out.stdout).chars().take(300).collect::<String>());
        let mut n = 0;
        for w in String::from_utf8_lossy(&out.stdout).lines() {
            let (tag, e) = w.split_once(' ').ok_or(format!("unexpected output {w:?}"))?;
            let e = unhex(e).ok_or(format!("unexpected output {w:?}"))?;
            m.eval();
            m.seen(&e);
            n += 1;
            seen.lock().unwrap().add(&e, &format!("{who} {tag}"));
        }
        ensure!(n > 0, "no output from {who}");
        m.count_n("entropies from other processes", n);
        Ok(())
    };
    env.phase("threads", env.n(24, 200), |m, _, i| lines_of(m, child("threads", &["8".into(), "40".into()]).output().map_err(|e| e.to_string())?, &format!("threads run {i}")));
    env.phase("processes", env.n(64, 600), |m, _, i| lines_of(m, child("seq", &["25".into()]).output().map_err(|e| e.to_string())?, &format!("process {i}")));
    env.phase("fork", env.n(60, 600), |m, _, i| {
        let out = child("fork", &[(i % 6).to_string()]).output().map_err(|e| e.to_string())?;
        m.sample(|| format!("fork variant {}: {}", i % 6, String::from_utf8_lossy(&out.stdout).lines().take(3).collect::<Vec<_>>().join(" | ")));
        lines_of(m, out, &format!("fork run {i} variant {}", i % 6))
    });
    for x in seen.lock().unwrap().repeats.iter() {
        env.violation(if x.contains("fork") { "fork" } else if x.contains("threads") { "threads" } else { "processes" }, 0, x.clone());
    }
    env.with("repeats", |m| m.count_n("64-bit windows compared for repeats", seen.lock().unwrap().win.len() as u64));
}

fn one_armed(c: &Cfg, s: usize, l: usize) -> String {
    let (r, v) = armed(c, s, l);
    let t = format!("{} {} {}", v.bytes, v.calls, v.faults);
    match r {
        Ok(m) => format!("E {} {t}", hex(m.entropy())),
        Err(_) => format!("P {t}"),
    }
}

/// Runs f in a forked child and returns what it reported.
fn forked(f: impl FnOnce(&dyn Fn(&str))) -> String {
    unsafe {
        let mut p = [0i32; 2];
        assert_eq!(libc::pipe(p.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            let fd = p[1];
            f(&|s: &str| {
                libc::write(fd, s.as_ptr() as *const _, s.len());
            });
            libc::_exit(0);
        }
        libc::close(p[1]);
        let mut s = String::new();
        let _ = std::fs::File::from_raw_fd(p[0]).read_to_string(&mut s);
        libc::waitpid(pid, std::ptr::null_mut(), 0);
        s
    }
}

/// Entry point of the child processes.
pub fn child_main(a: &[String]) -> i32 {
    let h = crate::rng::hash64(a.concat().as_bytes());
    crate::world::everywhere(if h & 1 == 1 { 1 + (h >> 8) as u8 % 64 } else { 0 });
    let num = |i: usize| a.get(i).and_then(|s| s.parse::<usize>().ok()).unwrap_or(0);
    let emit = |tag: &str, s: usize, l: usize| {
        let m = gen(s, l);
        match well_formed(&m, s, l) {
            Ok(e) => format!("{tag} {}\n", hex(&e)),
            Err(x) => {
                print!("{x}");
                std::process::exit(3)
            }
        }
    };
    let out = |s: String| {
        let b = s.as_bytes();
        unsafe { libc::write(1, b.as_ptr() as *const _, b.len()) };
    };
    match a[0].as_str() {
        "fault" => {
            let b = unhex(&a[1]).unwrap();
            let c: Cfg = unsafe { std::ptr::read_unaligned(b.as_ptr() as *const Cfg) };
            out(one_armed(&c, num(2), num(3)));
        }
        "seq" => (0..num(1)).for_each(|k| out(emit("seq", k % 5, k / 5 % 2))),
        "threads" => {
            let bar = Barrier::new(num(1));
            std::thread::scope(|sc| {
                for t in 0..num(1) {
                    let (bar, emit, out) = (&bar, &emit, &out);
                    sc.spawn(move || {
                        bar.wait();
                        let mut s = String::new();
                        for k in 0..num(2) {
                            s += &emit(&format!("thread{t}"), k % 5, t % 2);
                        }
                        out(s);
                    });
                }
            });
        }
        "fork" => {
            let v = num(1);
            let body = move || {
                // how much has been generated before the fork
                for k in 0..[0, 1, 3, 40, 7, 2][v] {
                    out(emit("parent-before", k % 5, 0));
                }
                let kids: Vec<i32> = (0..4)
                    .map(|c| unsafe {
                        let pid = libc::fork();
                        if pid == 0 {
                            let tag = format!("child{c}");
                            (0..6).for_each(|k| out(emit(&tag, k % 5, k % 2)));
                            if c < 2 {
                                let g = libc::fork();
                                let tag = format!("{tag}{}", if g == 0 { "-grandchild" } else { "-after" });
                                (0..6).for_each(|k| out(emit(&tag, k % 5, k % 2)));
                                if g > 0 {
                                    libc::waitpid(g, std::ptr::null_mut(), 0);
                                }
                            }
                            libc::_exit(0);
                        }
                        (0..3).for_each(|k| out(emit("parent-after", k % 5, 1)));
                        pid
                    })
                    .collect();
                (0..6).for_each(|k| out(emit("parent-end", k % 5, k % 2)));
                for k in kids {
                    unsafe { libc::waitpid(k, std::ptr::null_mut(), 0) };
                }
            };
            if v >= 3 {
                std::thread::spawn(body).join().unwrap();
            } else {
                body();
            }
        }
        _ => return 2,
    }
    let _ = std::io::stdout().flush();
    0
}

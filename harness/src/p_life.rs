//! C23 (nothing is left behind), C24 (a restored wallet is the same wallet), C25 (orderings).
use crate::alloc;
use crate::gen;
use crate::mon::{self, lib, Env, Mon, R};
use crate::oracle::bip32::{self as b32, Prv, Pub};
use crate::oracle::bip39::{self as o, lists};
use crate::oracle::{hex, nfkd, secp, unhex};
use crate::p_bip32::{cmp_prv, cmp_pub};
use crate::p_hostile;
use crate::rng::Rng;
use crate::spec::{Callback, Moody, MoodyPub, MOOD};
use crate::{ensure, ensure_eq};
use kms::bip32 as k;
use kms::bip39::{Language, Mnemonic, MnemonicType, Seed};
use std::cmp::Ordering;
use std::fmt::Write as _;
use std::io::Write as _;
use std::process::{Command, Stdio};

// ---- C23 ------------------------------------------------------------------------------------------
struct Bomb(usize);
impl std::fmt::Write for Bomb {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.len() > self.0 {
            panic!("writer panics");
        }
        self.0 -= s.len();
        Ok(())
    }
}
const KINDS: u64 = p_hostile::OPS + 6;
fn names(kind: u64) -> &'static str {
    match kind - p_hostile::OPS {
        0 => "master key from an argument that panics",
        1 => "derivation over a key type that fails or panics",
        2 => "extending a path from an iterator that panics",
        3 => "printing into a writer that panics",
        4 => "moving secrets between threads",
        _ => "parsing near misses",
    }
}
/// One piece of work that keeps nothing; the same (kind, seed) does the same work.
fn work(kind: u64, r: &mut Rng, go: &mut dyn FnMut(&str, &mut dyn FnMut())) {
    if kind < p_hostile::OPS {
        let s = r.u64();
        return p_hostile::op(r, kind, &mut |name, len, f| {
            if len < 60_000 {
                go(name, &mut || f(&mut Rng::new(s, "use", 0)))
            }
        });
    }
    let name = names(kind);
    match kind - p_hostile::OPS {
        0 => {
            let b = gen::block(r, 32);
            go(name, &mut || {
                let _ = k::XPrv::new(Callback(&b, 1, Default::default()));
            })
        }
        1 => {
            let x = gen::prv(r, 250);
            let n = r.range(0, 5);
            let q: Vec<u32> = (0..n).map(|_| gen::index31(r)).collect();
            let (at, kind, public) = (r.below(n as u64 + 2) as u32, r.below(2) as u8, r.chance(1, 2));
            go(name, &mut || {
                let path = gen::lib_path(&q);
                MOOD.with(|m| m.set((at, kind)));
                let _ = std::panic::catch_unwind(|| {
                    if public {
                        let t = b32::text(0x0488b21e, &x.a, &secp::pubkey(&x.k).unwrap());
                        let y: k::Result<k::ExtendedPublicKey<MoodyPub>> = t.parse();
                        let _ = y.and_then(|y| y.derive_from_path(&path)).map(|z| z.to_string(k::Prefix::XPUB));
                    } else {
                        let t = b32::text(0x0488ade4, &x.a, &x.key_bytes());
                        let y: k::Result<k::ExtendedPrivateKey<Moody>> = t.parse();
                        let _ = y.and_then(|y| y.derive_from_path(&path)).map(|z| z.to_string(k::Prefix::XPRV));
                    }
                });
                MOOD.with(|m| m.set((u32::MAX, 0)));
            })
        }
        2 => {
            let n = r.range(0, 60);
            let q: Vec<u32> = gen::steps(r, n);
            let at = r.idx(n + 1);
            go(name, &mut || {
                let mut p = gen::lib_path(&q[..n / 2]);
                p.extend(q.iter().enumerate().map(|(i, c)| if i == at { panic!("iterator panics") } else { k::ChildNumber(*c) }));
            })
        }
        3 => {
            let e = gen::entropy(r);
            let (x, l, at) = (gen::prv(r, 255), lists()[r.idx(2)].lang, r.idx(140));
            let which = r.below(4);
            go(name, &mut || {
                let _ = match which {
                    0 => write!(Bomb(at), "{}", Mnemonic::from_entropy(&e, l).unwrap()),
                    1 => write!(Bomb(at), "{:x}", Mnemonic::from_entropy(&e, l).unwrap()),
                    2 => write!(Bomb(at), "{}", gen::lib_prv(&x).unwrap().to_extended_key(k::Prefix::XPRV)),
                    _ => write!(Bomb(at), "{:?}", gen::lib_prv(&x).unwrap()),
                };
            })
        }
        4 => {
            let e = gen::entropy(r);
            let (x, l) = (gen::prv(r, 255), lists()[r.idx(2)].lang);
            go(name, &mut || {
                let m = Mnemonic::from_entropy(&e, l).unwrap();
                let y = gen::lib_prv(&x).unwrap();
                let t = y.to_string(k::Prefix::XPRV);
                let d = e.len() as u32;
                std::thread::spawn(move || {
                    mon::quiet();
                    let n = m.clone();
                    drop(m);
                    let z = y.derive_child(k::ChildNumber(d));
                    drop(t);
                    (n.into_phrase(), z.map(|z| z.to_string(k::Prefix::XPRV)))
                })
                .join()
                .map(|_| ())
                .unwrap_or(())
            })
        }
        _ => {
            let x = gen::prv(r, 255);
            let i = r.idx(8);
            let p = [gen::PRV_PREFIX, gen::PUB_PREFIX].concat()[i];
            let e = gen::entropy(r);
            let l = r.idx(2);
            let s = o::sentence(&e, l);
            let mut w: Vec<&str> = s.split(' ').collect();
            match r.below(4) {
                0 => drop(w.pop()),
                1 => w[0] = "zzz",
                2 => w.swap(0, 1),
                _ => (),
            }
            let s = w.join(" ");
            let mut t = b32::text(p.version(), &x.a, &if i < 4 { x.key_bytes() } else { secp::pubkey(&x.k).unwrap() });
            if r.chance(1, 2) {
                t = gen::mutate_text(r, &t, &['1', 'z', '0']);
            }
            let q = format!("m/{}/{}{}", r.u32(), r.below(1 << 31), *r.pick(&["'", "h", "", "''"]));
            go(name, &mut || {
                let _ = (Mnemonic::from_phrase(&s, lists()[l].lang).is_ok(), Mnemonic::validate(&s, lists()[1 - l].lang).is_ok(), MnemonicType::for_phrase(&s).is_ok());
                let _ = (t.parse::<k::XPrv>().is_ok(), t.parse::<k::XPub>().is_ok(), t.parse::<k::ExtendedKey>().is_ok());
                let _ = (q.parse::<k::DerivationPath>().is_ok(), Language::from_phrase(&s), Language::from_language_code(&q));
            })
        }
    }
}
fn entries(dir: &str) -> i64 {
    std::fs::read_dir(dir).map_or(0, |d| d.count() as i64)
}
/// (heap bytes this process holds and grew since the start, file descriptors, threads)
fn holdings() -> [i64; 3] {
    [alloc::total() as i64, entries("/proc/self/fd"), entries("/proc/self/task")]
}
const THINGS: [&str; 3] = ["heap bytes", "file descriptors", "threads"];

pub fn c23(env: &'static Env) {
    env.rule("Each operation (those of C16, plus panicking arguments, key types, iterators and writers, and secrets moved between threads) runs with all its values dropped inside, while the allocator counts. A call after which heap is still held is repeated 48 times: it must not hold more each time. Each operation then runs 480 times on ever new inputs: heap, file descriptors and threads must not grow through each of three successive doublings of the number of calls. Non-trivial: a distinct (operation, input) after which the heap was measured.");
    env.assume("memory reachable from bounded caches would not count as left behind; inputs here stay under 60 kB");
    alloc::count_all();
    let mut warm = Rng::new(1, "warm", 0);
    for kind in 0..KINDS {
        for _ in 0..3 {
            work(kind, &mut warm, &mut |_, f| drop(lib(|| f())));
        }
    }
    mon::forget_panic();
    // One call, then the same call again and again.
    env.phase("single", env.n(60_000, 2_000_000), |m: &mut Mon, r, i| {
        let kind = i % KINDS;
        if kind == p_hostile::OPS + 4 {
            return Ok(()); // works on two threads: judged below by the whole process
        }
        let mut bad = None;
        let seed = r.u64();
        let once = |m: &mut Mon, bad: &mut Option<String>| {
            let mut r = Rng::new(seed, "work", kind);
            let mut sum = 0;
            work(kind, &mut r, &mut |name, f| {
                let (_, _, _) = alloc::measured(|| {
                    let _ = lib(|| f());
                    mon::forget_panic();
                });
                sum += alloc::live();
                m.eval();
                m.count(name);
                bad.get_or_insert_with(|| name.to_string());
            });
            sum
        };
        let first = once(m, &mut bad);
        m.seen(&[seed.to_le_bytes(), kind.to_le_bytes()].concat());
        m.sample(|| format!("operation {kind} with seed {seed:x}: {first} bytes held afterwards"));
        if first > 0 {
            m.count("calls that left heap held the first time");
            let more = (0..48).filter(|_| once(m, &mut bad) > 0).count();
            ensure!(more < 40, "{}: {first} bytes still held after everything was dropped, and more after {more} of 48 repetitions (operation {kind}, seed {seed:x})", bad.unwrap_or_default());
        }
        Ok(())
    });
    // Ever new inputs: growth that does not stop.
    env.phase_t("growth", KINDS * env.n(1, 12), 1, |m: &mut Mon, r, i| {
        let kind = i % KINDS;
        let scale = if kind == p_hostile::OPS + 4 { 4 } else { 1 };
        let base = env.n(60, 240);
        let mut seeds: Vec<u64> = Vec::with_capacity(8 * base as usize);
        let mut run = |n: u64, m: &mut Mon| {
            for _ in 0..n / scale {
                let before = r.u64();
                work(kind, &mut Rng::new(before, "work", kind), &mut |name, f| {
                    let _ = lib(|| f());
                    m.eval();
                    m.count(name);
                });
                seeds.push(before);
            }
            mon::forget_panic();
            holdings()
        };
        let at: Vec<[i64; 3]> = [1, 1, 2, 4].map(|n| run(n * base, m)).into();
        // (what the monitor itself keeps is stored only now)
        for s in seeds {
            m.seen(&[s.to_le_bytes(), kind.to_le_bytes()].concat());
        }
        for t in 0..3 {
            let g: Vec<i64> = at.windows(2).map(|w| w[1][t] - w[0][t]).collect();
            m.max(&format!("{} gained by the last half of the calls", THINGS[t]), g[2].max(0) as u64);
            ensure!(g.iter().any(|x| *x <= 0), "operation {kind}: the process gained {g:?} {} over {base}, {} and {} calls whose values were all dropped", THINGS[t], 2 * base, 4 * base);
        }
        Ok(())
    });
    // Threads that come and go, each touching everything once.
    env.phase_t("threads", env.n(2, 20), 1, |m: &mut Mon, r, _| {
        let mut first: Vec<u64> = Vec::with_capacity(200);
        let mut run = |n: u64, m: &mut Mon| {
            for _ in 0..n {
                let seeds: Vec<u64> = (0..6).map(|_| r.u64()).collect();
                std::thread::scope(|s| {
                    for (t, seed) in seeds.iter().enumerate() {
                        s.spawn(move || {
                            mon::quiet();
                            let mut r = Rng::new(*seed, "thread", 0);
                            for j in 0..12 {
                                let kind = (r.below(KINDS) + t as u64 + j) % KINDS;
                                work(kind, &mut r, &mut |_, f| drop(lib(|| f())));
                            }
                            mon::forget_panic();
                        });
                    }
                });
                m.eval();
                first.push(seeds[0]);
                m.count_n("threads started", 6);
            }
            holdings()
        };
        let at: Vec<[i64; 3]> = [1, 1, 2, 4].map(|n| run(n * 12, m)).into();
        for s in first {
            m.seen(&s.to_le_bytes());
        }
        for t in 0..3 {
            let g: Vec<i64> = at.windows(2).map(|w| w[1][t] - w[0][t]).collect();
            ensure!(g.iter().any(|x| *x <= 0), "the process gained {g:?} {} while 72, 144 and 288 threads used the library and ended", THINGS[t]);
        }
        Ok(())
    });
}

// ---- C24 ------------------------------------------------------------------------------------------
struct Plan {
    ent: Vec<u8>,
    l: usize,
    pass: String,
    path: Vec<u32>,
    split: usize,
    digest: [u8; 32],
}
fn plan(r: &mut Rng) -> Plan {
    let n = match r.below(6) {
        0 => 0,
        1 => r.range(6, 20),
        _ => r.range(1, 6),
    };
    // the usual account shape, or anything
    let path: Vec<u32> = if r.chance(1, 3) {
        let coin = gen::index31(r) >> r.below(31);
        vec![*r.pick(&[44u32, 49, 84, 86]) | 1 << 31, coin | 1 << 31, r.below(20) as u32 | 1 << 31, r.below(2) as u32, gen::index31(r)]
    } else {
        gen::steps(r, n)
    };
    let split = r.range(0, path.len());
    Plan { ent: gen::entropy(r), l: r.idx(2), pass: gen::passphrase(r), path, split, digest: r.arr() }
}
/// The whole of a wallet, in one line: what a user would see again after restoring it.
fn face(m: &Mnemonic, p: &Plan) -> Result<String, String> {
    let s = Seed::new(m, &p.pass);
    let x = k::XPrv::new_from_path(&s, &gen::lib_path(&p.path)).map_err(|e| format!("{e:?}"))?;
    let (sig, rec) = kms::ecdsa_sign(x.private_key(), &p.digest).map_err(|e| format!("{e:?}"))?;
    Ok(format!("{} {} {} {} {rec}", hex(s.as_bytes()), x.to_string(k::Prefix::XPRV).as_str(), x.public_key().to_string(k::Prefix::XPUB), hex(&sig)))
}
fn want_face(p: &Plan) -> (Prv, String) {
    let s = o::seed(&o::sentence(&p.ent, p.l), p.l, &p.pass);
    let x = b32::master(&s).and_then(|x| x.path(&p.path)).expect("a master key of probability 2^-127");
    let (sig, rec) = secp::sign(&x.k, &p.digest);
    let y = x.to_pub();
    let f = format!("{} {} {} {} {rec}", hex(&s), b32::text(0x0488ade4, &x.a, &x.key_bytes()), b32::text(0x0488b21e, &y.a, &y.k), hex(&sig));
    (x, f)
}
fn show(p: &Plan) -> String {
    format!("entropy {} language {} passphrase {:?} path {} digest {}", hex(&p.ent), p.l, p.pass, b32::show_path(&p.path), hex(&p.digest))
}
/// Another spelling of the same passphrase, if there is one at hand.
fn respelt(r: &mut Rng, s: &str) -> String {
    if s.chars().any(nfkd::unstable) {
        return s.to_string();
    }
    let t = gen::respell(r, s);
    if nfkd::nfkd(&t) == nfkd::nfkd(s) && !t.chars().any(nfkd::unstable) {
        t
    } else {
        nfkd::nfkd(s)
    }
}
fn wallet(m: &mut Mon, r: &mut Rng, p: &Plan) -> R {
    let (x, want) = want_face(p);
    let what = || show(p);
    let lang = lists()[p.l].lang;
    // the wallet as first made
    let first = lib(|| Mnemonic::from_entropy(&p.ent, lang))?.map_err(|e| format!("{}: {e}", what()))?;
    let got = lib(|| face(&first, p))?.map_err(|e| format!("{}: {e}", what()))?;
    ensure!(got == want, "{}: the wallet is {got}, the standards say {want}", what());
    // restored from its phrase, in whatever spelling, in the language found by looking at it
    let phrase = lib(|| first.phrase().to_string())?;
    drop(first);
    let spelt = if r.chance(1, 2) { gen::respell(r, &phrase) } else { phrase.clone() };
    let found = lib(|| Language::from_phrase(&phrase))?;
    ensure!(found == Some(lang), "{}: language found {found:?}", what());
    let again = lib(|| Mnemonic::from_phrase(&spelt, found.unwrap()))?.map_err(|e| format!("{}: restoring from {spelt:?}: {e}", what()))?;
    let q = Plan { pass: respelt(r, &p.pass), path: p.path.clone(), ent: p.ent.clone(), ..*p };
    let got = lib(|| face(&again, &q))?.map_err(|e| format!("{}: {e}", what()))?;
    ensure!(got == want, "{}: restored from the phrase {spelt:?} and passphrase {:?} the wallet is {got}, not {want}", what(), q.pass);
    m.eval();
    // restored from an exported key part of the way down
    let seed = lib(|| Seed::new(&again, &p.pass))?;
    let (a, b) = p.path.split_at(p.split);
    let top = lib(|| k::XPrv::new_from_path(&seed, &gen::lib_path(a)))?.map_err(|e| format!("{}: {e:?}", what()))?;
    let v = *r.pick(&gen::PRV_PREFIX);
    let t = lib(|| top.to_string(v).to_string())?;
    let back = lib(|| t.parse::<k::XPrv>())?.map_err(|e| format!("{}: its own export {t} refused: {e:?}", what()))?;
    ensure!(back == top, "{}: the export {t} reads back as another key", what());
    let low = lib(|| back.clone().derive_from_path(&gen::lib_path(b)))?;
    cmp_prv(low, Ok(x.clone()), &format!("{}: derived below the key imported from {t}", what()))?;
    m.eval();
    // watch-only: the public key of the last level reachable without hardened steps
    let open = p.path.iter().rposition(|c| c >> 31 == 1).map_or(0, |i| i + 1).max(p.split.min(p.path.len()));
    let open = if p.path[open..].iter().all(|c| c >> 31 == 0) { open } else { p.path.len() };
    let acct = lib(|| k::XPrv::new_from_path(&seed, &gen::lib_path(&p.path[..open])))?.map_err(|e| format!("{}: {e:?}", what()))?;
    let u = *r.pick(&gen::PUB_PREFIX);
    let t = lib(|| acct.public_key().to_string(u))?;
    let xp = lib(|| t.parse::<k::XPub>())?.map_err(|e| format!("{}: its own export {t} refused: {e:?}", what()))?;
    let mut at = xp;
    for c in &p.path[open..] {
        let fp = lib(|| at.fingerprint())?;
        at = lib(|| at.derive_child(k::ChildNumber(*c)))?.map_err(|e| format!("{}: {e:?}", what()))?;
        ensure!(at.attrs().parent_fingerprint == fp, "{}: a child's parent fingerprint is {}, its parent's fingerprint {}", what(), hex(&at.attrs().parent_fingerprint), hex(&fp));
        m.count("watch-only steps");
    }
    cmp_pub(Ok(at.clone()), Ok(x.to_pub()), &format!("{}: watch-only key below {t}", what()))?;
    // a signature by the wallet verifies under the watch-only key, and names it
    let sk: libsecp256k1::SecretKey = (&lib(|| back.derive_from_path(&gen::lib_path(b)))?.map_err(|e| format!("{e:?}"))?).into();
    let (sig, rec) = lib(|| kms::ecdsa_sign(&sk, &p.digest))?.map_err(|e| format!("{}: {e:?}", what()))?;
    let pk: [u8; 33] = at.to_bytes();
    ensure!(secp::verify(&pk, &p.digest, &sig) && secp::recover(&p.digest, &sig, rec) == Some(pk), "{}: the signature {} {rec} does not belong to the watch-only key {}", what(), hex(&sig), hex(&pk));
    m.eval();
    m.seen(want.as_bytes());
    m.count(&format!("{} words, language {}", again.phrase().split(' ').count(), p.l));
    m.sample(what);
    Ok(())
}
pub fn c24(env: &'static Env) {
    env.rule("Whole wallets (every size and language, passphrases of every script, paths of BIP44 shape and any other) are made, restored from their phrase in other spellings, from private exports at every level with every version, and as watch-only from public exports; seed, keys, exports and signatures are compared with each other and the reference model, and again in another process. Non-trivial: a distinct wallet all of whose restorations were compared.");
    env.phase("wallets", env.n(6000, 200_000), |m, r, _| {
        let p = plan(r);
        wallet(m, r, &p)
    });
    env.phase("generated", env.n(1500, 40_000), |m, r, _| {
        let l = r.idx(2);
        let t = *r.pick(&[MnemonicType::Words12, MnemonicType::Words15, MnemonicType::Words18, MnemonicType::Words21, MnemonicType::Words24]);
        let made = lib(|| Mnemonic::new(t, lists()[l].lang))?;
        let mut p = plan(r);
        p.l = l;
        p.ent = made.entropy().to_vec();
        let got = lib(|| face(&made, &p))?.map_err(|e| format!("{}: {e}", show(&p)))?;
        let (_, want) = want_face(&p);
        ensure!(got == want, "{}: the generated wallet {:?} is {got}, the standards say {want}", show(&p), made.phrase());
        ensure_eq!(made.phrase(), o::sentence(&p.ent, l), "{}: generated phrase", show(&p));
        wallet(m, r, &p)
    });
    env.phase("elsewhere", env.n(200, 4000), |m, r, _| {
        // a fresh process restores the wallets from what is on paper
        let ps: Vec<Plan> = (0..6).map(|_| plan(r)).collect();
        let mut input = String::new();
        for p in &ps {
            let phrase = lib(|| Mnemonic::from_entropy(&p.ent, lists()[p.l].lang).map(|m| m.into_phrase()))?.map_err(|e| e.to_string())?;
            let code = ["en", "zh-cn"][p.l];
            writeln!(input, "{code} {} {} {} {}", hex(phrase.as_bytes()), hex(p.pass.as_bytes()), b32::show_path(&p.path), hex(&p.digest)).unwrap();
        }
        let mut c = Command::new(std::env::current_exe().unwrap()).args(["c24child"]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().map_err(|e| e.to_string())?;
        c.stdin.take().unwrap().write_all(input.as_bytes()).map_err(|e| e.to_string())?;
        let out = c.wait_with_output().map_err(|e| e.to_string())?;
        let text = String::from_utf8_lossy(&out.stdout).to_string();
        let got: Vec<&str> = text.lines().collect();
        for (i, p) in ps.iter().enumerate() {
            let (_, want) = want_face(p);
            m.eval();
            m.seen(want.as_bytes());
            m.count("wallets restored in another process");
            let g = got.get(i).copied().unwrap_or("the process ended");
            ensure!(g == want, "{}: restored in another process the wallet is {g}, not {want}", show(p));
        }
        m.sample(|| show(&ps[0]));
        Ok(())
    });
}
pub fn child_main() -> i32 {
    for l in std::io::stdin().lines().map_while(Result::ok) {
        let f: Vec<&str> = l.split(' ').collect();
        let un = |s: &str| String::from_utf8(unhex(s).unwrap_or_default()).unwrap_or_default();
        let out = lib(|| {
            let lang = Language::from_language_code(f[0]).ok_or("language code not known")?;
            let m = Mnemonic::from_phrase(&un(f[1]), lang).map_err(|e| e.to_string())?;
            let path: k::DerivationPath = f[3].parse().map_err(|e| format!("{e:?}"))?;
            let mut digest = [0u8; 32];
            digest.copy_from_slice(&unhex(f[4]).unwrap_or(vec![0; 32]));
            let p = Plan { ent: vec![], l: 0, pass: un(f[2]), path: path.iter().map(|c| c.0).collect(), split: 0, digest };
            face(&m, &p)
        });
        println!("{}", out.unwrap_or_else(Err).unwrap_or_else(|e| e));
    }
    0
}

// ---- C25 ------------------------------------------------------------------------------------------
/// The laws of a total order that agrees with equality, over one pool.
fn laws<T: Ord + Clone>(m: &mut Mon, what: &str, xs: &[T], same: impl Fn(usize, usize) -> bool, show: impl Fn(&T) -> String) -> R {
    let n = xs.len();
    let mut c = vec![vec![Ordering::Equal; n]; n];
    for i in 0..n {
        for j in 0..n {
            let (a, b) = (&xs[i], &xs[j]);
            let o = lib(|| a.cmp(b))?;
            c[i][j] = o;
            let s = || format!("{what} {} and {}", show(a), show(b));
            ensure!((o == Ordering::Equal) == same(i, j), "{}: cmp says {o:?}, but their fields {}", s(), if same(i, j) { "are all the same" } else { "differ" });
            ensure!((a == b) == same(i, j) && (a != b) != same(i, j), "{}: == says {}, but their fields {}", s(), a == b, if same(i, j) { "are all the same" } else { "differ" });
            ensure!(a.partial_cmp(b) == Some(o), "{}: partial_cmp {:?}, cmp {o:?}", s(), a.partial_cmp(b));
            ensure!((a < b) == (o == Ordering::Less) && (a <= b) == (o != Ordering::Greater) && (a > b) == (o == Ordering::Greater) && (a >= b) == (o != Ordering::Less), "{}: the operators disagree with cmp {o:?}", s());
            ensure!(b.cmp(a) == o.reverse(), "{}: cmp {o:?} one way, {:?} the other", s(), b.cmp(a));
            m.eval();
        }
    }
    for i in 0..n {
        for j in 0..n {
            for l in 0..n {
                let le = |x: Ordering| x != Ordering::Greater;
                ensure!(!(le(c[i][j]) && le(c[j][l])) || le(c[i][l]), "{what}: {} <= {} <= {}, but not the first <= the last", show(&xs[i]), show(&xs[j]), show(&xs[l]));
            }
        }
    }
    // what collections make of it
    let mut sorted = xs.to_vec();
    lib(|| sorted.sort())?;
    ensure!(sorted.windows(2).all(|w| w[0] <= w[1]), "{what}: sorting leaves them out of order");
    let set: std::collections::BTreeSet<T> = lib(|| xs.iter().cloned().collect())?;
    let classes = (0..n).filter(|i| !(0..*i).any(|j| same(j, *i))).count();
    ensure!(set.len() == classes && xs.iter().all(|x| set.contains(x)), "{what}: a BTreeSet of {n} holding {classes} different ones keeps {}", set.len());
    m.count_n(&format!("{what}: ordered triples"), (n * n * n) as u64);
    Ok(())
}
pub fn c25(env: &'static Env) {
    env.rule("Pools of 12 look-alike values (one-bit differences in one field, the same key obtained by derivation, conversion, cloning and parsing, boundary integers) are compared pairwise and in triples through every operator, sorted and put in ordered sets. Non-trivial: a distinct pool whose pairs and triples were all judged.");
    env.phase("child-numbers", env.n(8000, 400_000), |m, r, _| {
        let v: Vec<u32> = (0..12).map(|i| if i % 3 == 2 { gen::child(r) ^ (1 << 31) } else { gen::child(r) }).collect();
        let xs: Vec<k::ChildNumber> = v.iter().map(|c| k::ChildNumber(*c)).collect();
        m.seen(format!("{v:?}").as_bytes());
        for i in 0..12 {
            for j in 0..12 {
                ensure_eq!(xs[i].cmp(&xs[j]), v[i].cmp(&v[j]), "child numbers {:#x} and {:#x} compared", v[i], v[j]);
            }
        }
        laws(m, "child numbers", &xs, |i, j| v[i] == v[j], |x| format!("{:#x}", x.0))
    });
    env.phase("attributes", env.n(8000, 400_000), |m, r, _| {
        let base = gen::attrs(r, 255);
        let v: Vec<b32::Attrs> = (0..12)
            .map(|_| {
                let mut a = if r.chance(1, 6) { gen::attrs(r, 255) } else { base.clone() };
                if r.chance(1, 4) {
                    a = crate::p_alike::like_attrs(r, &a);
                }
                for _ in 0..r.below(3) {
                    match r.below(4) {
                        0 => a.depth ^= 1 << r.below(8),
                        1 => a.fp[r.idx(4)] ^= 1 << r.below(8),
                        2 => a.child ^= 1 << r.below(32),
                        _ => a.cc[r.idx(32)] ^= 1 << r.below(8),
                    }
                }
                a
            })
            .collect();
        let xs: Vec<k::ExtendedKeyAttrs> = v.iter().map(gen::lib_attrs).collect();
        m.seen(format!("{v:?}").as_bytes());
        laws(m, "attributes", &xs, |i, j| v[i] == v[j], |x| format!("{x:x?}"))
    });
    env.phase("public-keys", env.n(6000, 200_000), |m, r, _| {
        // over a key type that has an order of its own
        let base = gen::prv(r, 254);
        let mut v: Vec<Pub> = vec![];
        let mut xs: Vec<k::ExtendedPublicKey<MoodyPub>> = vec![];
        while xs.len() < 12 {
            let mut p = base.clone();
            match r.below(6) {
                0 => p = gen::prv(r, 254),
                1 => p.k = gen::sk(r),
                2 => p.a.cc[r.idx(32)] ^= 1 << r.below(8),
                3 if p.a.depth > 0 => p.a.fp[r.idx(4)] ^= 1 << r.below(8),
                4 if p.a.depth > 0 => p.a.child ^= 1 << r.below(32),
                // the other point with the same abscissa
                5 => p.k = secp::to_be(&secp::nneg(&secp::from_be(&p.k))),
                _ => (),
            }
            if r.chance(1, 4) {
                p.a = crate::p_alike::like_attrs(r, &p.a);
            }
            let mut w = p.to_pub();
            let mut x: k::ExtendedPublicKey<MoodyPub> = lib(|| b32::text(0x0488b21e, &w.a, &w.k).parse())?.map_err(|e: k::Error| format!("{w:x?} refused: {e:?}"))?;
            if r.chance(1, 2) {
                let c = gen::index31(r);
                if let Ok(q) = w.ckd(c) {
                    x = lib(|| x.derive_child(k::ChildNumber(c)))?.map_err(|e| format!("{w:x?} child {c}: {e:?}"))?;
                    w = q;
                }
            }
            if xs.len() < 11 && r.chance(1, 3) {
                xs.push(lib(|| x.clone())?);
                v.push(w.clone());
            }
            xs.push(x);
            v.push(w);
        }
        m.seen(format!("{v:?}").as_bytes());
        m.sample(|| format!("{:x?}", v[0]));
        laws(m, "extended public keys", &xs, |i, j| v[i] == v[j], |x| format!("{x:x?}"))
    });
    env.phase("prefixes", env.n(4000, 200_000), |m, r, _| {
        let letters: Vec<String> = (0..3).map(|_| (0..4).map(|_| *r.pick(&['a', 'Z', 'x', 'p', 'A', 'z'])).collect()).collect();
        let vs: Vec<u32> = (0..3).map(|_| gen::child(r)).collect();
        let v: Vec<(String, u32)> = (0..12).map(|i| if i < 3 { let p = gen::VERSIONS[r.idx(8)]; (p.0.to_string(), p.1) } else { (r.pick(&letters).clone(), *r.pick(&vs)) }).collect();
        let xs: Vec<k::Prefix> = v.iter().map(|(s, n)| k::Prefix::from_parts_unchecked(s, *n)).collect();
        m.seen(format!("{v:?}").as_bytes());
        laws(m, "prefixes", &xs, |i, j| v[i] == v[j], |x| format!("{x:?}"))
    });
}

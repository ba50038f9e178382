//! C21 (results depend on the arguments only) and C22 (failing key operations).
use crate::gen;
use crate::mon::{lib, Env, Mon, R};
use crate::oracle::bip32::{self as b32, Attrs, Er, Prv, Pub};
use crate::oracle::bip39::{self as o, lists};
use crate::oracle::{hash, hex, secp};
use crate::p_bip32::same_err;
use crate::p_bip39::check_mnemonic;
use crate::rng::{hash64, Rng};
use crate::spec::{self, Pool};
use crate::{ensure, ensure_eq};
use kms::bip32 as k;
use kms::bip32::{PrivateKey, PublicKey};
use kms::bip39::{Mnemonic, Seed};
use std::cell::RefCell;
use std::process::{Command, Stdio};
use zeroize::Zeroizing;

// ---- C21 ------------------------------------------------------------------------------------------
enum Obj {
    Mn(Mnemonic, Vec<u8>, usize),
    Sd(Seed, Vec<u8>),
    Prv(k::XPrv, Prv),
    Pub(k::XPub, Pub),
    Path(k::DerivationPath, Vec<u32>),
    Ek(k::ExtendedKey, u32, Attrs, [u8; 33]),
    Txt(Zeroizing<String>, String),
}
fn check_prv(x: &k::XPrv, w: &Prv) -> R {
    ensure!(lib(|| gen::model_prv(x))? == *w, "private key is {:x?}, expected {:x?}", gen::model_prv(x), w);
    Ok(())
}
fn check_pub(x: &k::XPub, w: &Pub) -> R {
    ensure!(lib(|| gen::model_pub(x))? == *w, "public key is {:x?}, expected {:x?}", gen::model_pub(x), w);
    Ok(())
}
impl Obj {
    fn check(&self) -> R {
        match self {
            Obj::Mn(m, e, l) => check_mnemonic(m, e, &o::sentence(e, *l), *l, false),
            Obj::Sd(s, b) => {
                ensure!(lib(|| s.as_bytes().to_vec())? == *b, "seed is {}, expected {}", hex(s.as_bytes()), hex(b));
                Ok(())
            }
            Obj::Prv(x, w) => check_prv(x, w),
            Obj::Pub(x, w) => check_pub(x, w),
            Obj::Path(p, w) => {
                ensure_eq!(lib(|| p.iter().map(|c| c.0).collect::<Vec<_>>())?, *w, "path");
                ensure_eq!(lib(|| p.to_string())?, b32::show_path(w), "path text");
                Ok(())
            }
            Obj::Ek(e, v, a, kb) => {
                ensure!(e.prefix.version() == *v && gen::model_attrs(&e.attrs) == *a && e.key_bytes == *kb, "extended key object is {} {:?}, expected {v:x} {a:x?} {}", hex(&e.key_bytes), e.attrs, hex(kb));
                ensure_eq!(lib(|| e.to_string())?, b32::text(*v, a, kb), "extended key object prints");
                Ok(())
            }
            Obj::Txt(t, w) => {
                ensure!(t.as_str() == w, "key text is {:?}, expected {w:?}", t.as_str());
                Ok(())
            }
        }
    }
    fn name(&self) -> &'static str {
        match self {
            Obj::Mn(..) => "mnemonic",
            Obj::Sd(..) => "seed",
            Obj::Prv(..) => "private key",
            Obj::Pub(..) => "public key",
            Obj::Path(..) => "path",
            Obj::Ek(..) => "extended key object",
            Obj::Txt(..) => "key text",
        }
    }
    fn cloned(&self) -> Result<Obj, String> {
        Ok(match self {
            Obj::Mn(m, e, l) => Obj::Mn(lib(|| m.clone())?, e.clone(), *l),
            Obj::Sd(s, b) => Obj::Sd(lib(|| s.clone())?, b.clone()),
            Obj::Prv(x, w) => Obj::Prv(lib(|| x.clone())?, w.clone()),
            Obj::Pub(x, w) => Obj::Pub(lib(|| x.clone())?, w.clone()),
            Obj::Path(p, w) => Obj::Path(lib(|| p.clone())?, w.clone()),
            Obj::Ek(e, v, a, b) => Obj::Ek(lib(|| e.clone())?, *v, a.clone(), *b),
            Obj::Txt(t, w) => Obj::Txt(lib(|| t.clone())?, w.clone()),
        })
    }
}
fn expect<T>(got: Result<T, k::Error>, want: Result<(), Er>, what: &dyn Fn() -> String) -> Result<Option<T>, String> {
    match (got, want) {
        (Ok(v), Ok(())) => Ok(Some(v)),
        (Err(e), Err(w)) if same_err(e, w) => Ok(None),
        (Ok(_), Err(w)) => Err(format!("{} succeeded, expected {w:?}", what())),
        (Err(e), w) => Err(format!("{} gave {e:?}, expected {w:?}", what())),
    }
}

/// One random operation on the pool; every result is compared with the model at once.
fn step(pool: &mut Vec<Obj>, p: &Pool, r: &mut Rng, log: &mut Vec<String>) -> R {
    let n = pool.len();
    let pick = |r: &mut Rng| r.idx(n);
    let i = pick(r);
    let j = pick(r);
    if r.chance(1, 8) {
        // unrelated work, failing and panicking calls included
        let id = r.below(4000);
        let (d, _) = spec::run(p, id);
        log.push(d);
        return Ok(());
    }
    let paths: Vec<Vec<u32>> = pool.iter().filter_map(|x| if let Obj::Path(_, w) = x { (w.len() < 12).then(|| w.clone()) } else { None }).collect();
    let new = match &pool[i] {
        Obj::Mn(m, e, l) => match r.below(6) {
            0 => {
                let w = r.pick(&p.passes).clone();
                log.push(format!("seed of {i} with {w:?}"));
                let s = lib(|| Seed::new(m, &w))?;
                Some(Obj::Sd(s, o::seed(&o::sentence(e, *l), *l, &w).to_vec()))
            }
            1 => {
                log.push(format!("into_phrase of a clone of {i}"));
                let s = lib(|| m.clone().into_phrase())?;
                ensure_eq!(s, o::sentence(e, *l), "into_phrase");
                let b = lib(|| Mnemonic::from_phrase(&s, lists()[*l].lang))?.map_err(|x| x.to_string())?;
                Some(Obj::Mn(b, e.clone(), *l))
            }
            2 => {
                log.push(format!("entropy of {i} in the other language"));
                let b = lib(|| Mnemonic::from_entropy(m.entropy(), lists()[1 - *l].lang))?.map_err(|x| x.to_string())?;
                Some(Obj::Mn(b, e.clone(), 1 - *l))
            }
            3 => {
                log.push(format!("parse {i} in the wrong language, break its checksum"));
                ensure!(lib(|| Mnemonic::from_phrase(m.phrase(), lists()[1 - *l].lang))?.is_err(), "phrase accepted in the wrong language");
                let bad = format!("{} {}", m.phrase(), lists()[*l].words[0]);
                ensure!(lib(|| Mnemonic::from_phrase(&bad, lists()[*l].lang))?.is_err(), "over-long phrase accepted");
                None
            }
            4 => {
                log.push(format!("renderings of {i}"));
                check_mnemonic(m, e, &o::sentence(e, *l), *l, true)?;
                None
            }
            _ => {
                let v = r.pick(&p.ents).clone();
                log.push("from_entropy".into());
                let b = lib(|| Mnemonic::from_entropy(&v, lists()[*l].lang))?.map_err(|x| x.to_string())?;
                Some(Obj::Mn(b, v, *l))
            }
        },
        Obj::Sd(s, b) => {
            if r.chance(1, 2) || paths.is_empty() {
                log.push(format!("master of {i}"));
                let want = b32::master(b);
                let own = r.chance(1, 2);
                let got = if own { lib(|| k::XPrv::new(s.clone()))? } else { lib(|| k::XPrv::new(s))? };
                expect(got, want.clone().map(|_| ()), &|| format!("XPrv::new({})", hex(b)))?.map(|x| Obj::Prv(x, want.unwrap()))
            } else {
                let q = r.pick(&paths).clone();
                log.push(format!("new_from_path of {i} {}", b32::show_path(&q)));
                let want = b32::master(b).and_then(|x| x.path(&q));
                let got = lib(|| k::XPrv::new_from_path(s, &gen::lib_path(&q)))?;
                expect(got, want.clone().map(|_| ()), &|| format!("new_from_path({}, {q:x?})", hex(b)))?.map(|x| Obj::Prv(x, want.unwrap()))
            }
        }
        Obj::Prv(x, w) => match r.below(8) {
            0 | 1 => {
                let c = *r.pick(&p.idx);
                log.push(format!("child {c:x} of {i}"));
                let want = w.ckd(c);
                let got = lib(|| x.derive_child(k::ChildNumber(c)))?;
                expect(got, want.clone().map(|_| ()), &|| format!("child {c:x} of {w:x?}"))?.map(|y| Obj::Prv(y, want.unwrap()))
            }
            2 if !paths.is_empty() => {
                let q = r.pick(&paths).clone();
                log.push(format!("path {} of a clone of {i}", b32::show_path(&q)));
                let want = w.path(&q);
                let got = lib(|| x.clone().derive_from_path(&gen::lib_path(&q)))?;
                expect(got, want.clone().map(|_| ()), &|| format!("path {q:x?} of {w:x?}"))?.map(|y| Obj::Prv(y, want.unwrap()))
            }
            3 => {
                log.push(format!("public key of {i}"));
                Some(Obj::Pub(lib(|| x.public_key())?, w.to_pub()))
            }
            4 => {
                let v = r.idx(4);
                log.push(format!("text of {i} as {}", gen::VERSIONS[v].0));
                let t = lib(|| x.to_string(gen::PRV_PREFIX[v]))?;
                Some(Obj::Txt(t, b32::text(gen::VERSIONS[v].1, &w.a, &w.key_bytes())))
            }
            5 => {
                let v = r.idx(4);
                log.push(format!("extended key object of {i} as {}", gen::VERSIONS[v].0));
                let e = lib(|| x.to_extended_key(gen::PRV_PREFIX[v]))?;
                Some(Obj::Ek(e, gen::VERSIONS[v].1, w.a.clone(), w.key_bytes()))
            }
            6 => {
                log.push(format!("plain key and signature of {i}"));
                let sk = lib(|| libsecp256k1::SecretKey::from(x))?;
                ensure_eq!(sk.serialize(), w.k, "plain key");
                let dg: [u8; 32] = p.digests[r.idx(6)].clone().try_into().unwrap();
                let got = lib(|| kms::ecdsa_sign(&sk, &dg))?.map_err(|e| e.to_string())?;
                ensure!(got == secp::sign(&w.k, &dg), "signature of {} under {}", hex(&dg), hex(&w.k));
                None
            }
            _ => {
                log.push(format!("compare {i} and {j}"));
                if let Obj::Prv(y, v) = &pool[j] {
                    ensure!(lib(|| x == y)? == (w == v), "comparison of {w:x?} and {v:x?}");
                }
                None
            }
        },
        Obj::Pub(x, w) => match r.below(6) {
            0 | 1 => {
                let c = *r.pick(&p.idx);
                log.push(format!("public child {c:x} of {i}"));
                let want = w.ckd(c);
                let got = lib(|| x.derive_child(k::ChildNumber(c)))?;
                expect(got, want.clone().map(|_| ()), &|| format!("public child {c:x} of {w:x?}"))?.map(|y| Obj::Pub(y, want.unwrap()))
            }
            2 if !paths.is_empty() => {
                let q = r.pick(&paths).clone();
                log.push(format!("public path {} of a clone of {i}", b32::show_path(&q)));
                let want = w.path(&q);
                let got = lib(|| x.clone().derive_from_path(&gen::lib_path(&q)))?;
                expect(got, want.clone().map(|_| ()), &|| format!("public path {q:x?} of {w:x?}"))?.map(|y| Obj::Pub(y, want.unwrap()))
            }
            3 => {
                let v = 4 + r.idx(4);
                log.push(format!("text of {i} as {}", gen::VERSIONS[v].0));
                let t = lib(|| x.to_string(gen::PUB_PREFIX[v - 4]))?;
                Some(Obj::Txt(Zeroizing::new(t), b32::text(gen::VERSIONS[v].1, &w.a, &w.k)))
            }
            4 => {
                let v = 4 + r.idx(4);
                log.push(format!("extended key object of {i}"));
                let e = lib(|| x.to_extended_key(gen::PUB_PREFIX[v - 4]))?;
                Some(Obj::Ek(e, gen::VERSIONS[v].1, w.a.clone(), w.k))
            }
            _ => {
                log.push(format!("fingerprint of {i}, compare with {j}"));
                ensure_eq!(lib(|| x.fingerprint())?, b32::fingerprint(&w.k), "fingerprint");
                if let Obj::Pub(y, v) = &pool[j] {
                    ensure!(lib(|| x == y)? == (w == v), "comparison of {w:x?} and {v:x?}");
                }
                None
            }
        },
        Obj::Path(q, w) => match r.below(4) {
            0 => {
                log.push(format!("parent of {i}"));
                let got = lib(|| q.parent())?;
                match (got, w.is_empty()) {
                    (None, true) => None,
                    (Some(g), false) => Some(Obj::Path(g, w[..w.len() - 1].to_vec())),
                    (g, _) => return Err(format!("parent of {w:x?} is {:?}", g.map(|x| x.to_string()))),
                }
            }
            1 => {
                log.push(format!("reparse {i}"));
                let g = lib(|| q.to_string().parse::<k::DerivationPath>())?.map_err(|e| format!("{w:x?}: {e:?}"))?;
                Some(Obj::Path(g, w.clone()))
            }
            2 => {
                // grow a clone by an iterator that fails half way
                log.push(format!("extend a clone of {i}"));
                let mut c = lib(|| q.clone())?;
                let add: Vec<u32> = (0..r.range(0, 5)).map(|_| *r.pick(&p.idx)).collect();
                let bang = r.chance(1, 3);
                let g = lib(|| {
                    c.extend(add.iter().enumerate().map(|(n, x)| {
                        if bang && n == 2 {
                            panic!("iterator panics")
                        }
                        k::ChildNumber(*x)
                    }))
                });
                let mut want = w.clone();
                if g.is_ok() {
                    want.extend(&add);
                    Some(Obj::Path(c, want))
                } else if bang && add.len() > 2 {
                    // whatever part of the two items was taken, the old ones stay in front
                    let now: Vec<u32> = c.iter().map(|x| x.0).collect();
                    ensure!(now.len() >= w.len() && now.len() <= w.len() + 2 && now[..w.len()] == w[..] && now[w.len()..] == add[..now.len() - w.len()], "after a panicking iterator {w:x?} became {now:x?}");
                    None
                } else {
                    return Err(format!("extend: {}", g.unwrap_err()));
                }
            }
            _ => {
                let c = *r.pick(&p.idx);
                log.push(format!("push {c:x} on a clone of {i}"));
                let mut g = lib(|| q.clone())?;
                lib(|| g.push(k::ChildNumber(c)))?;
                let mut want = w.clone();
                want.push(c);
                Some(Obj::Path(g, want))
            }
        },
        Obj::Ek(e, v, a, kb) => {
            log.push(format!("import a clone of object {i}"));
            let is_prv = gen::VERSIONS.iter().any(|x| x.1 == *v && x.2);
            let c = lib(|| e.clone())?;
            let d = lib(|| e.clone())?;
            let (x, y) = (lib(|| k::XPrv::try_from(c))?, lib(|| k::XPub::try_from(d))?);
            ensure!(x.is_ok() == is_prv && y.is_ok() == !is_prv, "object {v:x} imports as private {}, public {}", x.is_ok(), y.is_ok());
            match (x, y) {
                (Ok(x), _) => Some(Obj::Prv(x, Prv { k: kb[1..].try_into().unwrap(), a: a.clone() })),
                (_, Ok(y)) => Some(Obj::Pub(y, Pub { k: *kb, a: a.clone() })),
                _ => None,
            }
        }
        Obj::Txt(t, w) => {
            log.push(format!("parse text {i}"));
            let m = b32::parse(w).unwrap();
            if m.is_prv() {
                ensure!(lib(|| t.parse::<k::XPub>())?.is_err(), "private text imported as public");
                let g = lib(|| t.parse::<k::XPrv>())?.map_err(|e| format!("{w}: {e:?}"))?;
                Some(Obj::Prv(g, Prv { k: m.key[1..].try_into().unwrap(), a: m.a }))
            } else {
                ensure!(lib(|| t.parse::<k::XPrv>())?.is_err(), "public text imported as private");
                let g = lib(|| t.parse::<k::XPub>())?.map_err(|e| format!("{w}: {e:?}"))?;
                Some(Obj::Pub(g, Pub { k: m.key, a: m.a }))
            }
        }
    };
    if let Some(x) = new {
        x.check().map_err(|e| format!("new {}: {e}", x.name()))?;
        pool.push(x);
    }
    if r.chance(1, 4) {
        let c = pool[r.idx(pool.len())].cloned()?;
        c.check().map_err(|e| format!("clone of {}: {e}", c.name()))?;
        pool.push(c);
    }
    while pool.len() > 20 || pool.len() > 8 && r.chance(1, 10) {
        let x = pool.swap_remove(r.idx(pool.len()));
        log.push(format!("drop a {}", x.name()));
        if r.chance(1, 8) {
            std::thread::scope(|s| s.spawn(move || drop(x)).join()).map_err(|_| "drop panicked".to_string())?;
        } else {
            lib(|| drop(x))?;
        }
    }
    Ok(())
}

pub fn c21(env: &'static Env) {
    env.rule("Objects: random histories of derivations, conversions, clones, drops, failing calls and panicking caller code over a pool of live objects; every result and, throughout, every live object is compared with the reference model. Calls: numbered calls over a small pool of look-alike arguments are each performed alone in a fresh process, then again inside long random histories (one process, fresh processes, many orders), while unwinding, at thread end, inside caller code and in forked children, and the rendered results compared. Arguments and objects replace each other in one place in memory. Non-trivial: a distinct history prefix whose results were compared, or a distinct call performed both alone and inside histories.");
    let pool: &'static Pool = Box::leak(Box::new(Pool::new(env.seed)));
    env.phase("objects", env.n(4000, 80000), |m, r, _| {
        let mut v = vec![];
        let x = pool.prv(r);
        let (e, l) = (r.pick(&pool.ents).clone(), r.idx(2));
        v.push(Obj::Mn(lib(|| Mnemonic::from_entropy(&e, lists()[l].lang))?.map_err(|x| x.to_string())?, e, l));
        v.push(Obj::Prv(lib(|| gen::lib_prv(&x))?.map_err(|e| format!("{x:x?}: {e:?}"))?, x.clone()));
        v.push(Obj::Path(lib(|| gen::lib_path(&[]))?, vec![]));
        let q = r.pick(&pool.paths[..11]).clone();
        v.push(Obj::Path(lib(|| gen::lib_path(&q))?, q));
        v.push(v[1].cloned()?);
        let mut log = vec![];
        for n in 0..48 {
            step(&mut v, pool, r, &mut log).map_err(|e| format!("step {n}: {e}; history: {}", log.join("; ")))?;
            m.eval();
            m.seen(log.join(";").as_bytes());
            if n % 4 == 3 {
                for (i, x) in v.iter().enumerate() {
                    x.check().map_err(|e| format!("after step {n}, live {} {i}: {e}; history: {}", x.name(), log.join("; ")))?;
                    m.count("live objects re-checked");
                }
            }
        }
        m.sample(|| log.join("; "));
        Ok(())
    });

    let n_calls = env.n(spec::KINDS * 100, spec::KINDS * 500);
    let table: Vec<std::sync::OnceLock<String>> = (0..n_calls).map(|_| Default::default()).collect();
    let histories = ["histories", "fresh-histories"];
    if histories.iter().any(|h| env.wants(h)) {
        let next = std::sync::atomic::AtomicU64::new(0);
        std::thread::scope(|s| {
            for _ in 0..env.threads {
                s.spawn(|| loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if i >= n_calls {
                        break;
                    }
                    let out = Command::new(std::env::current_exe().unwrap()).args(["c21child", &env.seed.to_string(), &i.to_string()]).stdin(Stdio::null()).stderr(Stdio::null()).output();
                    let t = match out {
                        Ok(x) if x.status.success() => String::from_utf8_lossy(&x.stdout).trim_end_matches('\n').to_string(),
                        Ok(x) => format!("{i} process ended: {:?}", x.status),
                        Err(e) => {
                            eprintln!("cannot start a process: {e}");
                            std::process::exit(2)
                        }
                    };
                    table[i as usize].set(t).unwrap();
                });
            }
        });
        env.with("alone", |m| m.count_n("calls performed alone in a fresh process", n_calls));
    }
    let alone = |i: u64| table[i as usize].get().unwrap();
    env.phase("histories", env.n(1600, 16000), |m, r, c| {
        // clusters of the same few kinds, or everything
        let kinds: Vec<u64> = (0..r.range(1, 4)).map(|_| r.below(spec::KINDS)).collect();
        let mixed = c % 2 == 0;
        let mut hist = vec![];
        for _ in 0..120 {
            let i = if mixed { r.below(n_calls) } else { r.below(n_calls / spec::KINDS) * spec::KINDS + *r.pick(&kinds) };
            let (d, got) = spec::run(pool, i);
            hist.push(i);
            m.eval();
            m.seen(&i.to_le_bytes());
            let got = line(i, &got);
            if got != *alone(i) {
                return Err(format!("call {i} ({d}) gives {got:?} after the calls {:?}, but {:?} alone in a fresh process", &hist[hist.len().saturating_sub(40)..], alone(i)));
            }
        }
        Ok(())
    });
    crate::p_places::c21(env, pool);
    env.phase("fresh-histories", env.n(160, 1600), |m, r, _| {
        let ids: Vec<u64> = (0..60).map(|_| r.below(n_calls)).collect();
        let args: Vec<String> = ids.iter().map(|i| i.to_string()).collect();
        let out = Command::new(std::env::current_exe().unwrap()).args(["c21child", &env.seed.to_string()]).args(&args).stdin(Stdio::null()).stderr(Stdio::null()).output().map_err(|e| e.to_string())?;
        let text = String::from_utf8_lossy(&out.stdout).to_string();
        let got: Vec<&str> = text.lines().collect();
        for (n, i) in ids.iter().enumerate() {
            m.eval();
            m.count("calls inside fresh-process histories");
            let g = got.get(n).copied().unwrap_or("process ended");
            ensure!(g == alone(*i), "call {i} ({}) gives {g:?} as call {n} of a fresh process after {:?}, but {:?} alone", spec::run(pool, *i).0, &ids[..n], alone(*i));
        }
        Ok(())
    });
}
fn line(i: u64, s: &str) -> String {
    format!("{i} {:016x} {}", hash64(s.as_bytes()), s.chars().filter(|c| !c.is_control()).take(400).collect::<String>())
}
pub fn child_main(a: &[String]) -> i32 {
    let p = Pool::new(a[0].parse().unwrap_or(1));
    for (n, i) in a[1..].iter().enumerate() {
        let i: u64 = i.parse().unwrap_or(0);
        // in a longer history, some calls see made-up surroundings
        crate::world::mine(if n % 3 == 1 { 1 + (i % 64) as u8 } else { 0 });
        println!("{}", line(i, &spec::run(&p, i).1));
    }
    0
}

// ---- C22 ------------------------------------------------------------------------------------------
#[derive(Clone, Debug, PartialEq, Eq)]
enum Ev {
    PrvFrom(Vec<u8>),
    PubFrom(Vec<u8>),
    PrvStep(Vec<u8>, Vec<u8>),
    PubStep(Vec<u8>, Vec<u8>),
}
struct Plan {
    log: Vec<Ev>,
    fail: Option<(usize, k::Error)>,
    n: usize,
}
thread_local! {
    static PLAN: RefCell<Plan> = const { RefCell::new(Plan { log: vec![], fail: None, n: 0 }) };
}
fn plan(fail: Option<(usize, k::Error)>) {
    PLAN.with(|p| *p.borrow_mut() = Plan { log: vec![], fail, n: 0 });
}
/// What the library asked of the key type; asking the same thing twice in a row is its own business.
fn asked() -> Vec<Ev> {
    PLAN.with(|p| {
        let mut v = std::mem::take(&mut p.borrow_mut().log);
        v.dedup();
        v
    })
}
fn event(e: Ev) -> k::Result<()> {
    PLAN.with(|p| {
        let mut p = p.borrow_mut();
        p.log.push(e);
        p.n += 1;
        match p.fail {
            Some((at, err)) if p.n - 1 == at => Err(err),
            _ => Ok(()),
        }
    })
}
/// A key type that is not on any curve: steps hash.
#[derive(Clone, Debug, PartialEq, Eq)]
struct MockPrv([u8; 32]);
#[derive(Clone, Debug, PartialEq, Eq)]
struct MockPub([u8; 33]);
fn h(parts: &[&[u8]]) -> [u8; 32] {
    let mut d = hash::sha256(&parts.concat());
    // keep leading zeros and out-of-range values common
    match d[31] % 8 {
        0 => d[0] = 0,
        1 => d[..4].fill(0),
        2 => d[..20].fill(0xff),
        _ => (),
    }
    d
}
fn prv_step(s: &[u8], t: &[u8]) -> [u8; 32] {
    h(&[b"prv", s, t])
}
fn pub_of(s: &[u8]) -> [u8; 33] {
    let mut o = [0; 33];
    o[1..].copy_from_slice(&h(&[b"pub", s]));
    o[0] = 2 + (o[32] & 1);
    o
}
fn pub_step(s: &[u8], t: &[u8]) -> [u8; 33] {
    pub_of(&[s, t].concat())
}
impl PrivateKey for MockPrv {
    type PublicKey = MockPub;
    fn from_bytes(b: &k::PrivateKeyBytes) -> k::Result<Self> {
        event(Ev::PrvFrom(b.to_vec()))?;
        Ok(MockPrv(*b))
    }
    fn to_bytes(&self) -> k::PrivateKeyBytes {
        self.0
    }
    fn derive_child(&self, t: k::PrivateKeyBytes) -> k::Result<Self> {
        event(Ev::PrvStep(self.0.to_vec(), t.to_vec()))?;
        Ok(MockPrv(prv_step(&self.0, &t)))
    }
    fn public_key(&self) -> MockPub {
        MockPub(pub_of(&self.0))
    }
}
impl PublicKey for MockPub {
    fn from_bytes(b: k::PublicKeyBytes) -> k::Result<Self> {
        event(Ev::PubFrom(b.to_vec()))?;
        Ok(MockPub(b))
    }
    fn to_bytes(&self) -> k::PublicKeyBytes {
        self.0
    }
    fn derive_child(&self, t: k::PrivateKeyBytes) -> k::Result<Self> {
        event(Ev::PubStep(self.0.to_vec(), t.to_vec()))?;
        Ok(MockPub(pub_step(&self.0, &t)))
    }
    fn fingerprint(&self) -> k::KeyFingerprint {
        mock_fp(&self.0)
    }
}
/// The mock's own idea of a fingerprint: nothing the library could work out without asking.
fn mock_fp(b: &[u8; 33]) -> [u8; 4] {
    hash::sha512(&[b"fingerprint", &b[..]].concat())[..4].try_into().unwrap()
}
type MXPrv = k::ExtendedPrivateKey<MockPrv>;
type MXPub = k::ExtendedPublicKey<MockPub>;

/// The model of a step over the mock type: the child and the tweak that must be handed over.
fn m_prv(s: &[u8; 32], a: &Attrs, c: u32) -> (Vec<u8>, [u8; 32], Attrs) {
    let pk = pub_of(s);
    let mut d = vec![];
    if c >> 31 == 1 {
        d.push(0);
        d.extend(s);
    } else {
        d.extend(pk);
    }
    d.extend(c.to_be_bytes());
    let (il, cc) = b32::split(hash::hmac512(&a.cc, &d));
    (il.to_vec(), prv_step(s, &il), Attrs { depth: a.depth.wrapping_add(1), fp: mock_fp(&pk), child: c, cc })
}
fn m_pub(s: &[u8; 33], a: &Attrs, c: u32) -> (Vec<u8>, [u8; 33], Attrs) {
    let mut d = s.to_vec();
    d.extend(c.to_be_bytes());
    let (il, cc) = b32::split(hash::hmac512(&a.cc, &d));
    (il.to_vec(), pub_step(s, &il), Attrs { depth: a.depth.wrapping_add(1), fp: mock_fp(s), child: c, cc })
}
const ERRS: [k::Error; 7] = [k::Error::Base58, k::Error::Bip39, k::Error::ChildNumber, k::Error::Crypto, k::Error::Decode, k::Error::Depth, k::Error::SeedLength];

/// `limit`: the step after the last expected call is refused by the library itself; whether it consults the key type
/// for that step first (and then passes on what it says) is left open.
fn verdict_at<T>(m: &mut Mon, got: Result<T, k::Error>, want: Result<(), k::Error>, evs: &[Ev], limit: Option<Option<(usize, k::Error)>>, what: &dyn Fn() -> String) -> Result<Option<T>, String> {
    if let (Some(f), true) = (limit, PLAN.with(|p| p.borrow().n == evs.len() + 1)) {
        PLAN.with(|p| p.borrow_mut().log.pop());
        if let (Some((at, e)), Err(g)) = (f, &got) {
            if at == evs.len() && e == *g {
                return verdict(m, got, Err(e), evs, what);
            }
        }
    }
    verdict(m, got, want, evs, what)
}
fn verdict<T>(m: &mut Mon, got: Result<T, k::Error>, want: Result<(), k::Error>, evs: &[Ev], what: &dyn Fn() -> String) -> Result<Option<T>, String> {
    let log = asked();
    m.count_n("key type calls observed", log.len() as u64);
    ensure!(log == evs, "{}: the key type was asked {log:x?}, expected {evs:x?}", what());
    match (got, want) {
        (Ok(v), Ok(())) => Ok(Some(v)),
        (Err(a), Err(b)) if a == b => {
            m.count("failures passed on");
            Ok(None)
        }
        (Ok(_), Err(b)) => Err(format!("{}: yielded a key although the key type failed with {b:?}", what())),
        (Err(a), b) => Err(format!("{}: gave {a:?}, expected {b:?}", what())),
    }
}
fn same_prv(x: &MXPrv, s: &[u8; 32], a: &Attrs) -> R {
    ensure!(x.to_bytes() == *s && x.private_key().0 == *s && gen::model_attrs(x.attrs()) == *a, "key {} {:?}, expected {} {a:x?}", hex(&x.to_bytes()), x.attrs(), hex(s));
    Ok(())
}
fn same_pub(x: &MXPub, s: &[u8; 33], a: &Attrs) -> R {
    ensure!(x.to_bytes() == *s && x.public_key().0 == *s && gen::model_attrs(x.attrs()) == *a, "key {} {:?}, expected {} {a:x?}", hex(&x.to_bytes()), x.attrs(), hex(s));
    Ok(())
}
fn any32(r: &mut Rng) -> [u8; 32] {
    match r.below(6) {
        0 => [0; 32],
        1 => [0xff; 32],
        2 => secp::to_be(&secp::N),
        3 => {
            let mut b: [u8; 32] = r.arr();
            b[..r.range(1, 31)].fill(0);
            b
        }
        _ => r.arr(),
    }
}
fn plan_of(r: &mut Rng, steps: usize) -> Option<(usize, k::Error)> {
    if r.chance(1, 5) {
        None
    } else {
        Some((r.range(0, steps), *r.pick(&ERRS)))
    }
}

/// The built-in key types with the tweak replaced by a chosen one.
#[derive(Clone)]
struct TweakPrv(libsecp256k1::SecretKey);
#[derive(Clone)]
struct TweakPub(libsecp256k1::PublicKey);
thread_local! {
    static TWEAK: std::cell::Cell<[u8; 32]> = const { std::cell::Cell::new([0; 32]) };
}
impl PrivateKey for TweakPrv {
    type PublicKey = TweakPub;
    fn from_bytes(b: &k::PrivateKeyBytes) -> k::Result<Self> {
        PrivateKey::from_bytes(b).map(TweakPrv)
    }
    fn to_bytes(&self) -> k::PrivateKeyBytes {
        PrivateKey::to_bytes(&self.0)
    }
    fn derive_child(&self, _: k::PrivateKeyBytes) -> k::Result<Self> {
        PrivateKey::derive_child(&self.0, TWEAK.with(|t| t.get())).map(TweakPrv)
    }
    fn public_key(&self) -> TweakPub {
        TweakPub(PrivateKey::public_key(&self.0))
    }
}
impl PublicKey for TweakPub {
    fn from_bytes(b: k::PublicKeyBytes) -> k::Result<Self> {
        PublicKey::from_bytes(b).map(TweakPub)
    }
    fn to_bytes(&self) -> k::PublicKeyBytes {
        PublicKey::to_bytes(&self.0)
    }
    fn derive_child(&self, _: k::PrivateKeyBytes) -> k::Result<Self> {
        PublicKey::derive_child(&self.0, TWEAK.with(|t| t.get())).map(TweakPub)
    }
}

pub fn c22(env: &'static Env) {
    env.rule("A recording key type (steps are hashes, any bytes allowed) fails its n-th operation with each error in turn, for every n: creation, import, derivation and path derivation are judged by the exact sequence of bytes handed to it, the error, and the state of the parent. The built-in types get chosen tweaks around zero, the order, and the negated key. Non-trivial: a distinct (operation, arguments, failure plan) with the recorded calls compared, or a distinct (key, tweak).");
    let show = |f: &Option<(usize, k::Error)>| format!("{f:?}");
    env.phase("create", env.n(30000, 600000), |m, r, _| {
        let n = *r.pick(&[16usize, 32, 64, 128]);
        let seed = gen::block(r, n);
        let (il, cc) = b32::split(hash::hmac512(b"Bitcoin seed", &seed));
        let a0 = Attrs { depth: 0, fp: [0; 4], child: 0, cc };
        let q: Vec<u32> = (0..r.range(0, 5)).map(|_| gen::child(r)).collect();
        let f = plan_of(r, q.len());
        plan(f);
        let got = lib(|| MXPrv::new_from_path(&seed, &gen::lib_path(&q)))?;
        let mut evs = vec![Ev::PrvFrom(il.to_vec())];
        let (mut s, mut a) = (il, a0.clone());
        for c in &q {
            let (t, s2, a2) = m_prv(&s, &a, *c);
            evs.push(Ev::PrvStep(s.to_vec(), t));
            (s, a) = (s2, a2);
        }
        let want = match f {
            Some((at, e)) if at < evs.len() => {
                evs.truncate(at + 1);
                Err(e)
            }
            _ => Ok(()),
        };
        m.eval();
        m.seen(format!("{seed:?}{q:?}{f:?}").as_bytes());
        m.sample(|| format!("new_from_path({}, {}) failing {}: asked {:x?}", hex(&seed), b32::show_path(&q), show(&f), evs));
        let what = || format!("new_from_path({}, {}) with failure {}", hex(&seed), b32::show_path(&q), show(&f));
        if let Some(x) = verdict(m, got, want, &evs, &what)? {
            same_prv(&x, &s, &a).map_err(|e| format!("{}: {e}", what()))?;
        }
        // creation alone
        let f = if r.chance(1, 2) { Some((0, *r.pick(&ERRS))) } else { None };
        plan(f);
        let got = lib(|| MXPrv::new(&seed))?;
        let what = || format!("new({}) with failure {}", hex(&seed), show(&f));
        if let Some(x) = verdict(m, got, f.map_or(Ok(()), |(_, e)| Err(e)), &[Ev::PrvFrom(il.to_vec())], &what)? {
            same_prv(&x, &il, &a0).map_err(|e| format!("{}: {e}", what()))?;
        }
        Ok(())
    });
    env.phase("import", env.n(30000, 600000), |m, r, _| {
        let a = gen::attrs(r, 255);
        let s = any32(r);
        let v = r.idx(8);
        let (_, ver, is_prv) = gen::VERSIONS[v];
        let mut kb = [0u8; 33];
        kb[1..].copy_from_slice(&s);
        if !is_prv {
            kb[0] = 2 + r.below(2) as u8;
        }
        let text = b32::text(ver, &a, &kb);
        let f = if r.chance(1, 2) { Some((0, *r.pick(&ERRS))) } else { None };
        let want = f.map_or(Ok(()), |(_, e)| Err(e));
        m.eval();
        m.seen(format!("{text}{f:?}").as_bytes());
        let what = || format!("import of {text} with failure {}", show(&f));
        for by_text in [true, false] {
            plan(None);
            let ek = lib(|| text.parse::<k::ExtendedKey>())?.map_err(|e| format!("{text}: {e:?}"))?;
            plan(f);
            if is_prv {
                let got = if by_text { lib(|| text.parse::<MXPrv>())? } else { lib(|| MXPrv::try_from(ek))? };
                if let Some(x) = verdict(m, got, want, &[Ev::PrvFrom(s.to_vec())], &what)? {
                    same_prv(&x, &s, &a)?;
                    ensure_eq!(lib(|| x.to_string(gen::PRV_PREFIX[v]))?.to_string(), text, "text of an imported custom key");
                }
            } else {
                let got = if by_text { lib(|| text.parse::<MXPub>())? } else { lib(|| MXPub::try_from(ek))? };
                if let Some(x) = verdict(m, got, want, &[Ev::PubFrom(kb.to_vec())], &what)? {
                    same_pub(&x, &kb, &a)?;
                    ensure_eq!(lib(|| x.to_string(gen::PUB_PREFIX[v - 4]))?, text, "text of an imported custom key");
                }
            }
        }
        Ok(())
    });
    env.phase("derive", env.n(60000, 1200000), |m, r, _| {
        let mut a = gen::attrs(r, 254);
        let s = any32(r);
        let q: Vec<u32> = (0..r.range(1, 6)).map(|_| gen::child(r)).collect();
        if r.chance(1, 6) {
            // the limit falls inside the path
            a.depth = 255 - r.range(0, q.len()) as u8;
            if a.depth != 0 && a.fp == [0; 4] {
                a.fp = [1; 4];
            }
        }
        let public = r.chance(1, 2);
        let f = plan_of(r, q.len() - 1);
        m.eval();
        m.seen(format!("{s:?}{a:?}{q:?}{f:?}{public}").as_bytes());
        let what = || format!("{} {} {a:x?} along {} with failure {}", if public { "public" } else { "private" }, hex(&s), b32::show_path(&q), show(&f));
        plan(None);
        if public {
            let s = pub_of(&s);
            let x = lib(|| b32::text(0x0488b21e, &a, &s).parse::<MXPub>())?.map_err(|e| format!("{}: {e:?}", what()))?;
            let (mut evs, mut want, mut cs, mut ca, mut limit) = (vec![], Ok(()), s, a.clone(), None);
            for c in &q {
                if *c >> 31 == 1 {
                    want = Err(k::Error::ChildNumber);
                    limit = Some(f);
                    break;
                }
                if ca.depth == 255 {
                    want = Err(k::Error::Depth);
                    limit = Some(f);
                    break;
                }
                let (t, s2, a2) = m_pub(&cs, &ca, *c);
                evs.push(Ev::PubStep(cs.to_vec(), t));
                if f.map_or(false, |(at, _)| at == evs.len() - 1) {
                    want = Err(f.unwrap().1);
                    break;
                }
                (cs, ca) = (s2, a2);
            }
            plan(f);
            let got = lib(|| x.clone().derive_from_path(&gen::lib_path(&q)))?;
            if let Some(y) = verdict_at(m, got, want, &evs, limit, &what)? {
                same_pub(&y, &cs, &ca).map_err(|e| format!("{}: {e}", what()))?;
            }
            same_pub(&x, &s, &a).map_err(|e| format!("parent after {}: {e}", what()))?;
            // the first step alone: fails, then works, on the same parent
            if q[0] >> 31 == 0 && a.depth < 255 {
                let e = *r.pick(&ERRS);
                let (t, s2, a2) = m_pub(&s, &a, q[0]);
                let evs = [Ev::PubStep(s.to_vec(), t)];
                plan(Some((0, e)));
                let got = lib(|| x.derive_child(k::ChildNumber(q[0])))?;
                verdict(m, got, Err(e), &evs, &what)?;
                plan(None);
                let got = lib(|| x.derive_child(k::ChildNumber(q[0])))?;
                same_pub(&verdict(m, got, Ok(()), &evs, &what)?.unwrap(), &s2, &a2).map_err(|e| format!("after a failure, {}: {e}", what()))?;
            }
        } else {
            let mut kb = [0; 33];
            kb[1..].copy_from_slice(&s);
            let x = lib(|| b32::text(0x0488ade4, &a, &kb).parse::<MXPrv>())?.map_err(|e| format!("{}: {e:?}", what()))?;
            let (mut evs, mut want, mut cs, mut ca, mut limit) = (vec![], Ok(()), s, a.clone(), None);
            for c in &q {
                if ca.depth == 255 {
                    want = Err(k::Error::Depth);
                    limit = Some(f);
                    break;
                }
                let (t, s2, a2) = m_prv(&cs, &ca, *c);
                evs.push(Ev::PrvStep(cs.to_vec(), t));
                if f.map_or(false, |(at, _)| at == evs.len() - 1) {
                    want = Err(f.unwrap().1);
                    break;
                }
                (cs, ca) = (s2, a2);
            }
            plan(f);
            let got = lib(|| x.clone().derive_from_path(&gen::lib_path(&q)))?;
            if let Some(y) = verdict_at(m, got, want, &evs, limit, &what)? {
                same_prv(&y, &cs, &ca).map_err(|e| format!("{}: {e}", what()))?;
                let pb = lib(|| y.public_key())?;
                same_pub(&pb, &pub_of(&cs), &ca).map_err(|e| format!("public part, {}: {e}", what()))?;
            }
            same_prv(&x, &s, &a).map_err(|e| format!("parent after {}: {e}", what()))?;
            if a.depth < 255 {
                let e = *r.pick(&ERRS);
                let (t, s2, a2) = m_prv(&s, &a, q[0]);
                let evs = [Ev::PrvStep(s.to_vec(), t)];
                plan(Some((0, e)));
                let got = lib(|| x.derive_child(k::ChildNumber(q[0])))?;
                verdict(m, got, Err(e), &evs, &what)?;
                same_prv(&x, &s, &a).map_err(|e| format!("parent after {}: {e}", what()))?;
                plan(None);
                let got = lib(|| x.derive_child(k::ChildNumber(q[0])))?;
                same_prv(&verdict(m, got, Ok(()), &evs, &what)?.unwrap(), &s2, &a2).map_err(|e| format!("after a failure, {}: {e}", what()))?;
            }
        }
        m.sample(|| what());
        Ok(())
    });
    env.phase("tweaks", env.n(30000, 600000), |m, r, i| {
        let x = gen::prv(r, 254);
        let (n, sk) = (secp::N, secp::from_be(&x.k));
        let d = [r.below(4), 0, 0, 0];
        let t: [u8; 32] = match i % 12 {
            0 => secp::to_be(&n),
            1 => secp::to_be(&secp::add_carry(&n, &d).0),
            2 => [0xff; 32],
            3 => secp::to_be(&secp::sub_borrow(&n, &d).0),
            4 | 5 => secp::to_be(&secp::nneg(&sk)),
            6 => secp::to_be(&secp::nadd(&secp::nneg(&sk), &d)),
            7 => x.k,
            8 => {
                // above the order
                let mut b = [0xff; 32];
                r.fill(&mut b[16..]);
                b
            }
            9 => [0; 32],
            10 => secp::to_be(&d),
            _ => gen::sk(r),
        };
        let tw = secp::from_be(&t);
        let out = secp::ge(&tw, &n);
        let sum = if out { None } else { Some(secp::nadd(&tw, &sk)) };
        let good = sum.filter(|s| !secp::is_zero(s)).map(|s| secp::to_be(&s));
        m.eval();
        m.seen(&[&x.k[..], &t].concat());
        m.count(if out { "tweak of the order or more" } else if good.is_none() { "vanishing sum" } else if secp::is_zero(&tw) { "zero tweak" } else { "ordinary tweak" });
        let what = || format!("key {} tweak {}", hex(&x.k), hex(&t));
        let zero = secp::is_zero(&tw);
        let k0: libsecp256k1::SecretKey = lib(|| PrivateKey::from_bytes(&x.k))?.map_err(|e| format!("{}: {e:?}", what()))?;
        let p0 = lib(|| PrivateKey::public_key(&k0))?;
        let judge = |got: Option<Vec<u8>>, want: Option<Vec<u8>>| -> R {
            if zero && got.is_none() {
                return Ok(()); // chance 2^-256; refused by the key library, which is as good as passing the parent on
            }
            ensure!(got == want, "{}: got {:?}, expected {:?}", what(), got.map(|v| hex(&v)), want.map(|v| hex(&v)));
            Ok(())
        };
        let wp = good.map(|s| secp::pubkey(&s).unwrap().to_vec());
        judge(lib(|| PrivateKey::derive_child(&k0, t).ok().map(|y| PrivateKey::to_bytes(&y).to_vec()))?, good.map(|g| g.to_vec()))?;
        judge(lib(|| PublicKey::derive_child(&p0, t).ok().map(|y| PublicKey::to_bytes(&y).to_vec()))?, wp.clone())?;
        // through extended keys, one step and a path of two
        TWEAK.with(|c| c.set(t));
        let e = k::ExtendedKey { prefix: k::Prefix::XPRV, attrs: gen::lib_attrs(&x.a), key_bytes: x.key_bytes() };
        let xp: k::ExtendedPrivateKey<TweakPrv> = lib(|| e.try_into())?.map_err(|e: k::Error| format!("{e:?}"))?;
        let c = gen::child(r);
        judge(lib(|| xp.derive_child(k::ChildNumber(c)).ok().map(|y| y.to_bytes().to_vec()))?, good.map(|g| g.to_vec()))?;
        let xq = lib(|| xp.public_key())?;
        judge(lib(|| xq.derive_child(k::ChildNumber(c & 0x7fff_ffff)).ok().map(|y| y.to_bytes().to_vec()))?, wp)?;
        if good.is_none() {
            let q = gen::lib_path(&[c & 0x7fff_ffff, 1]);
            ensure!(lib(|| xp.clone().derive_from_path(&q).is_err())?, "{}: a path went past a refused step", what());
            ensure!(lib(|| xq.clone().derive_from_path(&q).is_err())?, "{}: a public path went past a refused step", what());
        }
        ensure!(xp.to_bytes() == x.k && xq.to_bytes() == PublicKey::to_bytes(&p0), "{}: the parent changed", what());
        m.sample(|| what());
        // key bytes the built-in type must refuse
        let bad = any32(r);
        ensure!(lib(|| <libsecp256k1::SecretKey as PrivateKey>::from_bytes(&bad).is_ok())? == secp::valid_sk(&secp::from_be(&bad)), "private key bytes {} judged wrongly", hex(&bad));
        Ok(())
    });
}

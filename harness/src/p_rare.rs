//! Inputs whose results have uncommon bytes: found once by long searches with the model (`kmsmon rare`),
//! kept in golden/rare.txt and given to the library by the "rare" phases.
use crate::mon::verif_dir;
use crate::oracle::bip32::{self as o, Attrs, Prv};
use crate::oracle::{bip39, hash, hex, secp, unhex};
use crate::rng::Rng;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::{Mutex, OnceLock};

/// One uncommon result: what was computed, from what, and what is uncommon about it.
pub struct Rare {
    pub kind: String,
    pub args: Vec<Vec<u8>>,
    pub tag: String,
}
impl Rare {
    pub fn arr<const N: usize>(&self, i: usize) -> [u8; N] {
        self.args[i][..].try_into().unwrap()
    }
}
pub fn all() -> &'static Vec<Rare> {
    static T: OnceLock<Vec<Rare>> = OnceLock::new();
    T.get_or_init(|| {
        let s = std::fs::read_to_string(format!("{}/golden/rare.txt", verif_dir())).expect("golden/rare.txt");
        s.lines()
            .filter(|l| !l.starts_with('#'))
            .map(|l| {
                let (l, tag) = l.split_once(" : ").unwrap();
                let mut it = l.split(' ');
                let kind = it.next().unwrap().to_string();
                Rare { kind, args: it.map(|x| if x == "-" { vec![] } else { unhex(x).unwrap() }).collect(), tag: tag.to_string() }
            })
            .collect()
    })
}
pub fn of(kind: &str) -> Vec<&'static Rare> {
    all().iter().filter(|r| r.kind == kind).collect()
}

fn run(b: &[u8], v: u8) -> usize {
    b.iter().take_while(|x| **x == v).count()
}
fn run_end(b: &[u8], v: u8) -> usize {
    b.iter().rev().take_while(|x| **x == v).count()
}
/// What is uncommon about a value; `z`: how long a run of equal bytes must be at an end.
fn odd(name: &str, b: &[u8], z: usize, limbs: bool, f: &mut impl FnMut(String)) {
    for (v, t) in [(0u8, "00"), (0xff, "ff")] {
        let n = run(b, v);
        if n >= z {
            f(format!("{name} starts with {n} bytes {t}"));
        }
        let n = run_end(b, v);
        if n >= z {
            f(format!("{name} ends with {n} bytes {t}"));
        }
        if limbs {
            for (i, c) in b.chunks(4).enumerate() {
                if c.iter().all(|x| *x == v) {
                    f(format!("{name} word {i} all {t}"));
                }
            }
        }
    }
}

struct Out {
    kept: Mutex<BTreeMap<String, Vec<String>>>,
}
impl Out {
    fn put(&self, tag: String, line: String) {
        let kind = line.split(' ').next().unwrap().to_string();
        let mut k = self.kept.lock().unwrap();
        let e = k.entry(format!("{kind} {tag}")).or_default();
        if e.len() < 6 {
            e.push(format!("{line} : {tag}"));
        }
    }
}
fn h(b: &[u8]) -> String {
    if b.is_empty() { "-".into() } else { hex(b) }
}

/// Splits n jobs over the processors.
fn par(name: &str, n: u64, f: impl Fn(&mut Rng, u64) + Sync) {
    let t = std::time::Instant::now();
    let next = AtomicU64::new(0);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, SeqCst);
                if i >= n {
                    break;
                }
                f(&mut Rng::new(0x4a4e, name, i), i);
            });
        }
    });
    eprintln!("{name}: {n} jobs {:.1} s", t.elapsed().as_secs_f64());
}
fn quick_sum(a: &[u8], k: &secp::U) -> [u8; 32] {
    let t = secp::from_be(a);
    if secp::ge(&t, &secp::N) { [0x55; 32] } else { secp::to_be(&secp::nadd(&t, k)) }
}

pub fn search(scale: u64) -> i32 {
    let out = Out { kept: Mutex::default() };
    let blk = 1u64 << 20;
    // master keys
    for len in [16usize, 32, 64, 128] {
        par(&format!("master{len}"), scale / 2, |r, _| {
            let mac = hash::Hmac512::new(b"Bitcoin seed");
            let mut s = r.bytes(len);
            for i in 0..blk {
                s[..8].copy_from_slice(&r.u64().to_le_bytes());
                let _ = i;
                let m = mac.mac(&s);
                for (n, b) in [("master key", &m[..32]), ("master chain code", &m[32..])] {
                    odd(n, b, 3, true, &mut |t| out.put(t, format!("master {}", h(&s))));
                }
            }
        });
    }
    // children
    for hard in [false, true] {
        par(if hard { "hard" } else { "soft" }, scale * 2, |r, _| {
            let p = Prv { k: r.arr(), a: Attrs { depth: 1, fp: [1, 2, 3, 4], child: 5, cc: r.arr() } };
            let (k, pk) = (secp::from_be(&p.k), secp::pubkey(&p.k).unwrap());
            let mac = hash::Hmac512::new(&p.a.cc);
            let base = if hard { 1 << 31 } else { 0 } + ((r.below(2000) as u32) << 20);
            let mut d = p.data(0, &pk);
            for i in 0..blk as u32 {
                let c = base.wrapping_add(i) & 0x7fff_ffff | if hard { 1 << 31 } else { 0 };
                d[33..].copy_from_slice(&c.to_be_bytes());
                let m = mac.mac(&d);
                let sum = quick_sum(&m[..32], &k);
                for (n, b) in [("tweak", &m[..32]), ("child chain code", &m[32..]), ("child key", &sum[..])] {
                    odd(n, b, 3, true, &mut |t| out.put(t, format!("{} {} {} {}", if hard { "hard" } else { "soft" }, h(&p.k), h(&p.a.cc), h(&c.to_be_bytes()))));
                }
            }
        });
    }
    // public keys and fingerprints
    par("key", scale * 2, |r, _| {
        let k0 = secp::from_be(&r.arr::<32>());
        secp::walk(&k0, blk, |i, p| {
            let pk = secp::compress(p);
            let id = hash::hash160(&pk);
            let mut put = |t: String| {
                let k = secp::to_be(&secp::nadd(&k0, &[i, 0, 0, 0]));
                assert_eq!(secp::pubkey(&k), Some(pk));
                out.put(t, format!("key {}", h(&k)))
            };
            odd("x", &pk[1..], 3, true, &mut put);
            odd("y", &secp::to_be(&p.1), 3, true, &mut put);
            odd("fingerprint", &id[..4], 3, false, &mut put);
            odd("key hash", &id, 3, true, &mut put);
        });
    });
    // checksums of serialised keys
    par("text", scale, |r, i| {
        let prv = i % 2 == 0;
        let (v, k) = if prv {
            let mut k = [0u8; 33];
            k[1..].copy_from_slice(&r.arr::<32>());
            (0x0488ADE4, k)
        } else {
            (0x0488B21E, secp::pubkey(&r.arr::<32>()).unwrap())
        };
        let mut b = o::raw(v, &Attrs { depth: 3, fp: r.arr(), child: r.u32(), cc: r.arr() }, &k);
        for _ in 0..blk {
            b[13..21].copy_from_slice(&r.u64().to_le_bytes());
            let c = hash::sha256(&hash::sha256(&b));
            odd("checksum", &c[..4], 3, false, &mut |t| out.put(t, format!("text {}", h(&b))));
        }
    });
    // signatures
    par("sig", scale, |r, _| {
        for _ in 0..blk >> 6 {
            let (k, d) = (r.arr::<32>(), r.arr::<32>());
            let sk = libsecp256k1::SecretKey::parse(&k).unwrap();
            let (s, rec) = libsecp256k1::sign(&libsecp256k1::Message::parse(&d), &sk);
            let s = s.serialize();
            odd("r", &s[..32], 3, false, &mut |t| out.put(t + &format!(" recid {}", rec.serialize()), format!("sig {} {}", h(&k), h(&d))));
            odd("s", &s[32..], 3, false, &mut |t| out.put(t + &format!(" recid {}", rec.serialize()), format!("sig {} {}", h(&k), h(&d))));
        }
    });
    // seeds
    par("seed", scale / 4, |r, _| {
        let n = *r.pick(&[16usize, 20, 24, 28, 32]);
        for j in 0..1024u32 {
            let e = r.bytes(n);
            let l = (j % 2) as usize;
            let p = if j % 3 == 0 { String::new() } else { format!("p{}", r.u32()) };
            let s = bip39::seed(&bip39::sentence(&e, l), l, &p);
            odd("seed", &s, 2, false, &mut |t| out.put(t + &format!(" list {l}"), format!("seed {} {} {}", h(&e), h(&[l as u8]), h(p.as_bytes()))));
        }
    });
    println!("# inputs with uncommon results, found by: kmsmon rare {scale}");
    for v in out.kept.lock().unwrap().values() {
        for l in v {
            println!("{l}");
        }
    }
    0
}

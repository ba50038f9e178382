//! C06 to C13.
use crate::gen::{self, lib_path, lib_prv, lib_pub, model_prv, model_pub};
use crate::mon::{lib, short, Env, Mon, R};
use crate::oracle::bip32::{self as o, Attrs, Er, Prv, Pub};
use crate::oracle::{b58, hex, secp};
use crate::{p_alike, p_rare};
use crate::rng::Rng;
use crate::{ensure, ensure_eq};
use kms::bip32::{ChildNumber, DerivationPath, Error, ExtendedKey, Prefix, XPrv, XPub};
use std::str::FromStr;
use subtle::ConstantTimeEq;

pub fn same_err(e: Error, w: Er) -> bool {
    matches!((e, w), (Error::SeedLength, Er::SeedLength) | (Error::Depth, Er::Depth) | (Error::ChildNumber, Er::Child) | (Error::Crypto, Er::Crypto))
}
pub fn cmp_prv(got: Result<XPrv, Error>, want: Result<Prv, Er>, what: &str) -> R {
    match (got, want) {
        (Ok(g), Ok(w)) => {
            let g = lib(|| model_prv(&g))?;
            ensure!(g == w, "{what}: got {g:x?}, expected {w:x?}");
            Ok(())
        }
        (Err(e), Err(w)) => {
            ensure!(same_err(e, w), "{what}: error {e:?}, expected {w:?}");
            Ok(())
        }
        (g, w) => Err(format!("{what}: got {:x?}, expected {w:x?}", g.map(|g| model_prv(&g)))),
    }
}
pub fn cmp_pub(got: Result<XPub, Error>, want: Result<Pub, Er>, what: &str) -> R {
    match (got, want) {
        (Ok(g), Ok(w)) => {
            let g = lib(|| model_pub(&g))?;
            ensure!(g == w, "{what}: got {g:x?}, expected {w:x?}");
            Ok(())
        }
        (Err(e), Err(w)) => {
            ensure!(same_err(e, w), "{what}: error {e:?}, expected {w:?}");
            Ok(())
        }
        (g, w) => Err(format!("{what}: got {:x?}, expected {w:x?}", g.map(|g| model_pub(&g)))),
    }
}
pub fn mk_prv(p: &Prv) -> Result<XPrv, String> {
    lib(|| lib_prv(p))?.map_err(|e| format!("extended private key {p:x?} refused: {e:?}"))
}
pub fn mk_pub(p: &Pub) -> Result<XPub, String> {
    lib(|| lib_pub(p))?.map_err(|e| format!("extended public key {p:x?} refused: {e:?}"))
}
pub fn key_id(p: &Prv) -> Vec<u8> {
    o::raw(0, &p.a, &p.key_bytes())
}
fn zeros(b: &[u8]) -> usize {
    b.iter().take_while(|x| **x == 0).count()
}

pub fn c06(env: &'static Env) {
    env.rule("Boundary-biased seeds of the four lengths given as slices, vectors, arrays and through the path constructor, and every other length 0..700 plus lengths congruent to good ones. Non-trivial: a distinct seed whose key, chain code and attributes were compared with the reference HMAC, or a distinct refused length.");
    p_alike::c06(env);
    env.phase("seeds", env.n(400_000, 8_000_000), |m, r, _| {
        let n = *r.pick(&[16usize, 32, 64, 128]);
        let s = gen::block(r, n);
        let want = o::master(&s);
        m.eval();
        m.seen(&s);
        m.count(&format!("{n}-byte seeds"));
        m.sample(|| format!("seed {}", hex(&s)));
        if let Ok(w) = &want {
            if zeros(&w.k) > 0 {
                m.count("master keys with a leading zero byte");
            }
            if zeros(&w.a.cc) > 0 {
                m.count("chain codes with a leading zero byte");
            }
        }
        let got = match r.below(3) {
            0 => lib(|| XPrv::new(&gen::at(&s)[..]))?,
            1 => lib(|| XPrv::new(s.clone()))?,
            _ => lib(|| XPrv::new_from_path(&gen::at(&s)[..], &DerivationPath::default()))?,
        };
        cmp_prv(got, want, &format!("master of seed {}", short(&s)))
    });
    rare_phase(env, |m, _, x| {
        if x.kind != "master" {
            return Ok(());
        }
        let s = &x.args[0];
        m.eval();
        m.seen(s);
        cmp_prv(lib(|| XPrv::new(s))?, o::master(s), &format!("master of seed {}", short(s)))?;
        cmp_prv(lib(|| XPrv::new_from_path(s, &DerivationPath::default()))?, o::master(s), &format!("master of seed {}", short(s)))
    });
    let mut bad: Vec<usize> = (0..700).collect();
    for s in [16usize, 32, 64, 128] {
        for k in 1..5 {
            bad.extend([s + 256 * k, s + 65536 * k, s * k + 1, s * 16 * k, s + (s * k) / 2]);
        }
    }
    bad.extend([256, 512, 1024, 2048, 4096]);
    bad.retain(|b| ![16, 32, 64, 128].contains(b));
    bad.sort();
    bad.dedup();
    env.phase("lengths", bad.len() as u64 * 3, |m, r, i| {
        let n = bad[i as usize / 3];
        let s = gen::block(r, n);
        m.eval();
        m.seen(&n.to_le_bytes());
        m.count("refused seeds");
        let p = lib_path(&(0..r.below(3)).map(|_| gen::child(r)).collect::<Vec<_>>());
        cmp_prv(lib(|| XPrv::new(&s))?, Err(Er::SeedLength), &format!("master of a {n}-byte seed"))?;
        cmp_prv(lib(|| XPrv::new_from_path(&s, &p))?, Err(Er::SeedLength), &format!("path from a {n}-byte seed"))
    });
}

pub fn c07(env: &'static Env) {
    env.rule("Parents with boundary-biased keys (leading zeros, near 0, n/2 and n), chain codes, depths and indices on both sides of 2^31. Non-trivial: a distinct (parent, index) whose child fields were compared with the reference CKDpriv, or whose depth error was.");
    p_alike::c07(env);
    env.phase("children", env.n(150_000, 4_000_000), |m, r, _| {
        let p = gen::prv(r, 255);
        let c = gen::child_for(r, &p.a);
        let x = mk_prv(&p)?;
        let want = p.ckd(c);
        let got = lib(|| x.derive_child(ChildNumber(c)))?;
        m.eval();
        m.seen(&[key_id(&p), c.to_be_bytes().to_vec()].concat());
        m.sample(|| format!("parent {p:x?} child {c:#x}"));
        m.count(if c >> 31 == 1 { "hardened" } else { "normal" });
        match &want {
            Ok(w) => {
                let z = zeros(&w.k);
                if z > 0 {
                    m.count(&format!("child keys with {z} leading zero bytes"));
                }
                if zeros(&p.k) > 0 {
                    m.count("parent keys with leading zero bytes");
                }
            }
            Err(_) => m.count("refused at depth 255"),
        }
        cmp_prv(got, want, &format!("child {c:#x} of {p:x?}"))?;
        ensure!(lib(|| model_prv(&x))? == p, "deriving changed the parent {p:x?}");
        Ok(())
    });
    env.phase("chains", env.n(400, 8000), |m, r, _| {
        // long derivation chains from a seed, compared at each step
        let s = gen::block(r, 32);
        let mut w = o::master(&s).map_err(|e| format!("{e:?}"))?;
        let mut x = lib(|| XPrv::new(&s))?.map_err(|e| format!("{e:?}"))?;
        let deep = r.chance(1, 8);
        for _ in 0..if deep { 256 } else { 20 } {
            let c = gen::child_for(r, &w.a);
            let want = w.ckd(c);
            let got = lib(|| x.derive_child(c.into()))?;
            m.eval();
            m.seen(&[key_id(&w), c.to_be_bytes().to_vec()].concat());
            cmp_prv(got.clone(), want.clone(), &format!("child {c:#x} of {w:x?}"))?;
            match (got, want) {
                (Ok(g), Ok(n)) => {
                    x = g;
                    w = n;
                }
                _ => break,
            }
        }
        m.max("depth reached", w.a.depth as u64);
        Ok(())
    });
    rare_phase(env, |m, r, x| {
        // the uncommon child, and children of uncommon keys
        let step = |m: &mut Mon, p: &Prv, c: u32| -> R {
            let xp = mk_prv(p)?;
            m.eval();
            m.seen(&[key_id(p), c.to_be_bytes().to_vec()].concat());
            cmp_prv(lib(|| xp.derive_child(ChildNumber(c)))?, p.ckd(c), &format!("child {c:#x} of {p:x?}"))
        };
        if x.kind == "soft" || x.kind == "hard" {
            step(m, &rare_parent(x, r), u32::from_be_bytes(x.arr(2)))?;
        }
        for p in rare_keys(x, r)? {
            step(m, &p, gen::index31(r))?;
            step(m, &p, gen::index31(r) | 1 << 31)?;
            step(m, &p, 0)?;
        }
        Ok(())
    });
    // every depth and every single-bit index
    env.phase("depth-index", 256 * 64, |m, r, i| {
        let mut p = gen::prv(r, 254);
        p.a.depth = (i / 64) as u8;
        if p.a.depth == 0 {
            p.a.fp = [0; 4];
            p.a.child = 0;
        }
        let b = 1u32 << (i % 32);
        let c = if i % 64 < 32 { b } else { !b };
        let x = mk_prv(&p)?;
        m.eval();
        m.seen(&[key_id(&p), c.to_be_bytes().to_vec()].concat());
        cmp_prv(lib(|| x.derive_child(ChildNumber(c)))?, p.ckd(c), &format!("child {c:#x} of {p:x?}"))
    });
}

pub fn c08(env: &'static Env) {
    env.rule("Public parents (from boundary-biased private keys and from bare points) with boundary-biased chain codes, depths and indices; derived by the library's public branch, its private branch and the reference. Non-trivial: a distinct (parent, index) for which all three agreed, or whose refusal was the right one.");
    p_alike::c08(env);
    env.phase("children", env.n(100_000, 3_000_000), |m, r, _| {
        let p = gen::prv(r, 255);
        let q = p.to_pub();
        let c = if r.chance(1, 6) { gen::child(r) } else { gen::child_for(r, &p.a) & 0x7fff_ffff };
        let x = if r.chance(1, 2) { mk_pub(&q)? } else { let x = mk_prv(&p)?; lib(|| x.public_key())? };
        let got = lib(|| x.derive_child(ChildNumber(c)))?;
        m.eval();
        m.seen(&[key_id(&p), c.to_be_bytes().to_vec()].concat());
        m.sample(|| format!("parent {q:x?} child {c:#x}"));
        let want = q.ckd(c);
        m.count(match &want {
            Ok(_) => "derived",
            Err(Er::Child) => "refused: hardened",
            Err(_) => "refused: depth",
        });
        if let (Ok(g), true) = (&got, c >> 31 == 0) {
            // the private branch, by the library
            let xp = mk_prv(&p)?;
            let side = lib(|| xp.derive_child(ChildNumber(c)))?.map_err(|e| format!("private branch fails ({e:?}) where the public one succeeds: {p:x?} {c:#x}"))?;
            let side = lib(|| side.public_key())?;
            ensure!(side == *g && model_pub(&side) == model_pub(g), "private and public branches differ for child {c:#x} of {p:x?}: {:x?} / {:x?}", model_pub(&side), model_pub(g));
            m.count("compared with the private branch");
        }
        cmp_pub(got, want, &format!("public child {c:#x} of {q:x?}"))?;
        ensure!(lib(|| model_pub(&x))? == q, "deriving changed the public parent {q:x?}");
        Ok(())
    });
    env.phase("points", env.n(20_000, 400_000), |m, r, _| {
        // points nobody knows the key of
        let q = loop {
            let mut k = [0u8; 33];
            k[0] = 2 + r.below(2) as u8;
            let b = gen::block(r, 32);
            k[1..].copy_from_slice(&b);
            if secp::decompress(&k).is_some() {
                break Pub { k, a: gen::attrs(r, 254) };
            }
        };
        let c = gen::index31(r);
        let x = mk_pub(&q)?;
        m.eval();
        m.seen(&[o::raw(0, &q.a, &q.k), c.to_be_bytes().to_vec()].concat());
        cmp_pub(lib(|| x.derive_child(ChildNumber(c)))?, q.ckd(c), &format!("public child {c:#x} of {q:x?}"))
    });
    rare_phase(env, |m, r, x| {
        let step = |m: &mut Mon, p: &Prv, c: u32| -> R {
            let q = p.to_pub();
            let (xq, xp) = (mk_pub(&q)?, mk_prv(p)?);
            m.eval();
            m.seen(&[key_id(p), c.to_be_bytes().to_vec()].concat());
            let side = lib(|| xp.derive_child(ChildNumber(c)).map(|y| y.public_key()))?;
            cmp_pub(side, q.ckd(c), &format!("child {c:#x} of {p:x?} through the private branch"))?;
            cmp_pub(lib(|| xq.derive_child(ChildNumber(c)))?, q.ckd(c), &format!("public child {c:#x} of {q:x?}"))
        };
        if x.kind == "soft" {
            step(m, &rare_parent(x, r), u32::from_be_bytes(x.arr(2)))?;
        }
        for p in rare_keys(x, r)? {
            step(m, &p, gen::index31(r))?;
            step(m, &p, 0)?;
        }
        Ok(())
    });
    env.phase("depth-index", 256 * 32, |m, r, i| {
        let mut q = gen::prv(r, 254).to_pub();
        q.a.depth = (i / 32) as u8;
        if q.a.depth == 0 {
            q.a.fp = [0; 4];
            q.a.child = 0;
        }
        let c = (1u32 << (i % 32)) - r.below(2) as u32;
        let x = mk_pub(&q)?;
        m.eval();
        m.seen(&[o::raw(0, &q.a, &q.k), c.to_be_bytes().to_vec()].concat());
        cmp_pub(lib(|| x.derive_child(ChildNumber(c)))?, q.ckd(c), &format!("public child {c:#x} of {q:x?}"))
    });
}

// ---- C09 ---------------------------------------------------------------------------------------
fn number_text(r: &mut Rng) -> String {
    let n = match r.below(7) {
        0 => gen::index31(r).to_string(),
        1 => (gen::index31(r) as u64 + (1u64 << 31)).to_string(),
        2 => (gen::index31(r) as u64 + (1u64 << 32)).to_string(),
        3 => r.pick(&["2147483647", "2147483648", "4294967295", "4294967296", "4294967297", "18446744073709551615", "18446744073709551616", "18446744073709551617", "340282366920938463463374607431768211456", "0", "00", "2147483649"]).to_string(),
        4 => (0..r.range(0, 30)).map(|_| (b'0' + r.below(10) as u8) as char).collect(),
        5 => format!("{}{}", "0".repeat(r.range(1, 20)), gen::index31(r)),
        _ => r.below(1000).to_string(),
    };
    n
}
pub fn child_text(r: &mut Rng) -> String {
    let n = number_text(r);
    match r.below(13) {
        12 => match r.below(6) {
            0 => gen::odd_word(r),
            1 => format!("{:x}'", gen::child(r)),
            2 => format!("0x{:x}", gen::child(r)),
            3 => format!("{}_{:03}", r.below(1000), r.below(1000)),
            4 => format!("{},{:03}", r.below(1000), r.below(1000)),
            _ => ["*", "*'", "<0;1>", "purpose", "bip44", "btc'", "eth", "account", "change", "H", "hardened", "infinity", "-0", "+0'", "00", "00'", "1e3", "∞"][r.idx(18)].into(),
        },
        0 => format!("{n}'"),
        1 => format!("{n}''"),
        2 => format!("{}{n}", r.pick(&["+", "-", " ", "'", "\u{ff0b}", "0x", "_", "h"])),
        3 => format!("{n}{}", r.pick(&["h", "H", " ", "\u{2019}", "\u{2032}", "`", "\"", "' ", "\n", "\0", "'h", ".", "e1", "_", "u32", "/", "\u{ff07}"])),
        4 => {
            // other decimal digits
            let z = *r.pick(&[0xff10u32, 0x660, 0x6f0, 0x966, 0x1d7ce, 0xe50]);
            n.chars().map(|c| if r.chance(1, 2) && c.is_ascii_digit() { char::from_u32(z + c as u32 - 48).unwrap() } else { c }).collect()
        }
        5 => gen::mutate_text(r, &n, &['0', '1', '9', '\'', '+', '-', ' ', '/', 'm']),
        6 => gen::text(r, 4),
        7 | 8 => format!("{n}'"),
        _ => n,
    }
}

/// An iterator with a right but unusual size hint, which has more to give after its end.
struct Hinted {
    v: Vec<u32>,
    at: usize,
    hint: (usize, Option<usize>),
    after: usize,
}
impl Iterator for Hinted {
    type Item = ChildNumber;
    fn next(&mut self) -> Option<ChildNumber> {
        self.at += 1;
        match self.at - 1 {
            i if i < self.v.len() => Some(ChildNumber(self.v[i])),
            i if i > self.v.len() && i - self.v.len() <= self.after => Some(ChildNumber(i as u32)),
            _ => None,
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let left = self.v.len().saturating_sub(self.at);
        (self.hint.0.saturating_sub(self.at).min(left), self.hint.1.map(|u| u.saturating_sub(self.at).max(left)))
    }
}

pub fn c09(env: &'static Env) {
    env.rule("Component and path texts derived from the grammar and then damaged (signs, other digits, spaces, doubled or misplaced marks, overflows around 2^31, 2^32, 2^64 and 2^128, leading zeros, empty components), all 4-byte patterns by boundary, and histories of push/extend/parent/iterate against a plain list. Non-trivial: a distinct text or number or history judged by the reference parser or list.");
    env.phase("child-text", env.n(600_000, 10_000_000), |m, r, _| {
        let t = child_text(r);
        let want = o::parse_child(&t);
        let got = lib(|| ChildNumber::from_str(&gen::text_at(&t)))?;
        m.eval();
        m.seen(t.as_bytes());
        m.sample(|| t.clone());
        m.count(if want.is_some() { "child texts accepted" } else { "child texts refused" });
        match (got, want) {
            (Ok(g), Some(w)) => ensure_eq!(u32::from(g), w, "child number {t:?}"),
            (Err(_), None) => {}
            (g, w) => return Err(format!("child number {t:?}: {g:?}, expected {w:?}")),
        }
        Ok(())
    });
    env.phase("child-numbers", env.n(300_000, 5_000_000), |m, r, i| {
        let v = if i < 66 { (1u64 << (i / 2)).wrapping_sub(i & 1) as u32 } else { gen::child(r) };
        let c = ChildNumber(v);
        m.eval();
        m.seen(&v.to_le_bytes());
        let t = lib(|| c.to_string())?;
        ensure_eq!(t, o::show_child(v), "text of child {v:#x}");
        ensure_eq!(lib(|| ChildNumber::from_str(&t))?, Ok(c), "parse of {t}");
        ensure_eq!(lib(|| u32::from(c))?, v, "u32 of child");
        ensure_eq!(lib(|| ChildNumber::from(v))?, c, "child from u32");
        ensure_eq!(lib(|| c.to_bytes())?, v.to_be_bytes(), "bytes of child {v:#x}");
        ensure_eq!(lib(|| ChildNumber::from_bytes(v.to_be_bytes()))?, c, "child from bytes");
        ensure_eq!(lib(|| c.index())?, v & 0x7fff_ffff, "index of {v:#x}");
        ensure_eq!(lib(|| c.is_hardened())?, v >> 31 == 1, "hardened {v:#x}");
        for h in [false, true] {
            let n = lib(|| ChildNumber::new(v, h))?;
            if v >> 31 == 1 {
                ensure!(n == Err(Error::ChildNumber), "ChildNumber::new({v:#x}, {h}) is {n:?}");
            } else {
                ensure_eq!(n, Ok(ChildNumber(v | (h as u32) << 31)), "ChildNumber::new({v:#x}, {h})");
            }
        }
        // order is the order of the integers
        let w = gen::child(r);
        ensure_eq!(lib(|| c.cmp(&ChildNumber(w)))?, v.cmp(&w), "order of {v:#x} and {w:#x}");
        ensure_eq!(lib(|| c == ChildNumber(w))?, v == w, "equality of {v:#x} and {w:#x}");
        Ok(())
    });
    env.phase("path-text", env.n(400_000, 8_000_000), |m, r, _| {
        let k = if r.chance(1, 100) { r.range(0, 400) } else { r.range(0, 8) };
        let bad = r.chance(1, 2);
        let mut t = String::from("m");
        for _ in 0..k {
            t.push('/');
            if bad && r.chance(1, 4) {
                t += &child_text(r);
            } else {
                t += &o::show_child(gen::child(r));
            }
        }
        if r.chance(1, 4) {
            t = match r.below(12) {
                9 => format!("{}{t}{}", r.pick(&["[", "\"", "bitcoin:", "path=", "wpkh(", "#", "m/", "0/"]), r.pick(&["]", "\"", "#abcdef", ")", "?", "/*", ""])),
                10 => gen::odd_word(r),
                11 => t.replace("/", *r.pick(&["//", ".", "-", ",", " ", " / ", "\u{ff0f}", "%2f", "|", ">"])),
                0 => t.replacen('m', r.pick(&["M", "", "n", " m", "mm", "m ", "m'", "\u{ff4d}", "/m", "./"]), 1),
                1 => t + r.pick(&["/", "//", " ", "\n", "/ ", "'", "/m", "/'", "\0"]),
                2 => t.replacen('/', "//", 1),
                3 => t.replace('/', "\\"),
                4 => t.replace('\'', "h"),
                5 => t.replacen("m/", "", 1),
                6 => gen::mutate_text(r, &t, &['/', '\'', 'm', '0', '9', '+', ' ']),
                7 => t.replacen('/', "\u{2215}", 1),
                _ => gen::text(r, 10),
            };
        }
        let want = o::parse_path(&t);
        let got = lib(|| DerivationPath::from_str(&gen::text_at(&t)))?;
        m.eval();
        m.seen(t.as_bytes());
        m.sample(|| t.clone());
        m.count(if want.is_some() { "paths accepted" } else { "paths refused" });
        match (got, want) {
            (Ok(g), Some(w)) => {
                let nums: Vec<u32> = lib(|| g.iter().map(u32::from).collect())?;
                ensure!(nums == w, "path {t:?} denotes {nums:x?}, expected {w:x?}");
                let s = lib(|| g.to_string())?;
                ensure_eq!(s, o::show_path(&w), "printing of {t:?}");
                ensure_eq!(lib(|| DerivationPath::from_str(&s))?, Ok(g), "re-parsing of {s:?}");
            }
            (Err(_), None) => {}
            (g, w) => return Err(format!("path {t:?}: {:?}, expected {w:x?}", g.map(|g| g.to_string()))),
        }
        Ok(())
    });
    env.phase("histories", env.n(60_000, 1_200_000), |m, r, i| {
        let mut model: Vec<u32> = vec![];
        let mut p = DerivationPath::default();
        let mut log = vec![];
        // every so often a path far longer than any key is deep
        let long = i % 200 == 7;
        for step in 0..r.range(1, 30) {
            match if long && step == 0 { 2 } else { r.below(7) } {
                0 | 1 => {
                    let c = gen::child(r);
                    lib(|| p.push(ChildNumber(c)))?;
                    model.push(c);
                    log.extend(c.to_le_bytes());
                }
                2 => {
                    let n = match long {
                        true => *r.pick(&[0, 1, 250, 254, 255, 256, 257, 300, 511, 512, 1000, 4096, 66_000]),
                        false => r.range(0, 5),
                    };
                    let v: Vec<u32> = (0..n).map(|_| gen::child(r)).collect();
                    // iterators with exact, unknown and wrong-looking size hints
                    match r.below(8) {
                        4..=6 => {
                            let lower = [0, v.len(), r.range(0, v.len())][r.idx(3)];
                            let upper = [None, None, Some(v.len()), Some(v.len() + r.range(0, 9)), Some(usize::MAX)][r.idx(5)];
                            // a component after the end must not be asked for
                            let after = if r.chance(1, 2) { 3 } else { 0 };
                            lib(|| p.extend(Hinted { v: v.clone(), at: 0, hint: (lower, upper), after }))?;
                            m.count("extended by iterators of chosen size hints");
                        }
                        7 => {
                            let mut k = 0;
                            lib(|| p.extend(std::iter::from_fn(|| { k += 1; v.get(k - 1).map(|c| ChildNumber(*c)) })))?;
                        }
                        0 => lib(|| p.extend(v.iter().map(|c| ChildNumber(*c)).filter(|_| true)))?,
                        1 => lib(|| p.extend(v.iter().flat_map(|c| Some(ChildNumber(*c)))))?,
                        2 => lib(|| p.extend(v.iter().map(|c| ChildNumber(*c)).collect::<Vec<_>>()))?,
                        _ => lib(|| p.extend(v.iter().map(|c| ChildNumber(*c))))?,
                    }
                    m.max("components of a path", model.len() as u64 + n as u64);
                    model.extend(&v);
                    log.extend([2, v.len() as u8]);
                }
                3 => {
                    let q = lib(|| p.parent())?;
                    log.push(3);
                    match (q, model.is_empty()) {
                        (None, true) => {}
                        (Some(q), false) => {
                            let want = &model[..model.len() - 1];
                            ensure!(q.iter().map(|c| c.0).eq(want.iter().copied()), "parent of {} is {}", o::show_path(&model), q);
                            if r.chance(1, 2) {
                                model.pop();
                                p = q;
                            }
                        }
                        (q, _) => return Err(format!("parent of {} is {:?}", o::show_path(&model), q.map(|q| q.to_string()))),
                    }
                }
                4 => {
                    log.push(4);
                    let q = lib(|| p.clone())?;
                    let v: Vec<u32> = lib(|| q.into_iter().map(|c| c.0).collect())?;
                    ensure!(v == model, "into_iter of {} gives {v:x?}", o::show_path(&model));
                }
                5 => {
                    log.push(5);
                    let s = lib(|| p.to_string())?;
                    p = lib(|| s.parse())?.map_err(|e: Error| format!("{s:?} does not parse back: {e:?}"))?;
                }
                _ => {
                    log.push(6);
                    let mut other = model.clone();
                    if r.chance(1, 2) && !other.is_empty() {
                        let i = r.idx(other.len());
                        other[i] ^= 1 << r.below(32);
                    }
                    ensure_eq!(lib(|| p == lib_path(&other))?, other == model, "equality of {} and {}", o::show_path(&model), o::show_path(&other));
                }
            }
            m.eval();
            ensure_eq!(lib(|| p.len())?, model.len(), "len of {}", o::show_path(&model));
            ensure_eq!(lib(|| p.is_empty())?, model.is_empty(), "is_empty of {}", o::show_path(&model));
            let a: Vec<u32> = lib(|| AsRef::<[ChildNumber]>::as_ref(&p).iter().map(|c| c.0).collect())?;
            ensure!(a == model, "as_ref of {} gives {a:x?}", o::show_path(&model));
            let a: Vec<u32> = lib(|| p.iter().map(|c| c.0).collect())?;
            ensure!(a == model, "iter of {} gives {a:x?}", o::show_path(&model));
        }
        ensure_eq!(lib(|| p.to_string())?, o::show_path(&model), "text of the path");
        m.seen(&log);
        Ok(())
    });
}

// ---- C10 ---------------------------------------------------------------------------------------
pub fn c10(env: &'static Env) {
    env.rule("Seeds and extended keys with random paths (0 to 300 steps, hardened steps at chosen places, start depths up to 255): one-shot, step-by-step and split derivations by the library, compared with each other and with the reference. Non-trivial: a distinct (start, path) judged, successful or refused.");
    p_alike::c10(env);
    env.phase("private", env.n(16_000, 400_000), |m, r, i| {
        let long = i % 64 == 0;
        let n = if long { r.range(200, 300) } else { r.range(0, 6) };
        let p = gen::steps(r, n);
        let lp = if r.chance(1, 2) {
            lib_path(&p)
        } else {
            let t = o::show_path(&p);
            lib(|| t.parse::<DerivationPath>())?.map_err(|e| format!("{t:?}: {e:?}"))?
        };
        let from_seed = r.chance(1, 2);
        let (start, x0) = if from_seed {
            let sz = *r.pick(&[16usize, 32, 64, 128]);
            let s = gen::block(r, sz);
            let w = o::master(&s).map_err(|e| format!("{e:?}"))?;
            let one = lib(|| XPrv::new_from_path(&gen::at(&s)[..], &lp))?;
            cmp_prv(one, w.path(&p), &format!("new_from_path({}, {})", short(&s), o::show_path(&p)))?;
            let x = lib(|| XPrv::new(&s))?.map_err(|e| format!("{e:?}"))?;
            (w, x)
        } else {
            let mut w = gen::prv(r, 255);
            if r.chance(1, 3) {
                w.a.depth = 255 - r.range(0, n.min(8)) as u8;
                if w.a.depth == 0 {
                    w.a.depth = 1;
                }
            }
            let x = mk_prv(&w)?;
            (w, x)
        };
        let want = start.path(&p);
        m.eval();
        m.max("path length", n as u64);
        m.count(match &want {
            Ok(_) => "derived",
            Err(_) => "refused",
        });
        m.seen(&[key_id(&start), p.iter().flat_map(|c| c.to_le_bytes()).collect()].concat());
        m.sample(|| format!("{start:x?} {}", o::show_path(&p)));
        let what = format!("{start:x?} along {}", o::show_path(&p));
        let x = x0.clone();
        cmp_prv(lib(|| x.derive_from_path(&lp))?, want.clone(), &what)?;
        // in two parts
        let k = r.range(0, n);
        let x = x0.clone();
        let two = lib(|| x.derive_from_path(&lib_path(&p[..k])).and_then(|y| y.derive_from_path(&lib_path(&p[k..]))))?;
        cmp_prv(two, want.clone(), &format!("{what}, split at {k}"))?;
        // one step at a time, by the library
        let mut cur = Ok(x0.clone());
        for c in &p {
            let y: Result<XPrv, Error> = cur;
            cur = lib(|| y.and_then(|y| y.derive_child(ChildNumber(*c))))?;
        }
        cmp_prv(cur, want, &format!("{what}, step by step"))?;
        ensure!(model_prv(&x0) == start, "{what}: the start key changed");
        Ok(())
    });
    rare_phase(env, |m, r, x| {
        // paths through, to and from uncommon keys
        let tail = [gen::child(r), gen::index31(r)];
        let judge = |m: &mut Mon, p: &Prv, path: &[u32]| -> R {
            let xp = mk_prv(p)?;
            m.eval();
            m.seen(&[key_id(p), path.iter().flat_map(|c| c.to_le_bytes()).collect()].concat());
            let what = format!("{p:x?} along {}", o::show_path(path));
            let lp = lib_path(path);
            cmp_prv(lib(|| xp.clone().derive_from_path(&lp))?, p.path(path), &what)?;
            let mut cur = Ok(xp);
            for c in path {
                let y: Result<XPrv, Error> = cur;
                cur = lib(|| y.and_then(|y| y.derive_child(ChildNumber(*c))))?;
            }
            cmp_prv(cur, p.path(path), &format!("{what}, step by step"))
        };
        if x.kind == "soft" || x.kind == "hard" {
            let c = u32::from_be_bytes(x.arr(2));
            judge(m, &rare_parent(x, r), &[c])?;
            judge(m, &rare_parent(x, r), &[c, tail[0], tail[1]])?;
        }
        if x.kind == "master" {
            let s = &x.args[0];
            let w = o::master(s).map_err(|e| format!("{e:?}"))?;
            m.eval();
            cmp_prv(lib(|| XPrv::new_from_path(s, &lib_path(&tail)))?, w.path(&tail), &format!("new_from_path({}, {})", hex(s), o::show_path(&tail)))?;
        }
        for p in rare_keys(x, r)? {
            judge(m, &p, &tail[1..])?;
            let q = p.to_pub();
            let xq = mk_pub(&q)?;
            let path = [tail[1], 1];
            m.eval();
            cmp_pub(lib(|| xq.derive_from_path(&lib_path(&path)))?, q.path(&path), &format!("{q:x?} along {}", o::show_path(&path)))?;
        }
        Ok(())
    });
    env.phase("public", env.n(16_000, 400_000), |m, r, i| {
        let long = i % 128 == 0;
        let n = if long { r.range(200, 300) } else { r.range(0, 6) };
        let mut p: Vec<u32> = (0..n).map(|_| gen::index31(r)).collect();
        if n > 0 && r.chance(1, 3) {
            let k = r.idx(n);
            p[k] |= 1 << 31;
        }
        let mut w = gen::prv(r, 255);
        if r.chance(1, 3) {
            w.a.depth = (255 - r.range(0, n.min(8))).max(1) as u8;
        }
        let q = w.to_pub();
        let lp = lib_path(&p);
        let x0 = mk_pub(&q)?;
        let want = q.path(&p);
        let what = format!("{q:x?} along {}", o::show_path(&p));
        m.eval();
        m.max("path length", n as u64);
        m.seen(&[o::raw(1, &q.a, &q.k), p.iter().flat_map(|c| c.to_le_bytes()).collect()].concat());
        m.count(match &want {
            Ok(_) => "derived",
            Err(Er::Child) => "refused: hardened step",
            Err(_) => "refused: depth",
        });
        let x = x0.clone();
        cmp_pub(lib(|| x.derive_from_path(&lp))?, want.clone(), &what)?;
        let k = r.range(0, n);
        let x = x0.clone();
        let two = lib(|| x.derive_from_path(&lib_path(&p[..k])).and_then(|y| y.derive_from_path(&lib_path(&p[k..]))))?;
        cmp_pub(two, want.clone(), &format!("{what}, split at {k}"))?;
        if want.is_ok() {
            // the private path, then public
            let xp = mk_prv(&w)?;
            let side = lib(|| xp.derive_from_path(&lp).map(|y| y.public_key()))?;
            cmp_pub(side, want, &format!("{what}, private branch"))?;
            m.count("compared with the private branch");
        }
        ensure!(model_pub(&x0) == q, "{what}: the start key changed");
        Ok(())
    });
}

// ---- C11 ---------------------------------------------------------------------------------------
pub fn c11(env: &'static Env) {
    env.rule("Extended keys with boundary-biased fields in every one of the eight standard versions, and containers with arbitrary versions; every text output compared with the reference Base58Check, parsed back field by field and printed again; all version/letter conversions. Non-trivial: a distinct 78-byte payload written and read back.");
    p_alike::c11(env);
    env.phase("private", env.n(150_000, 3_000_000), |m, r, _| {
        let p = gen::prv(r, 255);
        text_prv(m, &p, r.idx(4))
    });
    env.phase("public", env.n(100_000, 2_000_000), |m, r, _| {
        let p = gen::prv(r, 255).to_pub();
        text_pub(m, &p, r.idx(4))
    });
    rare_phase(env, |m, r, x| {
        for p in rare_keys(x, r)? {
            for k in 0..4 {
                text_prv(m, &p, k)?;
                text_pub(m, &p.to_pub(), k)?;
            }
        }
        if x.kind == "text" {
            let w = o::parse(&b58::check_encode(&x.args[0])).ok_or("bad golden text")?;
            match w.is_prv() {
                true => text_prv(m, &Prv { k: w.key[1..].try_into().unwrap(), a: w.a }, 0)?,
                false => text_pub(m, &Pub { k: w.key, a: w.a }, 0)?,
            }
        }
        Ok(())
    });
    env.phase("containers", env.n(300_000, 5_000_000), |m, r, _| {
        // any version, any payload: printing, and round trip of whatever is accepted
        let ver = match r.below(5) {
            0 => r.u32(),
            1 => r.pick(&gen::VERSIONS).1.wrapping_add(r.below(64) as u32).wrapping_sub(32),
            2 => r.pick(&gen::VERSIONS).1 ^ 1 << r.below(32),
            3 => 0x0400_0000 + r.below(0x0100_0000) as u32,
            _ => r.pick(&gen::VERSIONS).1,
        };
        let a = gen::attrs(r, 255);
        let mut key = [0u8; 33];
        let b = gen::block(r, 33);
        key.copy_from_slice(&b);
        if r.chance(1, 2) {
            key[0] = *r.pick(&[0, 2, 3]);
        }
        let want = o::text(ver, &a, &key);
        let pre = if let Some(v) = gen::VERSIONS.iter().position(|v| v.1 == ver) {
            if v < 4 {
                gen::PRV_PREFIX[v]
            } else {
                gen::PUB_PREFIX[v - 4]
            }
        } else {
            Prefix::from_parts_unchecked("abcd", ver)
        };
        let ek = ExtendedKey { prefix: pre, attrs: gen::lib_attrs(&a), key_bytes: key };
        m.eval();
        m.seen(want.as_bytes());
        let t = lib(|| ek.to_string())?;
        ensure!(t == want, "container version {ver:#010x} {a:x?} key {} prints as {t}, expected {want}", hex(&key));
        let back = lib(|| ExtendedKey::from_str(&want))?;
        match (back, o::parse(&want)) {
            (Ok(b), Some(w)) => {
                m.count("containers accepted");
                check_container(&b, ver, &w.letters, &a, &key, &want)?;
            }
            (Err(_), None) => m.count("containers refused"),
            (Err(e), Some(_)) if gen::VERSIONS.iter().any(|v| v.1 == ver) => return Err(format!("{want} refused: {e:?}")),
            (Err(_), Some(_)) => m.count("non-standard version refused"),
            (Ok(_), None) => return Err(format!("{want} (version {ver:#010x}) accepted")),
        }
        Ok(())
    });
    env.phase("versions", env.n(300_000, 5_000_000), |m, r, i| {
        let ver = if i < 8 { gen::VERSIONS[i as usize].1 } else if i % 2 == 0 { 0x0300_0000 + r.below(0x0300_0000) as u32 } else { r.u32() };
        let mut zero = ver.to_be_bytes().to_vec();
        zero.resize(78, 0);
        let t = b58::check_encode(&zero);
        let want = if t.bytes().take(4).all(|b| b.is_ascii_alphabetic()) { Some(&t[..4]) } else { None };
        let b = ver.to_be_bytes();
        m.eval();
        m.seen(&b);
        let got = [lib(|| Prefix::try_from(ver))?, lib(|| Prefix::from_bytes(b))?, lib(|| Prefix::try_from(&b[..]))?];
        for g in got {
            match (g, want) {
                (Ok(p), Some(w)) => {
                    m.count("versions with letters");
                    check_prefix(&p, ver, w)?;
                }
                (Err(_), None) => {}
                (g, w) => return Err(format!("prefix of version {ver:#010x}: {:?}, expected {w:?}", g.map(|g| g.to_string()))),
            }
        }
        if i < 8 {
            let c = if i < 4 { gen::PRV_PREFIX[i as usize] } else { gen::PUB_PREFIX[i as usize - 4] };
            check_prefix(&c, ver, gen::VERSIONS[i as usize].0)?;
            ensure!(lib(|| Prefix::try_from(ver))? == Ok(c), "version {ver:#010x} does not convert to the constant");
            ensure!(c.is_private() == gen::VERSIONS[i as usize].2 && c.is_public() != gen::VERSIONS[i as usize].2, "kind of {}", c.as_str());
        }
        let n = r.range(0, 9);
        if n != 4 {
            let b = r.bytes(n);
            ensure!(lib(|| Prefix::try_from(&b[..]))?.is_err(), "prefix from {n} bytes accepted");
        }
        Ok(())
    });
}
/// Cases built from inputs that long searches found to have uncommon results.
pub fn rare_phase(env: &'static Env, f: impl Fn(&mut Mon, &mut Rng, &p_rare::Rare) -> R + Sync) {
    let all = p_rare::all();
    env.phase("rare", all.len() as u64, |m, r, i| {
        let x = &all[i as usize];
        let n = m.evals;
        f(m, r, x)?;
        if m.evals > n {
            m.count("cases with uncommon bytes in the result");
            m.sample(|| format!("{} ({})", x.tag, x.kind));
        }
        Ok(())
    });
}
/// The private keys an uncommon case is about, by the model.
pub fn rare_keys(x: &p_rare::Rare, r: &mut Rng) -> Result<Vec<Prv>, String> {
    let e = |e: Er| format!("golden case: {e:?}");
    Ok(match x.kind.as_str() {
        "master" => vec![o::master(&x.args[0]).map_err(e)?],
        "soft" | "hard" => {
            let p = rare_parent(x, r);
            let c = p.ckd(u32::from_be_bytes(x.arr(2))).map_err(e)?;
            vec![c]
        }
        "key" => {
            let mut p = gen::prv(r, 254);
            p.k = x.arr(0);
            vec![p]
        }
        _ => vec![],
    })
}
fn rare_parent(x: &p_rare::Rare, r: &mut Rng) -> Prv {
    let mut p = gen::prv(r, 254);
    p.k = x.arr(0);
    p.a.cc = x.arr(1);
    p
}
pub fn text_prv(m: &mut Mon, p: &Prv, k: usize) -> R {
    let (letters, ver, _) = gen::VERSIONS[k];
    let pre = gen::PRV_PREFIX[k];
    let want = o::text(ver, &p.a, &p.key_bytes());
    ensure!(want.starts_with(letters), "oracle: {want} does not start with {letters}");
    let x = mk_prv(p)?;
    m.eval();
    m.seen(want.as_bytes());
    m.sample(|| want.clone());
    ensure!(**lib(|| x.to_string(pre))? == *want, "text of {p:x?} as {letters} is {}, expected {want}", *x.to_string(pre));
    let ek = lib(|| x.to_extended_key(pre))?;
    check_container(&ek, ver, letters, &p.a, &p.key_bytes(), &want)?;
    let back = lib(|| XPrv::from_str(&gen::text_at(&want)))?.map_err(|e| format!("{want} refused: {e:?}"))?;
    ensure!(back == x && model_prv(&back) == *p, "{want} parsed to {:x?}, expected {p:x?}", model_prv(&back));
    ensure!(**lib(|| back.to_string(pre))? == *want, "{want} printed again is different");
    Ok(())
}
pub fn text_pub(m: &mut Mon, p: &Pub, k: usize) -> R {
    let (letters, ver, _) = gen::VERSIONS[4 + k];
    let pre = gen::PUB_PREFIX[k];
    let want = o::text(ver, &p.a, &p.k);
    ensure!(want.starts_with(letters), "oracle: {want} does not start with {letters}");
    let x = mk_pub(p)?;
    m.eval();
    m.seen(want.as_bytes());
    m.sample(|| want.clone());
    ensure!(lib(|| x.to_string(pre))? == want, "text of {p:x?} as {letters} is {}, expected {want}", x.to_string(pre));
    let ek = lib(|| x.to_extended_key(pre))?;
    check_container(&ek, ver, letters, &p.a, &p.k, &want)?;
    let back = lib(|| XPub::from_str(&gen::text_at(&want)))?.map_err(|e| format!("{want} refused: {e:?}"))?;
    ensure!(back == x && model_pub(&back) == *p, "{want} parsed to {:x?}, expected {p:x?}", model_pub(&back));
    ensure!(lib(|| back.to_string(pre))? == want, "{want} printed again is different");
    Ok(())
}
fn check_prefix(p: &Prefix, ver: u32, letters: &str) -> R {
    ensure_eq!(lib(|| p.as_str().to_string())?, letters, "letters of version {ver:#010x}");
    ensure_eq!(lib(|| p.to_string())?, letters, "display of version {ver:#010x}");
    ensure_eq!(lib(|| AsRef::<str>::as_ref(p).to_string())?, letters, "as_ref of version {ver:#010x}");
    ensure_eq!(lib(|| p.version())?, ver, "version of {letters}");
    ensure_eq!(lib(|| p.to_bytes())?, ver.to_be_bytes(), "bytes of {letters}");
    ensure_eq!(lib(|| u32::from(*p))?, ver, "u32 of {letters}");
    ensure_eq!(lib(|| u32::from(p))?, ver, "u32 of &{letters}");
    ensure_eq!(lib(|| p.is_private())?, &letters[1..] == "prv", "is_private of {letters}");
    ensure_eq!(lib(|| p.is_public())?, &letters[1..] == "pub", "is_public of {letters}");
    Ok(())
}
fn check_container(ek: &ExtendedKey, ver: u32, letters: &str, a: &Attrs, key: &[u8; 33], text: &str) -> R {
    check_prefix(&ek.prefix, ver, letters)?;
    ensure!(gen::model_attrs(&ek.attrs) == *a, "{text}: attributes {:x?}, expected {a:x?}", gen::model_attrs(&ek.attrs));
    ensure!(ek.key_bytes == *key, "{text}: key bytes {}, expected {}", hex(&ek.key_bytes), hex(key));
    ensure_eq!(lib(|| ek.to_string())?, text, "text of the container");
    ensure_eq!(lib(|| format!("{ek}"))?, text, "display of the container");
    let mut buf = [0xaau8; ExtendedKey::MAX_BASE58_SIZE];
    let s = lib(|| ek.write_base58(&mut buf).map(|s| s.to_string()))?;
    ensure_eq!(s, Ok(text.to_string()), "write_base58");
    let c = lib(|| ek.clone())?;
    ensure_eq!(lib(|| c.to_string())?, text, "text of the container's clone");
    Ok(())
}

// ---- C12 ---------------------------------------------------------------------------------------
/// Judges the three imports of one text. `strict`: valid texts must also be accepted.
pub fn check_import(m: &mut Mon, t: &str) -> R {
    let w = o::parse(t);
    let std = w.as_ref().map_or(false, |w| gen::VERSIONS.iter().any(|v| v.1 == w.version && v.0 == w.letters));
    let prv = w.as_ref().map_or(false, |w| w.prv_ok());
    let pbl = w.as_ref().map_or(false, |w| w.pub_ok());
    m.eval();
    m.seen(t.as_bytes());
    let gp = lib(|| XPrv::from_str(&gen::text_at(t)))?;
    let gq = lib(|| XPub::from_str(&gen::text_at(t)))?;
    let ge = lib(|| ExtendedKey::from_str(t))?;
    match (&gp, prv) {
        (Ok(x), false) => return Err(format!("{t:?} was imported as a private key ({:x?}) but {}", model_prv(x), why(t, &w))),
        (Err(e), true) if std => return Err(format!("valid private key {t:?} refused: {e:?}")),
        (Ok(x), true) => {
            let w = w.as_ref().unwrap();
            ensure!(x.to_bytes() == w.key[1..] && gen::model_attrs(x.attrs()) == w.a, "{t:?} imported as {:x?}", model_prv(x));
            m.count("private keys imported");
        }
        _ => m.count("private imports refused"),
    }
    match (&gq, pbl) {
        (Ok(x), false) => return Err(format!("{t:?} was imported as a public key ({:x?}) but {}", model_pub(x), why(t, &w))),
        (Err(e), true) if std => return Err(format!("valid public key {t:?} refused: {e:?}")),
        (Ok(x), true) => {
            let w = w.as_ref().unwrap();
            ensure!(x.to_bytes() == w.key && gen::model_attrs(x.attrs()) == w.a, "{t:?} imported as {:x?}", model_pub(x));
            m.count("public keys imported");
        }
        _ => m.count("public imports refused"),
    }
    if let (Ok(_), None) = (&ge, &w) {
        return Err(format!("{t:?} was read as an extended key but {}", why(t, &w)));
    }
    Ok(())
}
fn why(t: &str, w: &Option<o::Parsed>) -> String {
    match (w, b58::check_decode(t)) {
        (Some(w), _) => format!("letters {:?}, key {}, {:x?}", w.letters, hex(&w.key), w.a),
        (None, Some(d)) if d.len() != 78 => format!("decodes to {} bytes", d.len()),
        (None, Some(d)) => format!("payload {} breaks the format", hex(&d)),
        (None, None) => "it is not Base58Check".into(),
    }
}
const B58: &[u8; 58] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";

pub fn random_payload(r: &mut Rng) -> Vec<u8> {
    let p = gen::prv(r, 255);
    if r.chance(1, 2) {
        let v = gen::VERSIONS[r.idx(4)].1;
        o::raw(v, &p.a, &p.key_bytes())
    } else {
        let v = gen::VERSIONS[4 + r.idx(4)].1;
        let q = p.to_pub();
        o::raw(v, &q.a, &q.k)
    }
}

pub fn c12(env: &'static Env) {
    env.rule("Damaged forms of valid extended-key texts: every single-character substitution, insertion, deletion and adjacent swap; every single bit of the payload with the checksum made right again; every checksum bit; payload lengths 0..200; invalid keys (0, n, n+1, 2^256-1, off-curve and out-of-range points, wrong tag bytes); swapped versions; master keys with a parent; surrounding and embedded foreign characters; free text. Each text is imported three ways and judged by the reference reader. Non-trivial: a distinct text judged.");
    p_alike::c12(env);
    let reps = env.n(24, 400);
    env.phase("characters", reps, |m, r, _| {
        let t = b58::check_encode(&random_payload(r));
        m.sample(|| t.clone());
        check_import(m, &t)?;
        let v: Vec<char> = t.chars().collect();
        for i in 0..v.len() {
            for b in B58 {
                if v[i] as u8 != *b {
                    let mut w = v.clone();
                    w[i] = *b as char;
                    let s: String = w.iter().collect();
                    // no oracle needed: a single substitution breaks the checksum unless the reference says otherwise
                    check_import(m, &s)?;
                }
            }
            let mut w = v.clone();
            w.remove(i);
            check_import(m, &w.iter().collect::<String>())?;
            let mut w = v.clone();
            w.insert(i, *r.pick(B58) as char);
            check_import(m, &w.iter().collect::<String>())?;
            if i + 1 < v.len() {
                let mut w = v.clone();
                w.swap(i, i + 1);
                check_import(m, &w.iter().collect::<String>())?;
            }
            let mut w = v.clone();
            w[i] = *r.pick(&['0', 'O', 'I', 'l', ' ', '\n', '+', '/', '=', '\u{e9}', '\u{3000}', '\u{1f511}', '\0', '-']);
            check_import(m, &w.iter().collect::<String>())?;
            check_import(m, &v[..i].iter().collect::<String>())?;
            check_import(m, &v[i..].iter().collect::<String>())?;
        }
        Ok(())
    });
    rare_phase(env, |m, r, x| {
        let mut payloads = vec![];
        if x.kind == "text" {
            payloads.push(x.args[0].clone());
        }
        for p in rare_keys(x, r)? {
            let k = r.idx(4);
            payloads.push(o::raw(gen::VERSIONS[k].1, &p.a, &p.key_bytes()));
            let q = p.to_pub();
            payloads.push(o::raw(gen::VERSIONS[4 + k].1, &q.a, &q.k));
        }
        for p in payloads {
            let t = b58::check_encode(&p);
            check_import(m, &t)?;
            for _ in 0..20 {
                check_import(m, &gen::mutate_text(r, &t, &['1', '2', 'z', 'A', 'a', '9']))?;
            }
            // each single bit of the checksum, and the checksum left out
            let full = [&p[..], &crate::oracle::hash::sha256(&crate::oracle::hash::sha256(&p))[..4]].concat();
            for i in 78 * 8..82 * 8 {
                let mut q = full.clone();
                q[i / 8] ^= 1 << (i % 8);
                check_import(m, &b58::encode(&q))?;
            }
            for cut in 78..82 {
                check_import(m, &b58::encode(&full[..cut]))?;
            }
        }
        Ok(())
    });
    env.phase("payload-bits", env.n(60, 1200), |m, r, _| {
        let p = random_payload(r);
        for i in 0..78 * 8 {
            let mut q = p.clone();
            q[i / 8] ^= 1 << (i % 8);
            check_import(m, &b58::check_encode(&q))?;
        }
        // the raw bytes with wrong checksums
        let mut full = p.clone();
        full.extend(&crate::oracle::hash::sha256(&crate::oracle::hash::sha256(&p))[..4]);
        for i in 0..82 * 8 {
            let mut q = full.clone();
            q[i / 8] ^= 1 << (i % 8);
            check_import(m, &b58::encode(&q))?;
        }
        // single SHA-256, zero and reversed checksums
        for c in [&crate::oracle::hash::sha256(&p)[..4], &[0u8; 4], &crate::oracle::hash::hash160(&p)[..4]] {
            let mut q = p.clone();
            q.extend(c);
            check_import(m, &b58::encode(&q))?;
        }
        let mut q = full.clone();
        q[78..].reverse();
        check_import(m, &b58::encode(&q))
    });
    env.phase("lengths", env.n(20, 300) * 220, |m, r, i| {
        let n = (i % 220) as usize;
        let mut p = random_payload(r);
        let extra = r.bytes(220);
        match r.below(3) {
            0 => {
                p.extend(&extra);
                p.truncate(n);
            }
            1 => {
                // zeros in front or behind
                if n >= 78 {
                    let mut z = vec![0u8; n - 78];
                    z.extend(&p);
                    p = z;
                } else {
                    p.drain(..78 - n);
                }
            }
            _ => p.resize(n, 0),
        }
        m.max("payload bytes", p.len() as u64);
        check_import(m, &b58::check_encode(&p))?;
        check_import(m, &b58::encode(&p))
    });
    env.phase("keys", env.n(60_000, 1_000_000), |m, r, _| {
        let mut a = gen::attrs(r, 255);
        let (_, ver, _) = *r.pick(&gen::VERSIONS);
        let mut key = [0u8; 33];
        match r.below(10) {
            0 => {}
            1 => key[1..].copy_from_slice(&secp::to_be(&secp::N)),
            2 => key[1..].copy_from_slice(&secp::to_be(&secp::add_carry(&secp::N, &[r.below(3), 0, 0, 0]).0)),
            3 => key[1..].copy_from_slice(&secp::to_be(&secp::sub_borrow(&secp::N, &[r.below(3), 0, 0, 0]).0)),
            4 => key[1..].copy_from_slice(&secp::to_be(&secp::add_carry(&secp::P, &[r.below(20), 0, 0, 0]).0)),
            5 => key[1..].fill(0xff),
            6 => key[1..].copy_from_slice(&gen::sk(r)),
            7 => {
                // x coordinates of the group beyond and below the field size
                let x = secp::add_carry(&secp::P, &[r.below(2000), 0, 0, 0]).0;
                key[1..].copy_from_slice(&secp::to_be(&x));
            }
            8 => key = secp::pubkey(&gen::sk(r)).unwrap(),
            _ => {
                let b = gen::block(r, 32);
                key[1..].copy_from_slice(&b);
            }
        }
        if r.chance(2, 3) {
            key[0] = match r.below(4) {
                0 => r.u32() as u8,
                1 => 0,
                _ => *r.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 0x80, 0xff]),
            };
        }
        if r.chance(1, 6) {
            // master with a parent
            a.depth = 0;
            a.fp = if r.chance(1, 2) { [0; 4] } else { r.arr() };
            a.child = if r.chance(1, 2) { 0 } else { gen::child(r) };
            if r.chance(1, 4) {
                a.fp = [0; 4];
                a.fp[r.idx(4)] = 1 << r.below(8);
            }
        }
        // the container converted directly, too
        let i = gen::VERSIONS.iter().position(|v| v.1 == ver).unwrap();
        let pre = if i < 4 { gen::PRV_PREFIX[i] } else { gen::PUB_PREFIX[i - 4] };
        let mk = || ExtendedKey { prefix: pre, attrs: gen::lib_attrs(&a), key_bytes: key };
        let w = o::Parsed { version: ver, letters: gen::VERSIONS[i].0.into(), a: a.clone(), key };
        let gp = lib(|| XPrv::try_from(mk()))?.is_ok();
        let gq = lib(|| XPub::try_from(mk()))?.is_ok();
        ensure!(gp <= w.prv_ok(), "container {w:x?} became a private key");
        ensure!(gq <= w.pub_ok(), "container {w:x?} became a public key");
        m.count("containers converted");
        check_import(m, &b58::check_encode(&o::raw(ver, &a, &key)))
    });
    // what else people hand over as a key
    env.phase("other-forms", env.n(20_000, 400_000), |m, r, _| {
        let p = random_payload(r);
        let t = b58::check_encode(&p);
        let s = match r.below(22) {
            0 => hex(&p),
            1 => hex(&b58::decode(&t).unwrap()),
            2 => format!("\"{t}\""),
            3 => format!("bitcoin:{t}"),
            4 => format!("{t}/0/1"),
            5 => format!("[{}/44'/0'/0']{t}", hex(&p[5..9])),
            6 => format!("{t}#{}", hex(&p[..4])),
            7 => format!("wpkh({t})"),
            8 => t.to_lowercase(),
            9 => t.to_uppercase(),
            10 => format!("{}\n{}", &t[..t.len() / 2], &t[t.len() / 2..]),
            11 => t.chars().rev().collect(),
            12 => format!("{t}{t}"),
            13 => gen::odd_word(r),
            14 => format!("{t}{}", gen::odd_word(r)),
            15 => format!("{}{t}", gen::odd_word(r)),
            16 => {
                // other base58 alphabets
                const RIPPLE: &[u8] = b"rpshnaf39wBUDNEGHJKLM4PQRST7VWXYZ2bcdeCg65jkm8oFqi1tuvAxyz";
                t.bytes().map(|c| RIPPLE[B58.iter().position(|x| *x == c).unwrap()] as char).collect()
            }
            17 => {
                // letters often mistaken for one another
                let v: Vec<char> = t.chars().map(|c| if r.chance(1, 4) { match c { '1' => 'l', 'o' => '0', 'L' => 'I', 'D' => 'O', c => c } } else { c }).collect();
                v.into_iter().collect()
            }
            // a bare key, its WIF form and an address
            18 => hex(&p[45..]),
            19 => b58::check_encode(&[&[0x80], &p[46..]].concat()),
            20 => b58::check_encode(&[&[0x80], &p[46..], &[1]].concat()),
            _ => b58::check_encode(&[&[0], &crate::oracle::hash::hash160(&p[45..])[..]].concat()),
        };
        m.sample(|| s.clone());
        check_import(m, &s)
    });
    // Versions whose letters depend on what follows them: on either side of the first payload that prints with given letters
    env.phase("borders", env.n(30_000, 600_000), |m, r, _| {
        let long = r.chance(1, 3);
        let mut t: Vec<u8> = vec![b'1'; if long { 112 } else { 111 }];
        // a 112-character text starts with a low digit, a 111-character one with any
        let first: &[u8] = if long { b"23456789ABCDEFGHJKLMNPQRS" } else { &B58[1..] };
        t[0] = *r.pick(first);
        t[1..4].copy_from_slice(*r.pick(&[b"prv", b"pub", b"prw", b"puc"]));
        let Some(border) = b58::decode(std::str::from_utf8(&t).unwrap()) else { return Ok(()) };
        if border.len() != 82 {
            return Ok(());
        }
        let p = gen::prv(r, 255);
        let mut pay = if r.chance(1, 2) { o::raw(0, &p.a, &p.key_bytes()) } else { o::raw(0, &p.a, &p.to_pub().k) };
        pay[..4].copy_from_slice(&border[..4]);
        match r.below(8) {
            // the same leading bytes, then a step to one side (not always possible)
            0..=5 => {
                let at = r.range(4, 13);
                pay[4..at].copy_from_slice(&border[4..at]);
                if pay[4] == 0 {
                    pay[4] = 1
                }
                pay[at] = match r.below(4) {
                    0 => border[at].wrapping_sub(1),
                    1 => border[at].wrapping_add(1),
                    2 => 0,
                    _ => 255,
                };
                if at == 4 && pay[4] == 0 {
                    pay[4..13].fill(0);
                }
            }
            6 => {
                let v = u32::from_be_bytes(border[..4].try_into().unwrap()).wrapping_sub(1);
                pay[..4].copy_from_slice(&v.to_be_bytes());
                pay[4..9].fill(255);
            }
            _ => pay[4..13].fill(0),
        }
        let s = b58::check_encode(&pay);
        if !s.is_ascii() || s.len() < 111 {
            return Ok(());
        }
        let l = std::str::from_utf8(&t[..4]).unwrap();
        m.count(if s.starts_with(l) { "letters just reached" } else { "letters just missed" });
        m.sample(|| format!("{s} at the border of {l}"));
        check_import(m, &s)
    });
    env.phase("foreign", env.n(120_000, 2_000_000), |m, r, _| {
        let t = b58::check_encode(&random_payload(r));
        let s = match r.below(8) {
            0 => format!("{}{t}", r.pick(&[" ", "\n", "1", "11", "\u{feff}", "xprv", "0", "\t"])),
            1 => format!("{t}{}", r.pick(&[" ", "\n", "1", "\0", "\u{200b}", "z", "=", "11"])),
            2 => t.to_lowercase(),
            3 => t.to_uppercase(),
            4 => {
                let (l, _, _) = *r.pick(&gen::VERSIONS);
                format!("{l}{}", &t[4..])
            }
            5 => gen::text(r, 130),
            6 => (0..r.range(0, 140)).map(|_| *r.pick(B58) as char).collect(),
            _ => gen::mutate_text(r, &t, &['x', '1', 'z', 'p', 'r', 'v']),
        };
        m.sample(|| s.clone());
        check_import(m, &s)
    });
}

// ---- C13 ---------------------------------------------------------------------------------------
fn cmp_prvs(m: &mut Mon, a: &XPrv, b: &XPrv, want: bool, what: &dyn Fn() -> String) -> R {
    m.eval();
    let got = lib(|| [a == b, b == a, bool::from(a.ct_eq(b)), bool::from(b.ct_eq(a)), !(a != b)])?;
    ensure!(got == [want; 5], "{}: ==, ==, ct_eq, ct_eq, !(!=) give {got:?}, expected all {want}", what());
    Ok(())
}
fn cmp_pubs(m: &mut Mon, a: &XPub, b: &XPub, want: bool, what: &dyn Fn() -> String) -> R {
    m.eval();
    let got = lib(|| [a == b, b == a, !(a != b), a.attrs() == b.attrs() && a.public_key() == b.public_key()])?;
    ensure!(got == [want; 4], "{}: ==, ==, !(!=), parts give {got:?}, expected all {want}", what());
    Ok(())
}
fn attr_bits() -> Vec<(usize, usize)> {
    // (field, bit): depth, fingerprint, child, chain code
    let mut v = vec![];
    for (f, n) in [(0, 8), (1, 32), (2, 32), (3, 256)] {
        v.extend((0..n).map(|b| (f, b)));
    }
    v
}
fn flip(a: &mut Attrs, f: usize, b: usize) {
    match f {
        0 => a.depth ^= 1 << b,
        1 => a.fp[b / 8] ^= 1 << (b % 8),
        2 => a.child ^= 1 << b,
        _ => a.cc[b / 8] ^= 1 << (b % 8),
    }
}

pub fn c13(env: &'static Env) {
    env.rule("For each base key: a copy by clone, text, container and re-derivation (must be equal), and keys differing in one bit of any field, every bit of every field tried, or in several fields at once so that differences could cancel (must be unequal); both directions of ==, != and ct_eq. Non-trivial: a distinct compared pair.");
    env.phase("single-bits", env.n(400, 8_000), |m, r, _| {
        let p = gen::prv(r, 255);
        let x = mk_prv(&p)?;
        let q = p.to_pub();
        let xq = mk_pub(&q)?;
        m.sample(|| format!("{p:x?}"));
        for (f, b) in attr_bits() {
            let mut p2 = p.clone();
            flip(&mut p2.a, f, b);
            let y = mk_prv(&p2)?;
            m.seen(&[key_id(&p), vec![f as u8, b as u8]].concat());
            cmp_prvs(m, &x, &y, false, &|| format!("{p:x?} with bit {b} of field {f} flipped"))?;
            let mut q2 = q.clone();
            flip(&mut q2.a, f, b);
            cmp_pubs(m, &xq, &mk_pub(&q2)?, false, &|| format!("{q:x?} with bit {b} of field {f} flipped"))?;
        }
        for b in 0..256 {
            let mut p2 = p.clone();
            p2.k[b / 8] ^= 1 << (b % 8);
            if secp::valid_sk(&secp::from_be(&p2.k)) {
                m.seen(&[key_id(&p), vec![9, b as u8]].concat());
                m.count("private-key bits");
                cmp_prvs(m, &x, &mk_prv(&p2)?, false, &|| format!("{p:x?} with bit {b} of the private key flipped"))?;
            }
            let mut q2 = q.clone();
            q2.k[1 + b / 8] ^= 1 << (b % 8);
            if secp::decompress(&q2.k).is_some() {
                m.count("public-key bits");
                cmp_pubs(m, &xq, &mk_pub(&q2)?, false, &|| format!("{q:x?} with bit {b} of the point flipped"))?;
            }
        }
        let mut q2 = q.clone();
        q2.k[0] ^= 1;
        cmp_pubs(m, &xq, &mk_pub(&q2)?, false, &|| format!("{q:x?} and its negative"))
    });
    env.phase("several-fields", env.n(120_000, 2_000_000), |m, r, _| {
        let p = gen::prv(r, 255);
        let mut p2 = p.clone();
        match r.below(9) {
            0 => {
                // the same difference in key and chain code
                let i = r.idx(32);
                let d = r.range(1, 255) as u8;
                p2.k[i] ^= d;
                p2.a.cc[i] ^= d;
            }
            1 => {
                let d = r.u32() | 1;
                p2.a.child ^= d;
                for (i, b) in d.to_be_bytes().iter().enumerate() {
                    p2.a.fp[i] ^= b;
                }
            }
            2 => p2.k.reverse(),
            3 => p2.a.cc.reverse(),
            4 => {
                // bytes swapped inside the key or chain code
                let (i, j) = (r.idx(32), r.idx(32));
                if r.chance(1, 2) {
                    p2.k.swap(i, j)
                } else {
                    p2.a.cc.swap(i, j)
                }
            }
            5 => p2.k = secp::to_be(&secp::nneg(&secp::from_be(&p.k))),
            6 => std::mem::swap(&mut p2.k, &mut p2.a.cc),
            7 => {
                let i = r.range(1, 31);
                p2.k[i..].copy_from_slice(&r.bytes(32 - i));
            }
            _ => {
                p2 = gen::prv(r, 255);
                if r.chance(1, 2) {
                    p2.a = p.a.clone();
                } else {
                    p2.k = p.k;
                }
            }
        }
        if !secp::valid_sk(&secp::from_be(&p2.k)) {
            return Ok(());
        }
        let (x, y) = (mk_prv(&p)?, mk_prv(&p2)?);
        m.seen(&[key_id(&p), key_id(&p2)].concat());
        m.count(if p == p2 { "equal pairs" } else { "unequal pairs" });
        cmp_prvs(m, &x, &y, p == p2, &|| format!("{p:x?} and {p2:x?}"))?;
        let (q, q2) = (p.to_pub(), p2.to_pub());
        cmp_pubs(m, &mk_pub(&q)?, &lib(|| y.public_key())?, q == q2, &|| format!("{q:x?} and {q2:x?}"))
    });
    env.phase("alike", env.n(4000, 80_000), |m, r, _| {
        // keys that differ in the key or the attributes only: other orders of the same bytes, equal sums, equal fingerprints
        let v = p_alike::keys(r, 255);
        let xs = v.iter().map(mk_prv).collect::<Result<Vec<_>, _>>()?;
        let qs: Vec<Pub> = v.iter().map(|p| p.to_pub()).collect();
        let xqs = qs.iter().map(mk_pub).collect::<Result<Vec<_>, _>>()?;
        for i in 0..v.len() {
            for j in 0..i {
                m.seen(&[key_id(&v[i]), key_id(&v[j])].concat());
                m.count(if v[i] == v[j] { "equal pairs" } else { "unequal pairs" });
                cmp_prvs(m, &xs[i], &xs[j], v[i] == v[j], &|| format!("{:x?} and {:x?}", v[i], v[j]))?;
                cmp_pubs(m, &xqs[i], &xqs[j], qs[i] == qs[j], &|| format!("{:x?} and {:x?}", qs[i], qs[j]))?;
            }
        }
        Ok(())
    });
    env.phase("same-key", env.n(30_000, 500_000), |m, r, _| {
        // one key obtained in different ways
        let parent = gen::prv(r, 253);
        let c = gen::index31(r);
        let w = parent.ckd(c).map_err(|e| format!("{e:?}"))?;
        let xp = mk_prv(&parent)?;
        let a = lib(|| xp.derive_child(ChildNumber(c)))?.map_err(|e| format!("{e:?}"))?;
        let k = r.idx(4);
        let text = o::text(gen::VERSIONS[k].1, &w.a, &w.key_bytes());
        let ways = [
            a.clone(),
            mk_prv(&w)?,
            lib(|| text.parse::<XPrv>())?.map_err(|e| format!("{text}: {e:?}"))?,
            lib(|| XPrv::try_from(a.to_extended_key(gen::PRV_PREFIX[k])))?.map_err(|e| format!("{e:?}"))?,
            lib(|| xp.clone().derive_from_path(&lib_path(&[c])))?.map_err(|e| format!("{e:?}"))?,
        ];
        m.seen(text.as_bytes());
        for (i, y) in ways.iter().enumerate() {
            cmp_prvs(m, &a, y, true, &|| format!("{w:x?} obtained in way {i}"))?;
        }
        let pt = o::text(gen::VERSIONS[4 + k].1, &w.a, &w.to_pub().k);
        let pa = lib(|| a.public_key())?;
        let ways = [
            pa.clone(),
            mk_pub(&w.to_pub())?,
            lib(|| pt.parse::<XPub>())?.map_err(|e| format!("{pt}: {e:?}"))?,
            lib(|| xp.public_key().derive_child(ChildNumber(c)))?.map_err(|e| format!("{e:?}"))?,
            lib(|| XPub::from(&a))?,
        ];
        for (i, y) in ways.iter().enumerate() {
            cmp_pubs(m, &pa, y, true, &|| format!("{w:x?} public, obtained in way {i}"))?;
        }
        // sibling keys differ
        let c2 = c ^ 1;
        let b = lib(|| xp.derive_child(ChildNumber(c2)))?.map_err(|e| format!("{e:?}"))?;
        cmp_prvs(m, &a, &b, false, &|| format!("children {c} and {c2} of {parent:x?}"))
    });
}

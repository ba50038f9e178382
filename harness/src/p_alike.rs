//! Calls one after another on arguments that resemble each other: equal in all but one part, with the same bytes in
//! another order, with equal sums, or (found by search, golden/twins.txt) with equal fingerprints or checksums. What
//! a call gives must not depend on what was asked before; anything remembered under too short a name shows here.
use crate::gen::{self, lib_path};
use crate::mon::{lib, short, verif_dir, Env, Mon, R};
use crate::oracle::bip32::{self as o, Attrs, Prv, Pub};
use crate::oracle::bip39::{self as m39, lists, SIZES};
use crate::oracle::{b58, hash, hex, secp, unhex};
use crate::p_bip32::{check_import, cmp_prv, cmp_pub, key_id, mk_prv, mk_pub, text_prv, text_pub};
use crate::p_bip39::check_mnemonic;
use crate::rng::Rng;
use crate::ensure;
use kms::bip32::{ChildNumber, DerivationPath, XPrv};
use kms::bip39::{Mnemonic, Seed};
use std::collections::BTreeMap;
use std::sync::OnceLock;

pub struct Twins {
    /// Private keys whose public keys have the same fingerprint.
    pub keys: Vec<[[u8; 32]; 2]>,
    /// Serialised keys with the same checksum.
    pub raws: Vec<[Vec<u8>; 2]>,
}
pub fn twins() -> &'static Twins {
    static T: OnceLock<Twins> = OnceLock::new();
    T.get_or_init(|| {
        let s = std::fs::read_to_string(format!("{}/golden/twins.txt", verif_dir())).expect("golden/twins.txt");
        let mut t = Twins { keys: vec![], raws: vec![] };
        for l in s.lines().filter(|l| !l.starts_with('#')) {
            let p: Vec<&str> = l.split(' ').collect();
            let [a, b] = [1, 2].map(|i| unhex(p[i]).unwrap());
            match p[0] {
                "fingerprint" => t.keys.push([a.try_into().unwrap(), b.try_into().unwrap()]),
                _ => t.raws.push([a, b]),
            }
        }
        t
    })
}
/// `kmsmon twins`: finds the pairs.
pub fn search() -> i32 {
    fn pairs<T>(mut v: Vec<([u8; 4], T)>) -> Vec<(T, T)> {
        v.sort_by_key(|x| x.0);
        let mut out = vec![];
        let mut last: Option<([u8; 4], T)> = None;
        for x in v {
            match last.take() {
                Some(l) if l.0 == x.0 => out.push((l.1, x.1)),
                _ => last = Some(x),
            }
        }
        out
    }
    println!("# pairs with equal fingerprints or checksums, found by: kmsmon twins");
    let mut r = Rng::new(0x7415, "twins", 0);
    for _ in 0..2 {
        let k0 = secp::from_be(&r.arr::<32>());
        let mut v = vec![];
        secp::walk(&k0, 1 << 18, |i, p| v.push((hash::hash160(&secp::compress(p))[..4].try_into().unwrap(), i)));
        for (a, b) in pairs(v) {
            let [a, b] = [a, b].map(|i| secp::to_be(&secp::nadd(&k0, &[i, 0, 0, 0])));
            let [x, y] = [a, b].map(|k| o::fingerprint(&secp::pubkey(&k).unwrap()));
            assert_eq!(x, y);
            println!("fingerprint {} {}", hex(&a), hex(&b));
        }
    }
    for i in 0..6 {
        let a = Attrs { depth: 1 + r.below(250) as u8, fp: r.arr(), child: r.u32(), cc: r.arr() };
        let k: [u8; 32] = r.arr();
        let mut v = vec![];
        for _ in 0..1 << 18 {
            let (mut a, mut k) = (a.clone(), k);
            match i / 2 {
                0 => a.cc[r.idx(24)..][..8].copy_from_slice(&r.u64().to_be_bytes()),
                1 => k[r.idx(24)..][..8].copy_from_slice(&r.u64().to_be_bytes()),
                _ => {
                    a.child = r.u32();
                    a.fp = r.arr();
                }
            }
            let raw = if i % 2 == 0 {
                o::raw(0x0488ade4, &a, &Prv { k, a: a.clone() }.key_bytes())
            } else {
                let mut pk = [2u8; 33];
                pk[1..].copy_from_slice(&k);
                if i == 3 && secp::decompress(&pk).is_none() {
                    continue;
                }
                if i != 3 {
                    pk[1..].copy_from_slice(&[0x79, 0xbe, 0x66, 0x7e, 0xf9, 0xdc, 0xbb, 0xac, 0x55, 0xa0, 0x62, 0x95, 0xce, 0x87, 0x0b, 0x07, 0x02, 0x9b, 0xfc, 0xdb, 0x2d, 0xce, 0x28, 0xd9, 0x59, 0xf2, 0x81, 0x5b, 0x16, 0xf8, 0x17, 0x98]);
                }
                o::raw(0x0488b21e, &a, &pk)
            };
            v.push((hash::sha256(&hash::sha256(&raw))[..4].try_into().unwrap(), raw));
        }
        for (a, b) in pairs(v) {
            println!("checksum {} {}", hex(&a), hex(&b));
        }
    }
    0
}

/// Bytes like these: the same length, or a shorter or longer text of the same.
pub fn like(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    let n = v.len();
    if n < 2 {
        return vec![r.u32() as u8; n];
    }
    let (i, mut j) = (r.idx(n), r.idx(n));
    if i == j {
        j = (i + 1) % n;
    }
    match r.below(10) {
        0 => v.reverse(),
        1 => v.rotate_left(1 + i % (n - 1)),
        2 => v.swap(i, j),
        3 => v.rotate_left(n / 2),
        4 => {
            // equal exclusive or
            let d = r.range(1, 255) as u8;
            v[i] ^= d;
            v[j] ^= d;
        }
        5 => {
            // equal sum
            v[i] = v[i].wrapping_add(1);
            v[j] = v[j].wrapping_sub(1);
        }
        6 => v[0] ^= 1 << r.below(8),
        7 => v[n - 1] ^= 1 << r.below(8),
        8 => {
            // another tail, or another head
            let t = r.bytes(n);
            if r.chance(1, 2) { v[i.max(1)..].copy_from_slice(&t[i.max(1)..]) } else { v[..i.max(1)].copy_from_slice(&t[..i.max(1)]) }
        }
        _ => v[i] ^= 1 << r.below(8),
    }
    v
}
fn like_arr<const N: usize>(r: &mut Rng, b: &[u8; N]) -> [u8; N] {
    like(r, b).try_into().unwrap()
}
fn like_u32(r: &mut Rng, c: u32) -> u32 {
    match r.below(6) {
        0 => c ^ 1 << 31,
        1 => c.swap_bytes(),
        2 => c.wrapping_add(1),
        3 => c ^ 0x0001_0000,
        4 => c & 0xffff,
        _ => c ^ 1 << r.below(32),
    }
}
pub fn like_key(r: &mut Rng, k: &[u8; 32]) -> [u8; 32] {
    loop {
        let v = if r.chance(1, 5) { secp::to_be(&secp::nneg(&secp::from_be(k))) } else { like_arr(r, k) };
        if secp::valid_sk(&secp::from_be(&v)) {
            return v;
        }
    }
}
pub fn like_attrs(r: &mut Rng, a: &Attrs) -> Attrs {
    let mut a = a.clone();
    match r.below(if a.depth == 0 { 1 } else { 5 }) {
        0 => a.cc = like_arr(r, &a.cc),
        1 => a.depth = 1 + (a.depth % 200),
        2 => a.fp = like_arr(r, &a.fp),
        3 => a.child = like_u32(r, a.child),
        _ => {
            // the parts swapped
            let c = u32::from_be_bytes(a.fp);
            a.fp = a.child.to_be_bytes();
            a.child = c;
        }
    }
    a
}
/// A few keys alike: the base, then ones that differ from it in the key, the attributes or both.
pub fn keys(r: &mut Rng, max_depth: u8) -> Vec<Prv> {
    let mut p = gen::prv(r, max_depth);
    let t = r.chance(1, 3);
    let tw = *r.pick(&twins().keys);
    if t {
        p.k = tw[0];
    }
    let mut v = vec![p.clone()];
    if t {
        v.push(Prv { k: tw[1], a: p.a.clone() });
    }
    while v.len() < 5 {
        let mut q = r.pick(&v).clone();
        if r.chance(1, 2) {
            q.k = like_key(r, &q.k);
        } else {
            q.a = like_attrs(r, &q.a);
        }
        v.push(q);
    }
    v
}
/// One place in memory that arguments are put in, one after another; or, as often, places of their own.
pub struct Place(Vec<u8>, bool);
impl Place {
    pub fn new(r: &mut Rng) -> Place {
        Place(Vec::with_capacity(4096), r.chance(1, 2))
    }
    pub fn always() -> Place {
        Place(Vec::with_capacity(4096), true)
    }
    pub fn put<'a>(&'a mut self, b: &'a [u8]) -> &'a [u8] {
        if !self.1 || b.len() > self.0.capacity() {
            return b;
        }
        self.0.clear();
        self.0.extend_from_slice(b);
        &self.0
    }
    pub fn text<'a>(&'a mut self, t: &'a str) -> &'a str {
        std::str::from_utf8(self.put(t.as_bytes())).unwrap()
    }
}
const STEPS: usize = 20;
/// `n` things asked about in an order with every one after every other, roughly.
fn order(r: &mut Rng, n: usize) -> Vec<usize> {
    (0..STEPS).map(|_| r.idx(n)).collect()
}
struct Known<K: Ord, V>(BTreeMap<K, V>);
impl<K: Ord + Clone, V: Clone> Known<K, V> {
    fn get(&mut self, k: K, f: impl FnOnce() -> V) -> V {
        self.0.entry(k).or_insert_with(f).clone()
    }
}

fn phase(env: &'static Env, quick: u64, thorough: u64, f: impl Fn(&mut Mon, &mut Rng) -> R + Sync) {
    twins();
    env.phase("alike", env.n(quick, thorough), move |m, r, _| {
        let n = m.evals;
        f(m, r).map_err(|e| format!("after calls on similar arguments: {e}"))?;
        m.count_n("calls following one on similar arguments", m.evals - n - 1);
        Ok(())
    });
}

pub fn c01(env: &'static Env) {
    phase(env, 4000, 100_000, |m, r| {
        let mut v = vec![gen::entropy(r)];
        while v.len() < 6 {
            let b = r.pick(&v).clone();
            v.push(match r.below(5) {
                0 => {
                    let n = *r.pick(&SIZES);
                    let mut b = b;
                    b.resize(n, 0);
                    b
                }
                _ => like(r, &b),
            });
        }
        let mut here = Place::new(r);
        for i in order(r, v.len()) {
            let (e, l) = (here.put(&v[i]), r.idx(2));
            m.eval();
            m.seen(&[&[l as u8][..], e].concat());
            let g = lib(|| Mnemonic::from_entropy(e, lists()[l].lang))?.map_err(|x| format!("from_entropy({}) refused: {x}", hex(e)))?;
            let s = m39::sentence(e, l);
            check_mnemonic(&g, e, &s, l, false)?;
        }
        Ok(())
    });
}
pub fn c02(env: &'static Env) {
    phase(env, 3000, 80_000, |m, r| {
        let l = r.idx(2);
        let e = gen::entropy(r);
        let w: Vec<&str> = m39::indices(&e).iter().map(|i| lists()[l].words[*i]).collect();
        let mut v = vec![w.clone(), m39::indices(&e).iter().map(|i| lists()[1 - l].words[*i]).collect()];
        while v.len() < 8 {
            let mut w = r.pick(&v).clone();
            let (i, j) = (r.idx(w.len()), r.idx(w.len()));
            match r.below(8) {
                0 => w.swap(i, j),
                1 => w.reverse(),
                2 => w.rotate_left(1),
                3 => w[i] = lists()[l].words[r.idx(2048)],
                4 => w.push(w[i]),
                5 if w.len() > 1 => drop(w.pop()),
                6 => {
                    let n = w.len() - 1;
                    w[n] = lists()[l].words[r.idx(2048)]
                }
                _ => {
                    // another valid sentence, alike in its entropy
                    let e = like(r, &e);
                    w = m39::indices(&e).iter().map(|i| lists()[l].words[*i]).collect()
                }
            }
            v.push(w);
        }
        let mut here = Place::new(r);
        for i in order(r, v.len()) {
            let t = v[i].join(if r.chance(1, 4) { "\u{3000}" } else { " " });
            let as_ = if r.chance(1, 3) { 1 - l } else { l };
            crate::p_bip39::check_text(m, here.text(&t), as_)?;
        }
        Ok(())
    });
}
pub fn c03(env: &'static Env) {
    phase(env, 500, 10_000, |m, r| {
        let mut es = vec![gen::entropy(r)];
        while es.len() < 3 {
            let b = es[0].clone();
            es.push(like(r, &b));
        }
        let mut ps = vec![gen::passphrase(r)];
        while ps.len() < 4 {
            let p: Vec<char> = r.pick(&ps).chars().collect();
            let mut q = p.clone();
            match r.below(8) {
                0 => q.reverse(),
                1 => q.push(' '),
                2 => q.push('\0'),
                3 => drop(q.pop()),
                4 if !q.is_empty() => q.rotate_left(1),
                5 => q = q.iter().flat_map(|c| c.to_uppercase()).collect(),
                6 => q = q.iter().flat_map(|c| c.to_lowercase()).collect(),
                _ => q.insert(r.range(0, p.len()), 'x'),
            }
            ps.push(q.into_iter().collect());
        }
        let mut known = Known(BTreeMap::new());
        let mut here = Place::new(r);
        for _ in 0..STEPS {
            let (i, j, l) = (r.idx(es.len()), r.idx(ps.len()), r.idx(2));
            let (e, p) = (&es[i], &ps[j]);
            let s = m39::sentence(e, l);
            let want = known.get((i, j, l), || m39::seed(&s, l, p));
            let mn = lib(|| Mnemonic::from_entropy(e, lists()[l].lang))?.map_err(|x| x.to_string())?;
            m.eval();
            m.seen(format!("{s}|{p}").as_bytes());
            let p = here.text(p);
            let g = lib(|| Seed::new(&mn, p))?;
            ensure!(g.as_bytes() == want, "seed of {s:?} with passphrase {p:?} is {}, expected {}", hex(g.as_bytes()), hex(&want));
        }
        Ok(())
    });
}
pub fn c06(env: &'static Env) {
    phase(env, 10_000, 200_000, |m, r| {
        let n = *r.pick(&[16usize, 32, 64, 128]);
        let mut v = vec![gen::block(r, n)];
        while v.len() < 6 {
            let mut b = r.pick(&v).clone();
            if r.chance(1, 4) {
                let n = *r.pick(&[16usize, 32, 64, 128, 15, 33, 0]);
                b.resize(n, 0);
            } else {
                b = like(r, &b);
            }
            v.push(b);
        }
        let mut here = Place::new(r);
        for i in order(r, v.len()) {
            let s = here.put(&v[i]);
            m.eval();
            m.seen(s);
            let got = if r.chance(1, 2) { lib(|| XPrv::new(s))? } else { lib(|| XPrv::new_from_path(s, &DerivationPath::default()))? };
            cmp_prv(got, o::master(s), &format!("master of seed {}", short(s)))?;
        }
        Ok(())
    });
}
fn children(r: &mut Rng) -> Vec<u32> {
    let mut c = vec![gen::child(r)];
    while c.len() < 3 {
        let x = c[0];
        c.push(like_u32(r, x));
    }
    c
}
pub fn c07(env: &'static Env) {
    phase(env, 3000, 80_000, |m, r| {
        let v = keys(r, 255);
        let xs = v.iter().map(mk_prv).collect::<Result<Vec<_>, _>>()?;
        let cs = children(r);
        let mut known = Known(BTreeMap::new());
        let (same, mut x) = (r.chance(1, 2), xs[0].clone());
        for i in order(r, v.len()) {
            let c = *r.pick(&cs);
            m.eval();
            m.seen(&[key_id(&v[i]), c.to_be_bytes().to_vec()].concat());
            let want = known.get((i, c), || v[i].ckd(c));
            x.clone_from(&xs[i]);
            let x = if same { &x } else { &xs[i] };
            cmp_prv(lib(|| x.derive_child(ChildNumber(c)))?, want, &format!("child {c:#x} of {:x?}", v[i]))?;
        }
        Ok(())
    });
}
pub fn c08(env: &'static Env) {
    phase(env, 2000, 50_000, |m, r| {
        let v: Vec<Pub> = keys(r, 255).iter().map(|p| p.to_pub()).collect();
        let xs = v.iter().map(mk_pub).collect::<Result<Vec<_>, _>>()?;
        let cs = children(r);
        let mut known = Known(BTreeMap::new());
        let (same, mut x) = (r.chance(1, 2), xs[0].clone());
        for i in order(r, v.len()) {
            let c = *r.pick(&cs) & if r.chance(3, 4) { 0x7fff_ffff } else { u32::MAX };
            m.eval();
            m.seen(&[o::raw(0, &v[i].a, &v[i].k), c.to_be_bytes().to_vec()].concat());
            let want = known.get((i, c), || v[i].ckd(c));
            x.clone_from(&xs[i]);
            let x = if same { &x } else { &xs[i] };
            cmp_pub(lib(|| x.derive_child(ChildNumber(c)))?, want, &format!("public child {c:#x} of {:x?}", v[i]))?;
        }
        Ok(())
    });
}
pub fn c10(env: &'static Env) {
    phase(env, 700, 20_000, |m, r| {
        let v = keys(r, 250);
        let xs = v.iter().map(mk_prv).collect::<Result<Vec<_>, _>>()?;
        let public = r.chance(1, 3);
        let qs: Vec<Pub> = v.iter().map(|p| p.to_pub()).collect();
        let xqs = qs.iter().map(mk_pub).collect::<Result<Vec<_>, _>>()?;
        let mask = if public { 0x7fff_ffff } else { u32::MAX };
        let mut ps: Vec<Vec<u32>> = vec![(0..r.range(1, 4)).map(|_| if r.chance(1, 2) { r.below(30) as u32 } else { gen::child(r) & mask }).collect()];
        while ps.len() < 6 {
            let mut p = r.pick(&ps).clone();
            if p.is_empty() {
                p.push(1);
            }
            let (i, j) = (r.idx(p.len()), r.idx(p.len()));
            match r.below(8) {
                0 => p.swap(i, j),
                1 => p.reverse(),
                2 => p.push(r.below(3) as u32),
                3 => drop(p.pop()),
                4 => drop(p.remove(0)),
                5 => p.insert(0, 0),
                // the same digits, cut elsewhere
                6 if p[i] < 1 << 28 => {
                    let x = p[i];
                    p[i] = x / 10;
                    p.insert(i + 1, x % 10);
                }
                _ => p[i] = like_u32(r, p[i]) & mask,
            }
            ps.push(p);
        }
        let lps: Vec<DerivationPath> = ps.iter().map(|p| lib_path(p)).collect();
        let (mut k1, mut k2) = (Known(BTreeMap::new()), Known(BTreeMap::new()));
        for i in order(r, v.len()) {
            let j = r.idx(ps.len());
            m.eval();
            m.seen(&[key_id(&v[i]), ps[j].iter().flat_map(|c| c.to_le_bytes()).collect()].concat());
            let what = format!("{:x?} along {}", v[i], o::show_path(&ps[j]));
            if public {
                let want = k1.get((i, j), || qs[i].path(&ps[j]));
                cmp_pub(lib(|| xqs[i].clone().derive_from_path(&lps[j]))?, want, &format!("public part of {what}"))?;
            } else {
                let want = k2.get((i, j), || v[i].path(&ps[j]));
                cmp_prv(lib(|| xs[i].clone().derive_from_path(&lps[j]))?, want, &what)?;
            }
        }
        Ok(())
    });
}
pub fn c11(env: &'static Env) {
    phase(env, 800, 30_000, |m, r| {
        let mut v = keys(r, 255);
        if r.chance(1, 2) {
            v.truncate(3);
            for raw in r.pick(&twins().raws).iter() {
                let w = o::parse(&b58::check_encode(raw)).ok_or("bad golden text")?;
                if w.is_prv() {
                    v.push(Prv { k: w.key[1..].try_into().unwrap(), a: w.a });
                } else {
                    text_pub(m, &Pub { k: w.key, a: w.a }, r.idx(4))?;
                }
            }
        }
        for i in order(r, v.len()) {
            if r.chance(1, 2) {
                text_prv(m, &v[i], r.idx(4))?;
            } else {
                text_pub(m, &v[i].to_pub(), r.idx(4))?;
            }
        }
        Ok(())
    });
}
pub fn c12(env: &'static Env) {
    phase(env, 2000, 50_000, |m, r| {
        let mut v: Vec<String> = vec![];
        for p in keys(r, 255) {
            let k = r.idx(4);
            v.push(o::text(gen::VERSIONS[k].1, &p.a, &p.key_bytes()));
            v.push(o::text(gen::VERSIONS[4 + k].1, &p.a, &p.to_pub().k));
        }
        for raw in r.pick(&twins().raws).iter() {
            v.push(b58::check_encode(raw));
        }
        for _ in 0..6 {
            // damaged forms of the same texts, and one text with the checksum of another
            let (a, b) = (r.pick(&v).clone(), r.pick(&v).clone());
            v.push(match r.below(3) {
                0 => gen::mutate_text(r, &a, &['1', 'z', 'A']),
                1 if a.len() > 20 && b.len() > 20 && a.is_ascii() && b.is_ascii() => format!("{}{}", &a[..a.len() - 8], &b[b.len() - 8..]),
                _ => String::from_utf8(like(r, a.as_bytes())).unwrap_or_default(),
            });
        }
        let mut here = Place::new(r);
        for i in order(r, v.len()) {
            check_import(m, here.text(&v[i]))?;
        }
        Ok(())
    });
}

pub fn c19(env: &'static Env) {
    phase(env, 4000, 100_000, |m, r| {
        let any = r.range(2, 200);
        let n = *r.pick(&[20usize, 32, 33, 33, 55, 56, 64, 65, 200, any]);
        let mut v = vec![gen::block(r, n)];
        while v.len() < 6 {
            let b = r.pick(&v).clone();
            v.push(like(r, &b));
        }
        let mut here = Place::new(r);
        for i in order(r, v.len()) {
            let b = here.put(&v[i]);
            m.eval();
            m.seen(b);
            let g = lib(|| kms::crypto::ripemd(b))?;
            ensure!(g == hex(&hash::ripemd160(b)), "RIPEMD-160 of {} is {g}", short(b));
        }
        let ps = keys(r, 255);
        for i in order(r, ps.len()) {
            crate::p_ecdsa::check_key(m, &ps[i])?;
        }
        Ok(())
    });
}
pub fn c18(env: &'static Env) {
    phase(env, 1000, 30_000, |m, r| {
        let ks: Vec<[u8; 32]> = keys(r, 255).iter().map(|p| p.k).collect();
        let sks = ks.iter().map(crate::p_ecdsa::ls_sk).collect::<Result<Vec<_>, _>>()?;
        let mut ds = vec![crate::p_ecdsa::digest(r)];
        while ds.len() < 4 {
            let d = *r.pick(&ds);
            ds.push(like_arr(r, &d));
        }
        let mut here = Place::new(r);
        for i in order(r, ks.len()) {
            let d = r.pick(&ds);
            m.eval();
            m.seen(&[ks[i], *d].concat());
            let d: &[u8; 32] = here.put(d).try_into().unwrap();
            crate::p_ecdsa::check_sig(&ks[i], &sks[i], d)?;
        }
        Ok(())
    });
}

//! Self-contained library calls named by a number. `run(pool, id)` builds the arguments of call `id` from small pools
//! of values that resemble each other in all but one part (so that anything remembered under too short a name
//! shows), performs the call and renders everything it returned. Building the arguments never touches the library.
use crate::{gen, p_alike};
use crate::mon::lib;
use crate::oracle::bip32::{self as b32, Attrs, Prv};
use crate::oracle::bip39::{self as o, lists};
use crate::oracle::{hex, secp};
use crate::rng::Rng;
use kms::bip32 as k;
use kms::bip32::{PrivateKey, PublicKey};
use kms::bip39::{ErrorKind, Language, Mnemonic, MnemonicType, Seed};
use std::fmt::Write;
use subtle::ConstantTimeEq;

pub struct Pool {
    pub seed: u64,
    pub ents: Vec<Vec<u8>>,
    pub phrases: Vec<(String, usize)>, // text, list
    pub passes: Vec<String>,
    pub seeds: Vec<Vec<u8>>,
    pub keys: Vec<[u8; 32]>,
    pub pubs: Vec<[u8; 33]>,
    pub ccs: Vec<[u8; 32]>,
    pub idx: Vec<u32>,
    pub depths: Vec<u8>,
    pub fps: Vec<[u8; 4]>,
    pub paths: Vec<Vec<u32>>,
    pub texts: Vec<String>,
    pub words: Vec<String>,
    pub digests: Vec<Vec<u8>>,
}
/// A value, and neighbours that differ from it in one place each.
fn family(r: &mut Rng, n: usize, len: usize) -> Vec<Vec<u8>> {
    let base = r.bytes(len);
    let mut v = vec![base.clone()];
    for at in [0, 1, len / 2, len / 2 - 1, len - 1, 3, 4, 7, 8] {
        if v.len() < n && at < len {
            let mut x = base.clone();
            x[at] ^= 1 << r.below(8);
            v.push(if r.chance(1, 3) { p_alike::like(r, &base) } else { x });
        }
    }
    while v.len() < n {
        v.push(p_alike::like(r, &base));
    }
    v
}
impl Pool {
    pub fn new(seed: u64) -> Pool {
        let mut g = Rng::new(seed, "spec-pool", 0);
        let r = &mut g;
        let mut ents = vec![];
        for s in o::SIZES {
            ents.extend(family(r, 4, s));
        }
        let long = ents[16].clone();
        ents.push(long[..16].to_vec());
        ents.push(vec![0; 16]);
        let mut phrases = vec![];
        for e in &ents {
            for l in 0..2 {
                let s = o::sentence(e, l);
                let w: Vec<&str> = s.split(' ').collect();
                match r.below(8) {
                    0 => phrases.push((w[..w.len() - 1].join(" "), l)),
                    1 => phrases.push((format!("{} {}", w[..w.len() - 1].join(" "), lists()[l].words[r.idx(2048)]), l)),
                    2 => phrases.push((s.replacen(w[1], "zzz", 1), l)),
                    3 => phrases.push((s.clone(), 1 - l)),
                    4 => phrases.push((w.join("  "), l)),
                    5 => phrases.push((s.to_uppercase(), l)),
                    _ => (),
                }
                phrases.push((s, l));
            }
        }
        let passes = ["", "a", "b", "TREZOR", "trezor", "\u{e9}", "e\u{301}", "\u{c5}", "\u{212b}", " ", "aa", "\u{ac00}", "\u{1100}\u{1161}"].map(String::from).to_vec();
        let mut seeds = vec![];
        for n in [16, 32, 64, 128] {
            seeds.extend(family(r, 3, n));
        }
        seeds.push(seeds[6][..32].to_vec());
        seeds.extend([vec![], vec![1; 31], vec![2; 65]]);
        let mut keys: Vec<[u8; 32]> = family(r, 8, 32).into_iter().map(|v| v.try_into().unwrap()).collect();
        let b0 = keys[0];
        keys.push(secp::to_be(&secp::nneg(&secp::from_be(&b0)))); // same x coordinate
        keys.push(secp::to_be(&[1, 0, 0, 0]));
        keys.push(secp::to_be(&secp::sub_borrow(&secp::N, &[1, 0, 0, 0]).0));
        keys.extend(r.pick(&p_alike::twins().keys)); // same fingerprint
        keys.push(p_alike::like_key(r, &b0));
        keys.retain(|k| secp::valid_sk(&secp::from_be(k)));
        let pubs = keys.iter().map(|k| secp::pubkey(k).unwrap()).collect();
        let ccs: Vec<[u8; 32]> = family(r, 5, 32).into_iter().map(|v| v.try_into().unwrap()).collect();
        let i0 = r.u32() & 0x7fff_ffff;
        let idx = vec![0, 1, 1 << 31, 1 << 31 | 1, i0, i0 | 1 << 31, i0 ^ 1, i0 ^ 1 << 8, 0x7fff_ffff, u32::MAX];
        let fps = family(r, 3, 4).into_iter().map(|v| v.try_into().unwrap()).collect();
        let mut paths = vec![vec![], vec![0], vec![0, 0], vec![1 << 31], vec![0, 1 << 31], vec![1 << 31, 0], vec![i0, 1, 0], vec![i0, 1], vec![i0 | 1 << 31, 1, 0], vec![44 | 1 << 31, 60 | 1 << 31, 1 << 31, 0, 0], vec![44 | 1 << 31, 60 | 1 << 31, 1 << 31, 0, 1]];
        paths.push((0..260).map(|i| i % 3).collect());
        let mut p = Pool { seed, ents, phrases, passes, seeds, keys, pubs, ccs, idx, depths: vec![0, 1, 2, 5, 254, 255], fps, paths, texts: vec![], words: vec![], digests: family(r, 6, 32) };
        p.digests.extend([vec![], vec![7; 31], vec![7; 33]]);
        for i in 0..60 {
            let x = p.prv(r);
            let (_, v, is_prv) = gen::VERSIONS[i % 8];
            let kb = if is_prv { x.key_bytes() } else { secp::pubkey(&x.k).unwrap() };
            let mut t = b32::text(v, &x.a, &kb);
            if i % 5 == 4 {
                let alph: Vec<char> = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz".chars().collect();
                t = gen::mutate_text(r, &t, &alph);
            }
            p.texts.push(t);
        }
        for raw in r.pick(&p_alike::twins().raws).iter() {
            p.texts.push(crate::oracle::b58::check_encode(raw)); // same checksum
        }
        for l in 0..2 {
            for _ in 0..12 {
                p.words.push(lists()[l].words[r.idx(2048)].to_string());
            }
        }
        p.words.extend(["", "a", "ab", "zoo", "zzz", "ABANDON", "abando", "abandonx", "\u{7684}", "\u{3042}", "caf\u{e9}"].map(String::from));
        p
    }
    pub fn attrs(&self, r: &mut Rng) -> Attrs {
        let depth = *r.pick(&self.depths);
        if depth == 0 {
            return Attrs { depth, fp: [0; 4], child: 0, cc: *r.pick(&self.ccs) };
        }
        Attrs { depth, fp: *r.pick(&self.fps), child: *r.pick(&self.idx), cc: *r.pick(&self.ccs) }
    }
    pub fn prv(&self, r: &mut Rng) -> Prv {
        Prv { k: *r.pick(&self.keys), a: self.attrs(r) }
    }
    pub fn xpub(&self, r: &mut Rng) -> b32::Pub {
        b32::Pub { k: *r.pick(&self.pubs), a: self.attrs(r) }
    }
}

// ---- rendering -----------------------------------------------------------------------------------
pub fn show_attrs(a: &k::ExtendedKeyAttrs) -> String {
    format!("d{} f{} c{:x} {}", a.depth, hex(&a.parent_fingerprint), a.child_number.0, hex(&a.chain_code))
}
pub fn show_prv(x: &k::XPrv) -> String {
    format!("prv {} {}", hex(&x.to_bytes()), show_attrs(x.attrs()))
}
pub fn show_pub(x: &k::XPub) -> String {
    format!("pub {} {}", hex(&x.to_bytes()), show_attrs(x.attrs()))
}
pub fn show_mn(m: &Mnemonic) -> String {
    format!("{} | {} | {:?}", m.phrase(), hex(m.entropy()), m.language())
}
pub fn show_err(e: &anyhow::Error) -> String {
    format!("error {e} {e:?} {:?}", e.downcast_ref::<ErrorKind>())
}
fn res<T, E: std::fmt::Debug>(x: Result<T, E>, f: impl FnOnce(&T) -> String) -> String {
    match x {
        Ok(v) => f(&v),
        Err(e) => format!("error {e:?}"),
    }
}

/// A key type that refuses or panics at a chosen step, to put failures into histories.
pub struct Moody(pub libsecp256k1::SecretKey);
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MoodyPub(pub libsecp256k1::PublicKey);
impl Ord for MoodyPub {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        PublicKey::to_bytes(self).cmp(&PublicKey::to_bytes(o))
    }
}
impl PartialOrd for MoodyPub {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
thread_local! {
    /// steps left before the mood strikes (u32::MAX: never); what it is: 0 error, 1 panic
    pub static MOOD: std::cell::Cell<(u32, u8)> = const { std::cell::Cell::new((u32::MAX, 0)) };
}
thread_local! {
    /// Calls still to be made from inside the caller's code that the library runs, and what those made gave.
    static INSIDE: std::cell::RefCell<(Vec<u64>, Vec<(u64, String)>)> = const { std::cell::RefCell::new((vec![], vec![])) };
    static WHOSE: std::cell::Cell<*const Pool> = const { std::cell::Cell::new(std::ptr::null()) };
}
/// Runs `f`; whenever the library calls back into the caller's code meanwhile, one of the calls `ids` is made there.
pub fn with_calls_inside<T>(p: &Pool, ids: Vec<u64>, f: impl FnOnce() -> T) -> (T, Vec<(u64, String)>) {
    WHOSE.with(|w| w.set(p));
    INSIDE.with(|i| *i.borrow_mut() = (ids, vec![]));
    let r = f();
    WHOSE.with(|w| w.set(std::ptr::null()));
    (r, INSIDE.with(|i| std::mem::take(&mut *i.borrow_mut()).1))
}
/// The library is running the caller's code.
pub fn inside() {
    let Some(p) = (unsafe { WHOSE.with(|w| w.get()).as_ref() }) else { return };
    if let Some(id) = INSIDE.with(|i| i.borrow_mut().0.pop()) {
        let got = run(p, id).1;
        INSIDE.with(|i| i.borrow_mut().1.push((id, got)));
    }
}
fn mood() -> k::Result<()> {
    inside();
    MOOD.with(|m| {
        let (n, kind) = m.get();
        if n == u32::MAX {
            return Ok(());
        }
        if n > 0 {
            m.set((n - 1, kind));
            return Ok(());
        }
        if kind == 1 {
            panic!("key type panics");
        }
        Err(k::Error::Bip39)
    })
}
impl PrivateKey for Moody {
    type PublicKey = MoodyPub;
    fn from_bytes(b: &k::PrivateKeyBytes) -> k::Result<Self> {
        mood()?;
        PrivateKey::from_bytes(b).map(Moody)
    }
    fn to_bytes(&self) -> k::PrivateKeyBytes {
        PrivateKey::to_bytes(&self.0)
    }
    fn derive_child(&self, t: k::PrivateKeyBytes) -> k::Result<Self> {
        mood()?;
        PrivateKey::derive_child(&self.0, t).map(Moody)
    }
    fn public_key(&self) -> MoodyPub {
        MoodyPub(PrivateKey::public_key(&self.0))
    }
}
impl PublicKey for MoodyPub {
    fn from_bytes(b: k::PublicKeyBytes) -> k::Result<Self> {
        mood()?;
        PublicKey::from_bytes(b).map(MoodyPub)
    }
    fn to_bytes(&self) -> k::PublicKeyBytes {
        PublicKey::to_bytes(&self.0)
    }
    fn derive_child(&self, t: k::PrivateKeyBytes) -> k::Result<Self> {
        mood()?;
        PublicKey::derive_child(&self.0, t).map(MoodyPub)
    }
}
/// Bytes that panic, or call back into the library, when they are looked at.
pub struct Callback<'a>(pub &'a [u8], pub u8, pub std::cell::Cell<u32>);
impl AsRef<[u8]> for Callback<'_> {
    fn as_ref(&self) -> &[u8] {
        inside();
        let n = self.2.get();
        self.2.set(n + 1);
        match self.1 {
            1 if n == 1 => panic!("argument panics"),
            2 => {
                let _ = k::XPrv::new([3u8; 32]).and_then(|x| x.derive_child(k::ChildNumber(n)));
            }
            _ => (),
        }
        self.0
    }
}

pub const KINDS: u64 = 24;

/// Performs call `id` and renders its result. `out` receives the arguments.
pub fn run(p: &Pool, id: u64) -> (String, String) {
    let mut g = Rng::new(p.seed, "spec", id);
    let r = &mut g;
    let kind = id % KINDS;
    let mut d = String::new();
    macro_rules! d { ($($a:tt)*) => { write!(d, $($a)*).unwrap() } }
    let got: Result<String, String> = match kind {
        0 => {
            let (e, l) = (r.pick(&p.ents).clone(), r.idx(2));
            d!("from_entropy {} {l}", hex(&e));
            lib(|| match Mnemonic::from_entropy(&e, lists()[l].lang) {
                Ok(m) => format!("{} {m} {m:?} {m:x} {m:#X} {}", show_mn(&m), hex(&m.as_bytes())),
                Err(x) => show_err(&x),
            })
        }
        1 => {
            let (t, l) = r.pick(&p.phrases).clone();
            d!("from_phrase {t:?} {l}");
            lib(|| match Mnemonic::from_phrase(&t, lists()[l].lang) {
                Ok(m) => format!("{} {}", show_mn(&m), m.clone().into_phrase()),
                Err(x) => show_err(&x),
            })
        }
        2 => {
            let (t, l) = r.pick(&p.phrases).clone();
            d!("validate {t:?} {l}");
            lib(|| match Mnemonic::validate(&t, lists()[l].lang) {
                Ok(_) => "ok".into(),
                Err(x) => show_err(&x),
            })
        }
        3 => {
            let (e, l, w) = (r.pick(&p.ents).clone(), r.idx(2), r.pick(&p.passes).clone());
            d!("seed {} {l} {w:?}", hex(&e));
            lib(|| match Mnemonic::from_entropy(&e, lists()[l].lang) {
                Ok(m) => {
                    let s = Seed::new(&m, &w);
                    format!("{} {s:?} {s:x} {}", hex(s.as_bytes()), show_mn(&m))
                }
                Err(x) => show_err(&x),
            })
        }
        4 => {
            let t = if r.chance(1, 3) { r.pick(&p.words).clone() } else { r.pick(&p.phrases).0.clone() };
            d!("detect {t:?}");
            lib(|| format!("{:?}", Language::from_phrase(&t)))
        }
        5 => {
            let t = r.pick(&["en", "zh-hans", "EN", "ZH-HANS", "Zh-Hans", "zh", "fr", "", "e", "enn", "ja"]).to_string();
            d!("code {t:?}");
            lib(|| format!("{:?}", Language::from_language_code(&t)))
        }
        6 => {
            let (w, l) = (r.pick(&p.words).clone(), r.idx(2));
            let n = r.range(0, w.chars().count());
            let pre: String = w.chars().take(n).collect();
            d!("prefix {pre:?} {l}");
            lib(|| format!("{:?}", lists()[l].lang.wordlist().get_words_by_prefix(&pre)))
        }
        7 => {
            let (w, l, i) = (r.pick(&p.words).clone(), r.idx(2), r.below(2048) as u16);
            d!("lookup {w:?} {i} {l}");
            lib(|| format!("{:?} {}", lists()[l].lang.wordmap().get_bits(&w).map(u16::from), lists()[l].lang.wordlist().get_word(i.into())))
        }
        8 => {
            let s = r.pick(&p.seeds).clone();
            d!("master {}", hex(&s));
            lib(|| res(k::XPrv::new(&s), show_prv))
        }
        9 => {
            let (s, q) = (r.pick(&p.seeds).clone(), r.pick(&p.paths).clone());
            d!("master path {} {}", hex(&s), b32::show_path(&q));
            lib(|| res(k::XPrv::new_from_path(&s, &gen::lib_path(&q)), show_prv))
        }
        10 => {
            let (x, c) = (p.prv(r), *r.pick(&p.idx));
            d!("child {x:x?} {c:x}");
            lib(|| res(gen::lib_prv(&x), |y| format!("{} of {}", res(y.derive_child(k::ChildNumber(c)), show_prv), show_prv(y))))
        }
        11 => {
            let (x, q) = (p.prv(r), r.pick(&p.paths).clone());
            d!("path {x:x?} {}", b32::show_path(&q));
            lib(|| res(gen::lib_prv(&x).and_then(|y| y.derive_from_path(&gen::lib_path(&q))), show_prv))
        }
        12 => {
            let (x, c) = (p.xpub(r), *r.pick(&p.idx));
            d!("pub child {x:x?} {c:x}");
            lib(|| res(gen::lib_pub(&x), |y| format!("{} of {} {:?}", res(y.derive_child(k::ChildNumber(c)), show_pub), show_pub(y), y.fingerprint())))
        }
        13 => {
            let (x, q) = (p.xpub(r), r.pick(&p.paths).clone());
            d!("pub path {x:x?} {}", b32::show_path(&q));
            lib(|| res(gen::lib_pub(&x).and_then(|y| y.derive_from_path(&gen::lib_path(&q))), show_pub))
        }
        14 => {
            let (x, v) = (p.prv(r), r.idx(4));
            d!("print {x:x?} {v}");
            lib(|| res(gen::lib_prv(&x), |y| format!("{} {} {:?}", y.to_string(gen::PRV_PREFIX[v]).as_str(), y.public_key().to_string(gen::PUB_PREFIX[v]), y)))
        }
        15 | 16 => {
            let t = r.pick(&p.texts).clone();
            d!("parse {t}");
            lib(|| format!("{} / {} / {}", res(t.parse::<k::XPrv>(), show_prv), res(t.parse::<k::XPub>(), show_pub), res(t.parse::<k::ExtendedKey>(), |e| format!("{e} {} {}", e.prefix, hex(&e.key_bytes)))))
        }
        17 => {
            let q = r.pick(&p.paths).clone();
            let t = if r.chance(1, 3) { gen::mutate_text(r, &b32::show_path(&q), &['m', '/', '\'', '0', '9', '+']) } else { b32::show_path(&q) };
            d!("parse path {t:?}");
            lib(|| res(t.parse::<k::DerivationPath>(), |y| format!("{y} {} {:?} {:?}", y.len(), y.parent().map(|z| z.to_string()), y.iter().map(|c| c.0).collect::<Vec<_>>())))
        }
        18 => {
            let (x, m) = (*r.pick(&p.keys), r.pick(&p.digests).clone());
            d!("sign {} {}", hex(&x), hex(&m));
            let sk = libsecp256k1::SecretKey::parse(&x).unwrap();
            lib(|| match kms::ecdsa_sign(&sk, &m) {
                Ok((s, v)) => format!("{} {v}", hex(&s)),
                Err(e) => format!("error {e:?} {e}"),
            })
        }
        19 => {
            let n = r.range(0, 130);
            let m = r.bytes(n);
            d!("ripemd {}", hex(&m));
            lib(|| kms::crypto::ripemd(&m))
        }
        20 => {
            let (x, mut y) = (p.prv(r), p.prv(r));
            if r.chance(2, 3) {
                y = x.clone();
                match r.below(5) {
                    0 => y.k = *r.pick(&p.keys),
                    1 => y.a.cc = *r.pick(&p.ccs),
                    2 => y.a = p.attrs(r),
                    _ => (),
                }
            }
            d!("equal {x:x?} {y:x?}");
            lib(|| match (gen::lib_prv(&x), gen::lib_prv(&y)) {
                (Ok(a), Ok(b)) => format!("{} {} {}", a == b, bool::from(a.ct_eq(&b)), a.public_key() == b.public_key()),
                (a, b) => format!("{:?} {:?}", a.err(), b.err()),
            })
        }
        21 => {
            let n = *r.pick(&[0usize, 11, 12, 13, 15, 18, 21, 24, 25, 128, 160, 192, 224, 256, 257]);
            let t = r.pick(&p.phrases).0.clone();
            d!("types {n} {t:?}");
            lib(|| {
                let f = |x: Result<MnemonicType, anyhow::Error>| match x {
                    Ok(t) => format!("{t:?} {t} {} {} {} {}", t.word_count(), t.entropy_bits(), t.checksum_bits(), t.total_bits()),
                    Err(e) => show_err(&e),
                };
                format!("{} {} {}", f(MnemonicType::for_word_count(n)), f(MnemonicType::for_key_size(n)), f(MnemonicType::for_phrase(&t)))
            })
        }
        22 => {
            let (x, q, at, kind, public) = (p.prv(r), r.pick(&p.paths[..11]).clone(), r.below(4) as u32, r.below(2) as u8, r.chance(1, 3));
            d!("moody {x:x?} {} at {at} {kind} {public}", b32::show_path(&q));
            let before = MOOD.with(|m| m.replace((at, kind)));
            let g = lib(|| {
                let t = b32::text(0x0488ade4, &x.a, &x.key_bytes());
                let u = b32::text(0x0488b21e, &x.a, &secp::pubkey(&x.k).unwrap());
                let path = gen::lib_path(&q);
                if public {
                    let y: k::Result<k::ExtendedPublicKey<MoodyPub>> = u.parse();
                    res(y.and_then(|y| y.derive_from_path(&path)), |z| format!("{} {}", hex(&z.to_bytes()), show_attrs(z.attrs())))
                } else {
                    let y: k::Result<k::ExtendedPrivateKey<Moody>> = t.parse();
                    res(y.and_then(|y| y.derive_from_path(&path)), |z| format!("{} {}", hex(&z.to_bytes()), show_attrs(z.attrs())))
                }
            });
            MOOD.with(|m| m.set(before));
            Ok(g.unwrap_or_else(|_| "panicked as the key type did".into()))
        }
        _ => {
            let (s, how) = (r.pick(&p.seeds).clone(), r.below(3) as u8);
            d!("callback master {} {how}", hex(&s));
            let g = lib(|| res(k::XPrv::new(Callback(&s, how, Default::default())), show_prv));
            Ok(match (g, how) {
                (Err(_), 1) => "panicked as the argument did".into(),
                (Err(e), _) => return (d, format!("PANIC {e}")),
                // whether a panicking argument is looked at twice is the library's business
                (Ok(_), 1) => "panicked as the argument did".into(),
                (Ok(x), _) => x,
            })
        }
    };
    (d, got.unwrap_or_else(|e| format!("PANIC {e}")))
}

//! C16: hostile inputs to every public operation, under the instrumented allocator and the sanitizers.
use crate::alloc;
use crate::ensure;
use crate::gen;
use crate::mon::{lib, Env, Mon};
use crate::oracle::bip32 as b32;
use crate::oracle::bip39::{self as o, lists};
use crate::oracle::{b58, secp};
use crate::rng::Rng;
use kms::bip32::{self as k, PrivateKey, PublicKey};
use kms::bip39::{Language, Mnemonic, MnemonicType, Seed};
use std::convert::TryFrom;
use std::fmt::Write;
use subtle::ConstantTimeEq;

/// Bytes a call may hold: a constant, and a multiple of what it was given.
fn allowance(input: usize) -> u64 {
    (1 << 20) + 256 * input as u64
}

/// Writer that gives up after n bytes.
struct Stingy(usize);
impl Write for Stingy {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.len() > self.0 {
            return Err(std::fmt::Error);
        }
        self.0 -= s.len();
        Ok(())
    }
}
/// Every way a value prints, through odd format flags and a writer that fails half way.
fn flags<T: std::fmt::Display + std::fmt::Debug>(x: &T, at: usize) -> usize {
    let mut n = 0;
    n += format!("{x}{x:?}{x:#?}{x:>60}{x:^7}{x:.3}{x:*<90.80}{x:+}{x:#}{x:04}").len();
    let _ = write!(Stingy(at), "{x}");
    let _ = write!(Stingy(at), "{x:?}");
    n
}
fn hexes<T: std::fmt::LowerHex + std::fmt::UpperHex>(x: &T, at: usize) -> usize {
    let _ = write!(Stingy(at), "{x:x}");
    let _ = write!(Stingy(at), "{x:#X}");
    format!("{x:x}{x:X}{x:#x}{x:#X}{x:200x}{x:.3X}{x:+x}").len()
}
fn use_prv(x: &k::XPrv, r: &mut Rng) {
    let _ = x.derive_child(k::ChildNumber(r.u32()));
    let _ = x.clone() == x.clone();
    let _ = x.ct_eq(x);
    let _ = x.attrs().clone();
    let _ = format!("{x:?}{x:#?}{x:30?}");
    let _ = write!(Stingy(r.idx(100)), "{x:?}");
    let _ = x.to_string(*r.pick(&gen::PRV_PREFIX)).len() + x.to_string(*r.pick(&gen::PUB_PREFIX)).len();
    let _ = x.to_extended_key(k::Prefix::XPUB).to_string();
    let _: libsecp256k1::SecretKey = x.into();
    use_pub(&x.public_key(), r);
}
fn use_pub(x: &k::XPub, r: &mut Rng) {
    let _ = x.derive_child(k::ChildNumber(r.u32()));
    let _ = x.clone() == x.clone();
    let _ = format!("{x:?}{x:#?}");
    let _ = (x.fingerprint(), x.to_bytes(), x.to_string(*r.pick(&gen::PRV_PREFIX)), x.to_string(k::Prefix::TPUB));
    let _: libsecp256k1::PublicKey = x.into();
}
fn use_mn(m: &Mnemonic, r: &mut Rng) {
    let _ = flags(m, r.idx(200)) + hexes(m, r.idx(80));
    let _ = (m.as_bytes(), m.language(), m.entropy().len());
    if r.chance(1, 6) {
        let s = Seed::new(m, &gen::text(r, 10));
        let _ = hexes(&s, r.idx(130));
        let _ = format!("{s:?}{s:#?}");
    }
    let _ = m.clone().into_phrase();
}
fn use_err(e: &anyhow::Error, r: &mut Rng) {
    let _ = flags(e, r.idx(40));
    let _ = format!("{}{}", e.root_cause(), e.chain().count());
}

/// Sizes from nothing to hundreds of kilobytes.
fn size(r: &mut Rng) -> usize {
    match r.below(40) {
        0 => 0,
        1..=25 => r.range(0, 40),
        26..=33 => r.range(0, 400),
        34..=37 => r.range(0, 5000),
        38 => r.range(0, 40000),
        _ => r.range(0, 250_000),
    }
}
fn any_text(r: &mut Rng) -> String {
    let n = size(r);
    match r.below(16) {
        0 => gen::text(r, n.min(20000)),
        1 => {
            let c = gen::any_char(r);
            std::iter::repeat(c).take(n).collect()
        }
        2 => (0..n).map(|_| *r.pick(&['m', '/', '0', '1', '9', '\'', '-', '+', ' ', 'h', 'H'])).collect(),
        3 => format!("m{}", "/0".repeat(n)),
        4 => format!("m{}", "/2147483647'".repeat(n / 8)),
        5 => format!("m/{}", "9".repeat(n)),
        6 => "/".repeat(n),
        7 => {
            let l = r.idx(2);
            let k = if r.chance(1, 2) { *r.pick(&[12usize, 15, 18, 21, 24]) } else { n / 5 };
            (0..k).map(|_| lists()[l].words[r.idx(2048)]).collect::<Vec<_>>().join(*r.pick(&gen::WS))
        }
        8 => {
            let e = gen::entropy(r);
            let l = r.idx(2);
            let s = o::sentence(&e, l);
            match r.below(4) {
                0 => s,
                1 => gen::mutate_text(r, &s, &[' ', 'a', 'z', '\u{3000}']),
                2 => format!("{}{s}{}", " ".repeat(n), "\t".repeat(n)),
                _ => gen::respell(r, &s),
            }
        }
        9 => gen::WS.iter().cycle().take(n).copied().collect(),
        10 => {
            let alph: Vec<char> = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz".chars().collect();
            (0..n).map(|_| *r.pick(&alph)).collect()
        }
        11 => "1".repeat(n),
        12 | 13 => {
            // Base58Check of anything around the right size
            let len = *r.pick(&[0usize, 1, 3, 4, 13, 44, 45, 77, 78, 78, 78, 79, 82, 83, 100]);
            let mut b = gen::block(r, len);
            if len >= 4 && r.chance(2, 3) {
                let v = gen::VERSIONS[r.idx(8)].1;
                b[..4].copy_from_slice(&v.to_be_bytes());
            }
            let s = if r.chance(4, 5) { b58::check_encode(&b) } else { b58::encode(&b) };
            if r.chance(1, 4) {
                gen::mutate_text(r, &s, &['1', '0', 'l', 'z', '\u{e9}'])
            } else {
                s
            }
        }
        14 => {
            let x = gen::prv(r, 255);
            let (_, v, p) = gen::VERSIONS[r.idx(8)];
            let kb = if p == r.chance(7, 8) { x.key_bytes() } else { secp::pubkey(&x.k).unwrap() };
            b32::text(v, &x.a, &kb)
        }
        _ => {
            // combining marks without end, and characters that expand most under NFKD
            let c = *r.pick(&['\u{fdfa}', '\u{301}', '\u{323}', '\u{ac01}', '\u{1d160}', '\u{fb2c}', '\u{390}']);
            let d = *r.pick(&['\u{301}', '\u{316}', 'a']);
            (0..n).map(|i| if i % 3 == 0 { d } else { c }).collect()
        }
    }
}
fn any_u(r: &mut Rng) -> u64 {
    match r.below(6) {
        0 => r.below(300),
        1 => 1 << r.below(64),
        2 => (1u64 << r.below(64)) - 1,
        3 => u64::MAX - r.below(300),
        4 => (r.below(1 << 20)) * 8,
        _ => r.u64(),
    }
}
fn any_attrs(r: &mut Rng) -> k::ExtendedKeyAttrs {
    k::ExtendedKeyAttrs { depth: *r.pick(&[0, 1, 254, 255, 7]), parent_fingerprint: r.arr(), child_number: k::ChildNumber(r.u32()), chain_code: gen::cc(r) }
}
fn any_prefix(r: &mut Rng) -> k::Prefix {
    let s: String = (0..4).map(|_| *r.pick(&['a', 'Z', 'x', 'p', 'r', 'v', 'b', 'u'])).collect();
    match r.below(4) {
        0 => *r.pick(&gen::PRV_PREFIX),
        1 => *r.pick(&gen::PUB_PREFIX),
        _ => k::Prefix::from_parts_unchecked(&s, any_u(r) as u32),
    }
}

pub const OPS: u64 = 26;
/// One operation; returns the size of its input and what to call it.
pub fn op(r: &mut Rng, kind: u64, go: &mut dyn FnMut(&str, usize, &mut dyn FnMut(&mut Rng))) {
    let lang = lists()[r.idx(2)].lang;
    match kind {
        0 => {
            let t = any_text(r);
            go("Mnemonic::from_phrase", t.len(), &mut |r| match Mnemonic::from_phrase(&t, lang) {
                Ok(m) => use_mn(&m, r),
                Err(e) => use_err(&e, r),
            })
        }
        1 => {
            let t = any_text(r);
            go("Mnemonic::validate", t.len(), &mut |r| {
                if let Err(e) = Mnemonic::validate(&t, lang) {
                    use_err(&e, r)
                }
            })
        }
        2 => {
            let n = if r.chance(1, 2) { *r.pick(&o::SIZES) } else { size(r) };
            let b = gen::block(r, n);
            go("Mnemonic::from_entropy", n, &mut |r| match Mnemonic::from_entropy(&b, lang) {
                Ok(m) => use_mn(&m, r),
                Err(e) => use_err(&e, r),
            })
        }
        3 => {
            let n = any_u(r) as usize;
            go("MnemonicType::for_word_count", 8, &mut |r| match MnemonicType::for_word_count(n) {
                Ok(t) => drop(flags(&t, r.idx(20)) + t.word_count() + t.entropy_bits() + t.checksum_bits() as usize + t.total_bits()),
                Err(e) => use_err(&e, r),
            });
            go("MnemonicType::for_key_size", 8, &mut |r| {
                if let Err(e) = MnemonicType::for_key_size(n) {
                    use_err(&e, r)
                }
            })
        }
        4 => {
            let t = any_text(r);
            go("MnemonicType::for_phrase", t.len(), &mut |r| {
                if let Err(e) = MnemonicType::for_phrase(&t) {
                    use_err(&e, r)
                }
            })
        }
        5 => {
            let t = any_text(r);
            go("Language::from_phrase", t.len(), &mut |_| drop(Language::from_phrase(&t)));
            go("Language::from_language_code", t.len(), &mut |_| drop(Language::from_language_code(&t)))
        }
        6 => {
            let t = if r.chance(1, 2) { any_text(r) } else { lists()[r.idx(2)].words[r.idx(2048)].chars().take(r.idx(9)).collect() };
            go("get_words_by_prefix", t.len(), &mut |_| drop(lang.wordlist().get_words_by_prefix(&t).len()));
            go("get_bits", t.len(), &mut |_| drop(lang.wordmap().get_bits(&t).map(u16::from)))
        }
        7 => {
            let i = r.below(2048) as u16;
            go("get_word", 2, &mut |_| drop(lang.wordlist().get_word(i.into()).len()))
        }
        8 => {
            let e = gen::entropy(r);
            let t = any_text(r);
            go("Seed::new", t.len(), &mut |r| {
                let m = Mnemonic::from_entropy(&e, lang).unwrap();
                let s = Seed::new(&m, &t);
                let _ = hexes(&s, r.idx(100));
                let _ = (s.as_bytes().len(), s.clone());
            })
        }
        9 => {
            let n = if r.chance(1, 2) { *r.pick(&[16usize, 32, 64, 128]) } else { size(r) };
            let b = gen::block(r, n);
            go("XPrv::new", n, &mut |r| match k::XPrv::new(&b) {
                Ok(x) => use_prv(&x, r),
                Err(e) => drop(flags(&e, r.idx(20))),
            })
        }
        10 => {
            let n = r.range(0, 400);
            let q: Vec<u32> = gen::steps(r, n);
            let b = gen::block(r, 32);
            go("XPrv::new_from_path", 4 * n + 32, &mut |_| drop(k::XPrv::new_from_path(&b, &gen::lib_path(&q))))
        }
        11 => {
            let x = gen::prv(r, 255);
            let c = r.u32();
            go("XPrv::derive_child", 4, &mut |r| {
                if let Ok(y) = gen::lib_prv(&x) {
                    use_prv(&y, r);
                    let _ = y.derive_child(k::ChildNumber(c));
                }
            })
        }
        12 => {
            let x = gen::prv(r, 255);
            let n = r.range(0, 300);
            let q: Vec<u32> = (0..n).map(|_| gen::index31(r) | if r.chance(1, 100) { 1 << 31 } else { 0 }).collect();
            go("derive_from_path", 4 * n, &mut |_| {
                if let Ok(y) = gen::lib_prv(&x) {
                    let p = gen::lib_path(&q);
                    let _ = y.public_key().derive_from_path(&p);
                    if q.len() < 40 || x.a.depth > 200 {
                        let _ = y.derive_from_path(&p);
                    }
                }
            })
        }
        13 => {
            let t = any_text(r);
            go("XPrv from text", t.len(), &mut |r| match t.parse::<k::XPrv>() {
                Ok(x) => use_prv(&x, r),
                Err(e) => drop(flags(&e, r.idx(20))),
            })
        }
        14 => {
            let t = any_text(r);
            go("XPub from text", t.len(), &mut |r| match t.parse::<k::XPub>() {
                Ok(x) => use_pub(&x, r),
                Err(e) => drop(flags(&e, r.idx(20))),
            })
        }
        15 => {
            let t = any_text(r);
            go("ExtendedKey from text", t.len(), &mut |r| {
                if let Ok(x) = t.parse::<k::ExtendedKey>() {
                    let _ = write!(Stingy(r.idx(120)), "{x}");
                    let _ = (x.to_string(), format!("{:>200}", x.clone()), format!("{:?}{:#?}", x.prefix, x.attrs));
                    let _ = k::XPrv::try_from(x.clone());
                    let _ = k::XPub::try_from(x);
                }
            })
        }
        16 => {
            // an extended key object with arbitrary parts
            let mut kb: [u8; 33] = r.arr();
            match r.below(6) {
                0 => kb[0] = 0,
                1 => kb = [0; 33],
                2 => kb = [0xff; 33],
                3 => kb[0] = 2 + r.below(2) as u8,
                4 => kb[1..].fill(*r.pick(&[0u8, 0xff])),
                _ => (),
            }
            let (p, a) = (any_prefix(r), any_attrs(r));
            go("ExtendedKey object", 78, &mut |r| {
                let e = k::ExtendedKey { prefix: p, attrs: a.clone(), key_bytes: kb };
                let _ = flags(&p, r.idx(40));
                let mut buf = [0u8; k::ExtendedKey::MAX_BASE58_SIZE];
                let t = e.write_base58(&mut buf).map(|s| s.to_string());
                let s = e.to_string();
                let _ = (t, s.parse::<k::ExtendedKey>().is_ok());
                if let Ok(x) = k::XPrv::try_from(e.clone()) {
                    use_prv(&x, r)
                }
                if let Ok(x) = k::XPub::try_from(e) {
                    use_pub(&x, r)
                }
            })
        }
        17 => {
            let t = any_text(r);
            go("DerivationPath from text", t.len(), &mut |r| match t.parse::<k::DerivationPath>() {
                Ok(p) => {
                    let _ = write!(Stingy(r.idx(60)), "{p}");
                    let _ = (p.to_string(), p.len(), p.is_empty(), p.parent(), p.iter().count(), p.as_ref().len(), format!("{p:?}"));
                    let mut c = p.clone();
                    c.push(k::ChildNumber(r.u32()));
                    c.extend(p.iter());
                    let _ = (c == p, p.into_iter().count());
                }
                Err(e) => drop(flags(&e, r.idx(20))),
            })
        }
        18 => {
            let t = any_text(r);
            go("ChildNumber from text", t.len(), &mut |r| match t.parse::<k::ChildNumber>() {
                Ok(c) => drop(flags(&c, r.idx(20))),
                Err(e) => drop(flags(&e, r.idx(20))),
            })
        }
        19 => {
            let (n, hard) = (any_u(r) as u32, r.chance(1, 2));
            go("ChildNumber", 4, &mut |r| {
                let _ = k::ChildNumber::new(n, hard);
                let c = k::ChildNumber::from_bytes(n.to_be_bytes());
                let _ = (flags(&c, r.idx(20)), c.index(), c.is_hardened(), c.to_bytes(), u32::from(c), k::ChildNumber::from(n));
            })
        }
        20 => {
            let v = if r.chance(1, 4) { gen::VERSIONS[r.idx(8)].1 ^ (1 << r.below(32)) } else { any_u(r) as u32 };
            let n = r.range(0, 9);
            let b = r.bytes(n);
            go("Prefix", 4, &mut |r| {
                for p in [k::Prefix::try_from(v), k::Prefix::from_bytes(v.to_be_bytes()), k::Prefix::try_from(&b[..])] {
                    if let Ok(p) = p {
                        let _ = (flags(&p, r.idx(40)), p.is_public(), p.is_private(), p.version(), p.to_bytes(), p.as_str().len());
                    }
                }
            })
        }
        21 => {
            let sk = gen::sk(r);
            let n = if r.chance(2, 3) { 32 } else { size(r) };
            let m = gen::block(r, n);
            go("ecdsa_sign", n, &mut |r| {
                let sk = libsecp256k1::SecretKey::parse(&sk).unwrap();
                match kms::ecdsa_sign(&sk, &m) {
                    Ok(_) => (),
                    Err(e) => drop(flags(&e, r.idx(20))),
                }
            })
        }
        22 => {
            let n = size(r);
            let m = gen::block(r, n);
            go("ripemd", n, &mut |_| drop(kms::crypto::ripemd(&m)))
        }
        23 => {
            let (sk, b, t) = (gen::sk(r), gen::cc(r), gen::cc(r));
            let mut pb: [u8; 33] = r.arr();
            if r.chance(1, 2) {
                pb[0] = 2 + r.below(2) as u8;
            }
            if r.chance(1, 3) {
                pb[1..].copy_from_slice(&b);
            }
            let neg = secp::to_be(&secp::nneg(&secp::from_be(&sk)));
            let t = *r.pick(&[t, neg, [0; 32], [0xff; 32], secp::to_be(&secp::N), sk]);
            go("key type", 97, &mut |_| {
                let k0: libsecp256k1::SecretKey = PrivateKey::from_bytes(&sk).unwrap();
                let p0 = PrivateKey::public_key(&k0);
                let _ = <libsecp256k1::SecretKey as PrivateKey>::from_bytes(&b).map(|x| PrivateKey::to_bytes(&x));
                let _ = PrivateKey::derive_child(&k0, t).map(|x| PrivateKey::to_bytes(&x));
                let _ = PublicKey::derive_child(&p0, t).map(|x| PublicKey::to_bytes(&x));
                if let Ok(p) = <libsecp256k1::PublicKey as PublicKey>::from_bytes(pb) {
                    let _ = (PublicKey::to_bytes(&p), PublicKey::fingerprint(&p));
                    let _ = PublicKey::derive_child(&p, t).map(|x| PublicKey::to_bytes(&x));
                }
            })
        }
        24 => {
            let l = *r.pick(&[MnemonicType::Words12, MnemonicType::Words15, MnemonicType::Words18, MnemonicType::Words21, MnemonicType::Words24]);
            go("Mnemonic::new", 1, &mut |r| use_mn(&Mnemonic::new(l, lang), r))
        }
        _ => {
            let n = size(r).min(60_000);
            let q: Vec<u32> = (0..n).map(|_| r.u32()).collect();
            go("DerivationPath", 4 * n, &mut |_| {
                let p: k::DerivationPath = gen::lib_path(&q);
                let s = p.to_string();
                let back = s.parse::<k::DerivationPath>();
                let _ = (back.is_ok(), p.parent().map(|x| x.len()));
            })
        }
    }
}

/// Megabytes: what takes time out of proportion to its input shows up as a hang (see `mon::watchdog`).
pub const LONGS: u64 = 16;
fn long_text(r: &mut Rng, kind: u64, n: usize) -> String {
    let mut s = String::with_capacity(n + 40);
    let l = r.idx(2);
    let word = |r: &mut Rng, i: usize| match kind {
        0 => format!("w{i} "),                                                // words all different
        1 => format!("{} ", lists()[l].words[r.idx(2048)]),                   // words of the list
        2 => format!("{}\u{3000}", lists()[l].words[i % 2048]),
        3 => format!("{} ", lists()[1 - l].words[r.idx(2048)]),               // and of the other
        4 => "abandon ".to_string(),
        5 => (*r.pick(&gen::WS)).to_string(),
        6 => "\u{301}".to_string(),                                           // one endless character
        7 => (*r.pick(&['\u{301}', '\u{323}', '\u{316}', '\u{5b0}'])).to_string(),
        8 => gen::any_char(r).to_string(),
        9 => format!("/{}", r.below(1 << 31)),                                // a path
        10 => format!("/{}'", i & 0x7fff_ffff),
        11 => "/0".to_string(),
        12 => r.below(10).to_string()    ,                // a number
        13 => "1".to_string(),
        14 => (*r.pick(&['1', 'z', '2', 'A', 'x'])).to_string(),               // Base58
        _ => "/".to_string(),
    };
    s.push_str(match kind {
        9..=11 => "m",
        12 => "m/",
        14 => "xprv",
        _ => "",
    });
    let mut i = 0;
    while s.len() < n {
        s.push_str(&word(r, i));
        i += 1;
    }
    s
}
fn long(m: &mut Mon, r: &mut Rng, i: u64) -> Result<(), String> {
    let lang = lists()[r.idx(2)].lang;
    let n = r.range(2 << 20, 8 << 20);
    let t = long_text(r, i % LONGS, n);
    let b = t.as_bytes();
    let phrase = Mnemonic::from_entropy(&r.bytes(16), lang).unwrap();
    let mut ops: Vec<(&str, Box<dyn FnMut() + '_>)> = vec![
        ("Mnemonic::from_phrase", Box::new(|| drop(Mnemonic::from_phrase(&t, lang)))),
        ("Mnemonic::validate", Box::new(|| drop(Mnemonic::validate(&t, lang)))),
        ("Mnemonic::from_entropy", Box::new(|| drop(Mnemonic::from_entropy(b, lang)))),
        ("MnemonicType::for_phrase", Box::new(|| drop(MnemonicType::for_phrase(&t)))),
        ("Language::from_phrase", Box::new(|| drop(Language::from_phrase(&t)))),
        ("Language::from_language_code", Box::new(|| drop(Language::from_language_code(&t)))),
        ("get_words_by_prefix", Box::new(|| drop(lang.wordlist().get_words_by_prefix(&t).len()))),
        ("get_bits", Box::new(|| drop(lang.wordmap().get_bits(&t).is_ok()))),
        ("Seed::new", Box::new(|| drop(Seed::new(&phrase, &t)))),
        ("XPrv::new", Box::new(|| drop(k::XPrv::new(&t)))),
        ("XPrv from text", Box::new(|| drop(t.parse::<k::XPrv>()))),
        ("XPub from text", Box::new(|| drop(t.parse::<k::XPub>()))),
        ("ExtendedKey from text", Box::new(|| drop(t.parse::<k::ExtendedKey>()))),
        ("ChildNumber from text", Box::new(|| drop(t.parse::<k::ChildNumber>()))),
        ("Prefix from bytes", Box::new(|| drop(k::Prefix::try_from(b)))),
        ("ripemd", Box::new(|| drop(kms::crypto::ripemd(b)))),
        ("DerivationPath from text", Box::new(|| {
            if let Ok(p) = t.parse::<k::DerivationPath>() {
                let mut q = p.clone();
                q.extend(p.iter());
                q.push(k::ChildNumber(7));
                let _ = (q == p, p.parent().map(|x| x.len()), p.to_string().len());
                let _ = k::XPrv::new(b).and_then(|x| x.derive_from_path(&p)).is_ok();
            }
        })),
    ];
    for (name, f) in ops.iter_mut() {
        let (res, held, _) = alloc::measured(|| lib(|| f()));
        m.eval();
        m.seen(format!("{name} {} {n}", i % LONGS).as_bytes());
        m.count("calls on inputs over 1 MB");
        m.max("bytes held per input byte, inputs over 1 MB", held / t.len() as u64);
        if let Err(e) = res {
            return Err(format!("{name} of {} bytes, text kind {}: {e}", t.len(), i % LONGS));
        }
        ensure!(held <= allowance(t.len()), "{name}: held {held} bytes for an input of {}", t.len());
    }
    Ok(())
}

pub fn c16(env: &'static Env) {
    env.rule("Every public operation and everything that can be done with its result (all renderings with odd format flags, a writer that fails half way, re-parsing, derivation), on boundary-biased and large inputs up to 250 kB, and sixteen kinds of text of 2 to 8 MB, with overflow checks and debug assertions on and again under AddressSanitizer. Non-trivial: a distinct (operation, input) that ran to a result inside the memory allowance (1 MiB + 256 bytes per input byte).");
    env.assume("AddressSanitizer does not instrument the assembly-free dependencies' inline intrinsics beyond normal code; hangs are calls using more than 60 s of CPU");
    // first use initialises the word tables: not part of any call's allowance
    let mut warm = Rng::new(1, "warm", 0);
    for kind in 0..OPS {
        op(&mut warm, kind, &mut |_, _, f| {
            let mut r = Rng::new(2, "warm", 0);
            let _ = lib(|| f(&mut r));
        });
    }
    let scale = if env.variant == "asan" { 4 } else { 1 };
    env.phase("hostile", env.n(130_000, 6_000_000) / scale, |m: &mut Mon, r, i| {
        let before = r.u64();
        let mut bad = None;
        op(r, i % OPS, &mut |name, len, f| {
            let mut inner = Rng::new(before, "hostile-use", i);
            let (res, held, calls) = alloc::measured(|| lib(|| f(&mut inner)));
            m.eval();
            m.seen(format!("{name} {before:x}").as_bytes());
            m.count(name);
            m.max("bytes held by one call", held);
            m.max("allocations in one call", calls);
            m.max("input bytes", len as u64);
            if len >= 2000 {
                m.max("bytes held per input byte, inputs over 2 kB", held / len as u64);
            }
            if let Err(e) = res {
                bad = Some(format!("{name}: {e}"));
            } else if held > allowance(len) {
                bad = Some(format!("{name}: held {held} bytes for an input of {len}"));
            }
        });
        if i % OPS == 0 {
            m.sample(|| format!("case {i}: operation {} with seed {before:x}", i % OPS));
        }
        ensure!(bad.is_none(), "{}", bad.unwrap());
        Ok(())
    });
    env.phase("long", env.n(64, 1600) / scale, long);
}

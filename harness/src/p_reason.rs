//! C26: the reason a refusal gives is true of the input refused.
use crate::gen;
use crate::mon::{lib, Env, Mon, R};
use crate::oracle::bip32 as o;
use crate::oracle::bip39::{self as o39, lists, Verdict, SIZES};
use crate::oracle::{b58, hex};
use crate::gen::{lib_path, lib_prv, lib_pub};
use crate::p_bip32::{child_text, random_payload};
use crate::p_bip39::{fault_ok, valid_words};
use crate::{ensure, ensure_eq};
use kms::bip32::{ChildNumber, DerivationPath, Error, ExtendedKey, Prefix, XPrv, XPub};
use kms::bip39::{ErrorKind, Mnemonic, MnemonicType};
use std::str::FromStr;

fn kind(e: &anyhow::Error) -> Option<&ErrorKind> {
    e.downcast_ref::<ErrorKind>().or_else(|| e.chain().find_map(|c| c.downcast_ref::<ErrorKind>()))
}

/// What a reason shows of itself, and that different reasons read differently.
fn shown(m: &mut Mon, e: &ErrorKind) -> R {
    let t = lib(|| e.to_string())?;
    m.eval();
    let (word, n) = match e {
        ErrorKind::InvalidChecksum => ("checksum", None),
        ErrorKind::InvalidWord => ("word", None),
        ErrorKind::InvalidKeysize(n) => ("keysize", Some(*n)),
        ErrorKind::InvalidWordLength(n) => ("number of words", Some(*n)),
        ErrorKind::InvalidEntropyLength(n, _) => ("entropy", Some(*n)),
    };
    ensure!(t.contains(word), "{e:?} reads {t:?}");
    if let Some(n) = n {
        let nums: Vec<String> = t.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).map(str::to_string).collect();
        ensure!(nums.contains(&n.to_string()), "{e:?} reads {t:?}");
    }
    Ok(())
}
fn shown32(m: &mut Mon, e: Error) -> R {
    let t = lib(|| e.to_string())?.to_lowercase();
    m.eval();
    let word = match e {
        Error::Base58 => "base58",
        Error::Bip39 => "bip39",
        Error::ChildNumber => "child",
        Error::Crypto => "crypt",
        Error::Decode => "decod",
        Error::Depth => "depth",
        Error::SeedLength => "seed",
        _ => return Ok(()),
    };
    ensure!(t.contains(word), "{e:?} reads {t:?}");
    Ok(())
}
fn judge(m: &mut Mon, what: impl Fn() -> String, got: Error, allowed: &[Error]) -> R {
    m.eval();
    m.count(&format!("refused: {got:?}"));
    ensure!(allowed.contains(&got), "{}: the reason given is {got:?}, but only {allowed:?} is true of it", what());
    shown32(m, got)
}

/// The phrase as it would be if the reason were taken away.
fn phrase(m: &mut Mon, t: &str, l: usize) -> R {
    let show = || t.chars().take(300).collect::<String>();
    m.seen(t.as_bytes());
    m.sample(show);
    let Verdict::Bad { unknown_word, words, wrong_count, checksum } = o39::parse(t, l) else { return Ok(()) };
    let lang = lists()[l].lang;
    let (a, b) = (lib(|| Mnemonic::from_phrase(t, lang))?.err(), lib(|| Mnemonic::validate(t, lang))?.err());
    for (who, e) in [("from_phrase", a), ("validate", b)] {
        m.eval();
        let Some(e) = e else { continue }; // C02's business
        ensure!(
            fault_ok(&e, words, unknown_word, wrong_count, checksum),
            "{who} of {:?} ({}) gives the reason {e:?}; unknown word: {unknown_word}, words: {words}, wrong count: {wrong_count}, wrong checksum: {checksum}",
            show(),
            lists()[l].name
        );
        if let Some(k) = kind(&e) {
            shown(m, k)?;
            // the wrapped error says the same as what it wraps
            let (x, y) = (lib(|| e.to_string())?, lib(|| k.to_string())?);
            ensure!(lib(|| format!("{e:#}"))?.contains(&y), "{x:?} hides {y:?}");
        }
        m.count(if unknown_word && wrong_count { "two faults" } else if unknown_word { "unknown word" } else if wrong_count { "wrong count" } else { "wrong checksum" });
    }
    if let Some(e) = lib(|| MnemonicType::for_phrase(t))?.err() {
        m.eval();
        ensure!(words == 0 || matches!(kind(&e), Some(ErrorKind::InvalidWordLength(n)) if *n == words), "for_phrase of {words} words {:?} gives the reason {e:?}", show());
    }
    Ok(())
}

/// Every reason that is true of a text offered as an extended key.
fn import_faults(t: &str) -> (Vec<Error>, Vec<Error>) {
    let Some(d) = b58::check_decode(t) else {
        return (vec![Error::Base58], vec![Error::Base58]);
    };
    let mut f = vec![];
    if d.len() != 78 {
        f.push(Error::Decode);
        if d.len() > 78 {
            f.push(Error::Base58); // longer than any extended key's text
        }
        return (f.clone(), f);
    }
    if !t.bytes().take(4).all(|b| b.is_ascii_alphabetic()) {
        f.push(Error::Decode);
    }
    if d[4] == 0 && d[5..13] != [0; 8] {
        f.push(Error::Decode);
    }
    let w = o::Parsed {
        version: 0,
        letters: t[..4].into(),
        a: o::Attrs { depth: d[4], fp: [0; 4], child: 0, cc: [0; 32] },
        key: d[45..].try_into().unwrap(),
    };
    let (mut a, mut b) = (f.clone(), f);
    if !w.prv_ok() {
        a.push(Error::Crypto);
    }
    if !w.pub_ok() {
        b.push(Error::Crypto);
    }
    (a, b)
}
fn import(m: &mut Mon, t: &str) -> R {
    let (a, b) = import_faults(t);
    m.seen(t.as_bytes());
    m.sample(|| t.chars().take(300).collect());
    let std = gen::VERSIONS.iter().any(|v| t.starts_with(v.0));
    if let Err(e) = lib(|| XPrv::from_str(t))? {
        if !a.is_empty() || std {
            judge(m, || format!("{t:?} as a private key"), e, &a)?;
        }
    }
    if let Err(e) = lib(|| XPub::from_str(t))? {
        if !b.is_empty() || std {
            judge(m, || format!("{t:?} as a public key"), e, &b)?;
        }
    }
    if let Err(e) = lib(|| ExtendedKey::from_str(t).map(|_| ()))? {
        let c: Vec<Error> = a.iter().copied().filter(|e| *e != Error::Crypto).collect();
        if !c.is_empty() || std {
            judge(m, || format!("{t:?} as a container"), e, &c)?;
        }
    }
    Ok(())
}

pub fn c26(env: &'static Env) {
    env.rule("Inputs with one fault, with several faults at once and with none that the reason could name: phrases (unknown words, wrong counts, wrong checksums in every combination), entropies and sizes of every wrong length, seeds of every wrong length, keys at the last depth, hardened steps from public keys, child numbers and paths out of the grammar, extended-key texts with a fault in each layer, digests of wrong length. The reason reported is looked up among the faults the reference finds. Non-trivial: a distinct refused input.");
    let join = |w: &[usize], l: usize| w.iter().map(|i| lists()[l].words[*i]).collect::<Vec<_>>().join(" ");
    env.phase("phrases", env.n(80_000, 2_000_000), |m, r, _| {
        let l = r.idx(2);
        let size = *r.pick(&SIZES);
        let mut idx = valid_words(r, l, size);
        if r.chance(1, 3) {
            let i = r.idx(idx.len());
            idx[i] = r.idx(2048);
        }
        match r.below(5) {
            0 => {
                let n = r.range(1, 40);
                idx.truncate(n);
            }
            1 => {
                let k = r.range(1, 30);
                for _ in 0..k {
                    idx.push(r.idx(2048));
                }
            }
            _ => {}
        }
        let mut w: Vec<String> = idx.iter().map(|i| lists()[l].words[*i].to_string()).collect();
        if r.chance(1, 3) {
            for _ in 0..r.range(1, 3) {
                let i = r.idx(w.len());
                w[i] = match r.below(6) {
                    0 => gen::mutate_text(r, &w[i], &['a', 'e', 's']),
                    1 => w[i].to_uppercase(),
                    2 => lists()[1 - l].words[r.idx(2048)].into(),
                    3 => r.below(2048).to_string(),
                    4 => format!("{}\u{200b}", w[i]),
                    _ => gen::text(r, 5),
                };
            }
        }
        let sep = if r.chance(1, 5) { *r.pick(&gen::WS) } else { " " };
        phrase(m, &w.join(sep), l)
    });
    // the last word in every wrong way, the count right
    env.phase("checksums", 2 * 5 * env.n(6, 100), |m, r, i| {
        let l = (i % 2) as usize;
        let mut idx = valid_words(r, l, SIZES[(i / 2 % 5) as usize]);
        let n = idx.len();
        for w in (0..2048).step_by(7) {
            idx[n - 1] = w;
            phrase(m, &join(&idx, l), l)?;
        }
        Ok(())
    });
    env.phase("counts", 2 * 200, |m, r, i| {
        let (l, n) = ((i % 2) as usize, (i / 2) as usize);
        // all known, all unknown, some unknown
        let w: Vec<usize> = (0..n).map(|_| r.idx(2048)).collect();
        phrase(m, &join(&w, l), l)?;
        phrase(m, &vec!["nowordofany"; n].join(" "), l)?;
        phrase(m, &join(&w, 1 - l), l)
    });
    env.phase("sizes", env.n(6_000, 60_000), |m, r, i| {
        let n = match i {
            0..=4999 => i as usize,
            _ => match r.below(4) {
                0 => (1usize << r.below(64)).wrapping_add(*r.pick(&[0, 1, 12, 15, 24, 128, 160, 256])),
                1 => r.u64() as usize,
                2 => usize::MAX - r.range(0, 300),
                _ => r.range(0, 100_000),
            },
        };
        m.seen(&n.to_le_bytes());
        m.sample(|| format!("size {n}"));
        if let Err(e) = lib(|| MnemonicType::for_word_count(n))? {
            m.eval();
            ensure!(matches!(kind(&e), Some(ErrorKind::InvalidWordLength(x)) if *x == n), "for_word_count({n}) gives the reason {e:?}");
            shown(m, kind(&e).unwrap())?;
        }
        if let Err(e) = lib(|| MnemonicType::for_key_size(n))? {
            m.eval();
            ensure!(matches!(kind(&e), Some(ErrorKind::InvalidKeysize(x)) if *x == n), "for_key_size({n}) gives the reason {e:?}");
            shown(m, kind(&e).unwrap())?;
        }
        if n < 5000 {
            let b = gen::block(r, n);
            for l in lists() {
                if let Err(e) = lib(|| Mnemonic::from_entropy(&b, l.lang))? {
                    m.eval();
                    ensure!(
                        matches!(kind(&e), Some(ErrorKind::InvalidKeysize(x)) | Some(ErrorKind::InvalidEntropyLength(x, _)) if *x == n * 8),
                        "from_entropy of {n} bytes gives the reason {e:?}"
                    );
                    shown(m, kind(&e).unwrap())?;
                }
            }
            let w = lib(|| lists()[0].lang.wordmap().get_bits(&n.to_string()).err())?;
            ensure!(matches!(w, Some(ErrorKind::InvalidWord)), "looking {n} up gives the reason {w:?}");
            if let Err(e) = lib(|| XPrv::new(&b).map(|_| ()))? {
                judge(m, || format!("a seed of {n} bytes"), e, if [16, 32, 64, 128].contains(&n) { &[Error::Crypto] } else { &[Error::SeedLength] })?;
            }
            let p = lib_path(&(0..r.below(4)).map(|_| gen::child(r)).collect::<Vec<_>>());
            if ![16, 32, 64, 128].contains(&n) {
                let e = lib(|| XPrv::new_from_path(&b, &p).err())?;
                if let Some(e) = e {
                    judge(m, || format!("a seed of {n} bytes with a path"), e, &[Error::SeedLength])?;
                }
            }
        }
        Ok(())
    });
    env.phase("types", 12, |m, r, i| {
        // reasons the library has but seldom gives
        let n = r.u64() as usize;
        for e in [ErrorKind::InvalidChecksum, ErrorKind::InvalidWord, ErrorKind::InvalidKeysize(n), ErrorKind::InvalidWordLength(n), ErrorKind::InvalidEntropyLength(n, MnemonicType::Words18)] {
            shown(m, &e)?;
        }
        let all = [Error::Base58, Error::Bip39, Error::ChildNumber, Error::Crypto, Error::Decode, Error::Depth, Error::SeedLength];
        let mut t = vec![];
        for e in all {
            shown32(m, e)?;
            t.push(lib(|| e.to_string())?);
        }
        m.seen(&i.to_le_bytes());
        t.sort();
        t.dedup();
        ensure_eq!(t.len(), all.len(), "different reasons read the same");
        Ok(())
    });
    env.phase("steps", env.n(30_000, 600_000), |m, r, _| {
        let mut p = gen::prv(r, 255);
        if r.chance(1, 2) {
            p.a.depth = 255;
        }
        let c = gen::child(r);
        let hard = c >> 31 == 1;
        m.seen(&[&p.k[..], &c.to_le_bytes(), &[p.a.depth]].concat());
        let x = lib(|| lib_prv(&p))?.map_err(|e| format!("{p:x?} refused: {e:?}"))?;
        let q = lib(|| lib_pub(&p.to_pub()))?.map_err(|e| format!("public {p:x?} refused: {e:?}"))?;
        let deep = p.a.depth == 255;
        let mut priv_ok = vec![];
        let mut pub_ok = vec![];
        if deep {
            priv_ok.push(Error::Depth);
            pub_ok.push(Error::Depth);
        }
        if hard {
            pub_ok.push(Error::ChildNumber);
        }
        // (a child key that does not exist is Crypto's: C22)
        if let Err(e) = lib(|| x.derive_child(ChildNumber(c)).map(|_| ()))? {
            judge(m, || format!("child {c:#x} of a private key at depth {}", p.a.depth), e, &priv_ok)?;
        }
        if let Err(e) = lib(|| q.derive_child(ChildNumber(c)).map(|_| ()))? {
            judge(m, || format!("child {c:#x} of a public key at depth {}", p.a.depth), e, &pub_ok)?;
        }
        // along a path: true of the first step that cannot be taken
        let path: Vec<u32> = (0..r.range(0, 6)).map(|_| gen::child(r)).collect();
        let lp = lib_path(&path);
        let room = 255 - p.a.depth as usize;
        if let Err(e) = lib(|| x.clone().derive_from_path(&lp).map(|_| ()))? {
            judge(m, || format!("path {} from a private key at depth {}", o::show_path(&path), p.a.depth), e, if path.len() > room { &[Error::Depth] } else { &[] })?;
        }
        let first_hard = path.iter().position(|c| c >> 31 == 1).unwrap_or(usize::MAX);
        let mut ok = vec![];
        if first_hard < path.len() && first_hard <= room {
            ok.push(Error::ChildNumber);
        }
        if path.len() > room && room <= first_hard {
            ok.push(Error::Depth);
        }
        if let Err(e) = lib(|| q.clone().derive_from_path(&lp).map(|_| ()))? {
            judge(m, || format!("path {} from a public key at depth {}", o::show_path(&path), p.a.depth), e, &ok)?;
        }
        Ok(())
    });
    env.phase("texts", env.n(150_000, 3_000_000), |m, r, _| {
        let t = child_text(r);
        m.seen(t.as_bytes());
        if let Err(e) = lib(|| ChildNumber::from_str(&t).map(|_| ()))? {
            judge(m, || format!("child number {t:?}"), e, &[Error::ChildNumber])?;
        }
        let v = gen::child(r);
        if let Err(e) = lib(|| ChildNumber::new(v, r.chance(1, 2)).map(|_| ()))? {
            judge(m, || format!("child number {v:#x}"), e, if v >> 31 == 1 { &[Error::ChildNumber] } else { &[] })?;
        }
        // a path: no "m" in front, a wrong component, or both
        let mut parts = vec![if r.chance(1, 4) { r.pick(&["M", "", "n", " m", "m ", "x", "0", "44'"]).to_string() } else { "m".to_string() }];
        for _ in 0..r.below(6) {
            parts.push(if r.chance(1, 4) { child_text(r) } else { o::show_child(gen::child(r)) });
        }
        let p = parts.join("/");
        let c: Vec<&str> = p.split('/').collect();
        let mut ok = vec![];
        if c[0] != "m" {
            ok.push(Error::Decode);
        }
        if c[1..].iter().any(|c| o::parse_child(c).is_none()) {
            ok.push(Error::ChildNumber);
        }
        if let Err(e) = lib(|| DerivationPath::from_str(&p).map(|_| ()))? {
            judge(m, || format!("path {p:?}"), e, &ok)?;
        }
        Ok(())
    });
    env.phase("imports", env.n(60_000, 1_200_000), |m, r, _| {
        let p = random_payload(r);
        let mut q = p.clone();
        for _ in 0..r.range(1, 2) {
            match r.below(9) {
                // a fault in each layer
                0 => {
                    let n = r.range(0, 120);
                    q.resize(n, 7);
                }
                1 if q.len() >= 78 => {
                    q[4] = 0;
                    let b: [u8; 8] = r.arr();
                    q[5..13].copy_from_slice(&b);
                }
                2 if q.len() >= 78 => q[45] = r.u32() as u8,
                3 if q.len() >= 78 => {
                    let b = gen::block(r, 33);
                    q[45..78].copy_from_slice(&b);
                }
                4 if q.len() >= 78 => {
                    let v: [u8; 4] = r.arr();
                    q[..4].copy_from_slice(&v);
                }
                5 if q.len() >= 78 => {
                    // the other kind's version
                    let v = gen::VERSIONS[r.idx(8)].1;
                    q[..4].copy_from_slice(&v.to_be_bytes());
                }
                6 if q.len() >= 78 => q[45..78].fill(if r.chance(1, 2) { 0 } else { 255 }),
                _ => {}
            }
        }
        import(m, &b58::check_encode(&q))?;
        let t = b58::check_encode(&p);
        let s = match r.below(7) {
            0 => gen::mutate_text(r, &t, &['1', 'z', '0', 'I', ' ']),
            1 => gen::text(r, 12),
            2 => hex(&p),
            3 => String::new(),
            4 => t[..r.range(0, t.len())].to_string(),
            5 => format!("{t}{t}"),
            _ => b58::encode(&q),
        };
        import(m, &s)
    });
    env.phase("prefixes", env.n(40_000, 800_000), |m, r, i| {
        let v = if i < 8 { gen::VERSIONS[i as usize].1 } else { r.u32() };
        m.seen(&v.to_le_bytes());
        let mut p = vec![0u8; 78];
        p[..4].copy_from_slice(&v.to_be_bytes());
        let bad = !b58::check_encode(&p).bytes().take(4).all(|b| b.is_ascii_alphabetic());
        if let Err(e) = lib(|| Prefix::try_from(v).map(|_| ()))? {
            judge(m, || format!("version {v:#x}"), e, if bad { &[Error::Decode] } else { &[] })?;
        }
        let n = r.range(0, 9);
        let b = r.bytes(n);
        if n != 4 {
            if let Err(e) = lib(|| Prefix::try_from(&b[..]).map(|_| ()))? {
                judge(m, || format!("a version of {n} bytes"), e, &[Error::Decode])?;
            }
        }
        Ok(())
    });
    env.phase("digests", env.n(2_000, 20_000), |m, r, i| {
        let n = if i < 300 { i as usize } else { r.range(0, 5000) };
        if n == 32 {
            return Ok(());
        }
        let sk = crate::p_ecdsa::ls_sk(&gen::sk(r))?;
        let d = r.bytes(n);
        m.eval();
        m.seen(&d);
        if let Some(e) = lib(|| kms::ecdsa_sign(&sk, &d).err())? {
            // the signer's own reason is kept as the source
            let s = std::error::Error::source(&e).and_then(|s| s.downcast_ref::<libsecp256k1::Error>()).copied();
            ensure!(
                matches!(s, Some(libsecp256k1::Error::InvalidInputLength) | Some(libsecp256k1::Error::InvalidMessage)),
                "signing a digest of {n} bytes gives the reason {e:?} (source {s:?})"
            );
            ensure!(lib(|| e.to_string())?.to_lowercase().contains("secp256k1"), "{e:?} reads {:?}", e.to_string());
        }
        Ok(())
    });
}

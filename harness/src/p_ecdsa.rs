//! C18, C19.
use crate::gen;
use crate::mon::{lib, short, Env, R};
use crate::oracle::{bip32 as o, hash, hex, secp};
use crate::p_bip32::{rare_keys, rare_phase};
use crate::rng::Rng;
use crate::{ensure, ensure_eq};
use kms::bip32::{PrivateKey, PublicKey, XPrv, XPub};
use libsecp256k1 as ls;

pub fn digest(r: &mut Rng) -> [u8; 32] {
    let mut d = [0u8; 32];
    match r.below(10) {
        0 => {}
        1 => d = secp::to_be(&secp::N),
        2 => d = secp::to_be(&secp::add_carry(&secp::N, &[r.below(1000), r.below(2), 0, 0]).0),
        3 => d = secp::to_be(&secp::sub_borrow(&secp::N, &[r.below(1000), 0, 0, 0]).0),
        4 => d.fill(0xff),
        5 => d.copy_from_slice(&gen::block(r, 32)),
        _ => d = r.arr(),
    }
    d
}
pub fn ls_sk(k: &[u8; 32]) -> Result<ls::SecretKey, String> {
    ls::SecretKey::parse(k).map_err(|e| format!("key {} refused: {e:?}", hex(k)))
}
pub fn check_sig(k: &[u8; 32], sk: &ls::SecretKey, d: &[u8; 32]) -> R {
    let (sig, rec) = lib(|| kms::ecdsa_sign(sk, &gen::at(d)))?.map_err(|e| format!("signing {} under {} failed: {e}", hex(d), hex(k)))?;
    let (ws, wr) = secp::sign(k, d);
    let what = || format!("signature of {} under {}: {} recid {rec}", hex(d), hex(k), hex(&sig));
    ensure!(!secp::is_high(&secp::from_be(&sig[32..])), "{}: s is in the upper half", what());
    let pk = secp::pubkey(k).unwrap();
    ensure!(secp::verify(&pk, d, &sig), "{}: does not verify", what());
    ensure!(secp::recover(d, &sig, rec) == Some(pk), "{}: recovers {:?}, not {}", what(), secp::recover(d, &sig, rec).map(|p| hex(&p)), hex(&pk));
    ensure!(sig == ws && rec == wr, "{}: RFC 6979 gives {} recid {wr}", what(), hex(&ws));
    Ok(())
}

pub fn c18(env: &'static Env) {
    env.rule("Boundary-biased private keys and digests (0, around n, all ones, sparse), several digests per key, wrong message lengths 0..300. Non-trivial: a distinct (key, digest) whose signature was verified, recovered, checked for low s and compared with the reference RFC 6979 signature, or a distinct refused length.");
    env.assume("digests that are equal modulo the curve order count as the same message, as in ECDSA");
    crate::p_alike::c18(env);
    env.phase("signatures", env.n(20_000, 500_000), |m, r, _| {
        let k = gen::sk(r);
        let sk = ls_sk(&k)?;
        for _ in 0..2 {
            let d = digest(r);
            m.eval();
            m.seen(&[k, d].concat());
            m.sample(|| format!("key {} digest {}", hex(&k), hex(&d)));
            check_sig(&k, &sk, &d)?;
        }
        // the key as the wallet obtains it
        let p = gen::prv(r, 255);
        let x = lib(|| gen::lib_prv(&p))?.map_err(|e| format!("{p:x?} refused: {e:?}"))?;
        let d = digest(r);
        m.eval();
        m.seen(&[p.k, d].concat());
        check_sig(&p.k, x.private_key(), &d)
    });
    rare_phase(env, |m, r, x| {
        // r or s with runs of zero bytes, and uncommon keys
        if x.kind == "sig" {
            let (k, d) = (x.arr(0), x.arr(1));
            m.eval();
            m.seen(&[k, d].concat());
            check_sig(&k, &ls_sk(&k)?, &d)?;
        }
        for p in rare_keys(x, r)? {
            let d = digest(r);
            m.eval();
            m.seen(&[p.k, d].concat());
            check_sig(&p.k, &ls_sk(&p.k)?, &d)?;
        }
        Ok(())
    });
    env.phase("one-key", env.n(16, 200), |m, r, _| {
        // many digests under one key: no two nonces (r values) alike
        let k = gen::sk(r);
        let sk = ls_sk(&k)?;
        let mut seen = std::collections::HashMap::new();
        let base = digest(r);
        for i in 0..256 + 64 {
            let mut d = base;
            if i < 256 {
                d[i / 8] ^= 1 << (i % 8);
            } else {
                d = digest(r);
            }
            let (s, _) = lib(|| kms::ecdsa_sign(&sk, &d))?.map_err(|e| e.to_string())?;
            let (s2, _) = lib(|| kms::ecdsa_sign(&sk, &d))?.map_err(|e| e.to_string())?;
            m.eval();
            m.seen(&[k, d].concat());
            m.count("nonces compared");
            ensure!(s == s2, "two signatures of {} under {} differ", hex(&d), hex(&k));
            let z = secp::nreduce(&secp::from_be(&d));
            if let Some(o) = seen.insert(s[..32].to_vec(), z) {
                ensure!(o == z, "digests {} and {} under {} share a nonce", hex(&secp::to_be(&o)), hex(&d), hex(&k));
            }
        }
        Ok(())
    });
    env.phase("lengths", 330 * 4, |m, r, i| {
        let mut n = (i % 330) as usize;
        if n >= 300 {
            n = [32 + 256, 32 + 65536, 64, 96, 128, 31, 33, 1024][n % 8];
        }
        if n == 32 {
            return Ok(());
        }
        let sk = ls_sk(&gen::sk(r))?;
        let d = gen::block(r, n);
        m.eval();
        m.seen(&d);
        m.count("refused lengths");
        ensure!(lib(|| kms::ecdsa_sign(&sk, &d))?.is_err(), "a message of {n} bytes was signed");
        Ok(())
    });
}

pub fn check_key(m: &mut crate::mon::Mon, p: &o::Prv) -> R {
    let want = p.to_pub();
    let sk = lib(|| <ls::SecretKey as PrivateKey>::from_bytes(&p.k))?.map_err(|e| format!("key {} refused: {e:?}", hex(&p.k)))?;
    m.eval();
    m.seen(&o::raw(0, &p.a, &p.key_bytes()));
    m.sample(|| format!("{p:x?}"));
    ensure_eq!(lib(|| PrivateKey::to_bytes(&sk))?, p.k, "bytes of key {}", hex(&p.k));
    let pk = lib(|| PrivateKey::public_key(&sk))?;
    ensure!(lib(|| PublicKey::to_bytes(&pk))? == want.k, "public key of {}: {}, expected {}", hex(&p.k), hex(&PublicKey::to_bytes(&pk)), hex(&want.k));
    let fp = o::fingerprint(&want.k);
    ensure_eq!(lib(|| PublicKey::fingerprint(&pk))?, fp, "fingerprint of {}", hex(&want.k));
    let back = lib(|| <ls::PublicKey as PublicKey>::from_bytes(want.k))?.map_err(|e| format!("point {} refused: {e:?}", hex(&want.k)))?;
    ensure!(back == pk, "point {} read back differently", hex(&want.k));
    let x = lib(|| gen::lib_prv(&p))?.map_err(|e| format!("{p:x?} refused: {e:?}"))?;
    ensure_eq!(lib(|| x.to_bytes())?, p.k, "to_bytes");
    ensure!(lib(|| x.private_key().clone())? == sk, "private_key of {p:x?}");
    ensure!(gen::model_attrs(x.attrs()) == p.a, "attrs of {p:x?}");
    let q = lib(|| x.public_key())?;
    ensure!(gen::model_pub(&q) == want, "public key of {p:x?} is {:x?}, expected {want:x?}", gen::model_pub(&q));
    let q2 = lib(|| XPub::from(&x))?;
    ensure!(gen::model_pub(&q2) == want && q == q2, "From<&XPrv> of {p:x?}");
    ensure_eq!(lib(|| q.fingerprint())?, fp, "fingerprint of {want:x?}");
    ensure_eq!(lib(|| q.to_bytes())?, want.k, "to_bytes of {want:x?}");
    ensure!(*lib(|| q.public_key())? == pk, "public_key of {want:x?}");
    ensure!(lib(|| ls::SecretKey::from(&x))? == sk && lib(|| ls::SecretKey::from(x.clone()))? == sk, "SecretKey::from of {p:x?}");
    ensure!(lib(|| ls::PublicKey::from(&q))? == pk && lib(|| ls::PublicKey::from(q.clone()))? == pk, "PublicKey::from of {want:x?}");
    Ok(())
}

pub fn c19(env: &'static Env) {
    env.rule("Boundary-biased private keys: public key, fingerprint, conversions by every route; byte strings of every length 0..600 and random lengths to 10000 for RIPEMD-160. Non-trivial: a distinct key or byte string whose outputs were compared with the reference.");
    crate::p_alike::c19(env);
    env.phase("keys", env.n(120_000, 3_000_000), |m, r, _| check_key(m, &gen::prv(r, 255)));
    rare_phase(env, |m, r, x| {
        for p in rare_keys(x, r)? {
            check_key(m, &p)?;
            let b = hash::sha256(&p.to_pub().k);
            ensure_eq!(lib(|| kms::crypto::ripemd(&gen::at(&b)))?, hex(&hash::ripemd160(&b)), "RIPEMD-160 of {}", hex(&b));
        }
        Ok(())
    });
    env.phase("key-bytes", env.n(60_000, 1_000_000), |m, r, _| {
        // bytes that may or may not be a key
        let mut b = [0u8; 33];
        match r.below(6) {
            0 => b[1..].copy_from_slice(&secp::to_be(&secp::add_carry(&secp::N, &[r.below(4), 0, 0, 0]).0)),
            1 => b[1..].copy_from_slice(&secp::to_be(&secp::add_carry(&secp::P, &[r.below(4), 0, 0, 0]).0)),
            2 => b[1..].copy_from_slice(&secp::to_be(&secp::sub_borrow(&secp::P, &[r.below(9), 0, 0, 0]).0)),
            _ => {
                let v = gen::block(r, 32);
                b[1..].copy_from_slice(&v);
            }
        }
        b[0] = *r.pick(&[2, 3, 2, 3, 0, 1, 4, 5, 6, 7, 0x82]);
        let mut k = [0u8; 32];
        k.copy_from_slice(&b[1..]);
        m.eval();
        m.seen(&b);
        let got = lib(|| <ls::SecretKey as PrivateKey>::from_bytes(&k))?;
        ensure!(got.is_ok() == secp::valid_sk(&secp::from_be(&k)), "private key bytes {}: accepted {}", hex(&k), got.is_ok());
        let got = lib(|| <ls::PublicKey as PublicKey>::from_bytes(b))?;
        ensure!(got.is_ok() == secp::decompress(&b).is_some(), "public key bytes {}: accepted {}", hex(&b), got.is_ok());
        if let Ok(g) = got {
            m.count("points accepted");
            ensure_eq!(lib(|| PublicKey::to_bytes(&g))?, b, "point bytes");
            ensure_eq!(lib(|| PublicKey::fingerprint(&g))?, o::fingerprint(&b), "fingerprint of {}", hex(&b));
        }
        Ok(())
    });
    env.phase("ripemd", 601 * env.n(8, 60), |m, r, i| {
        let mut n = (i % 601) as usize;
        if n == 600 {
            n = r.range(600, 10_000);
        }
        let b = gen::block(r, n);
        m.eval();
        m.seen(&b);
        ensure_eq!(lib(|| kms::crypto::ripemd(&gen::at(&b)))?, hex(&hash::ripemd160(&b)), "RIPEMD-160 of {}", short(&b));
        Ok(())
    });
    // long messages, around powers of two (a length kept in too few bits, a buffer of fixed size)
    let mut long: Vec<usize> = (10..env.n(25, 31)).flat_map(|e| [(1usize << e) - 1, 1 << e, (1 << e) + 1, (1 << e) + 55, (1 << e) + 56, (1 << e) + 64, 3 << (e - 1)]).collect();
    long.extend([10_000, 100_000, 1_000_000, 10_000_000]);
    if env.variant == "shipped" || env.only.is_some() {
        // more bits than 32 of them can count
        long.push((1 << 29) + 5);
    }
    env.phase_t("ripemd-long", long.len() as u64, env.threads.min(4), |m, r, i| {
        let n = long[i as usize];
        let mut b = r.bytes(n.min(1 << 16));
        while b.len() < n {
            let k = b.len().min(n - b.len());
            b.extend_from_within(..k);
        }
        // make the end matter
        for _ in 0..9 {
            let at = n - 1 - r.idx(n.min(70));
            b[at] ^= r.u32() as u8;
        }
        m.eval();
        m.seen(&n.to_le_bytes());
        m.max("bytes hashed with RIPEMD-160", n as u64);
        ensure_eq!(lib(|| kms::crypto::ripemd(&b))?, hex(&hash::ripemd160(&b)), "RIPEMD-160 of {n} bytes ending {}", hex(&b[n - 32..]));
        Ok(())
    });
    let _ = std::marker::PhantomData::<XPrv>;
}

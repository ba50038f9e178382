//! Own BIP32.
use super::{b58, hash, secp};

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Attrs {
    pub depth: u8,
    pub fp: [u8; 4],
    pub child: u32,
    pub cc: [u8; 32],
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Prv {
    pub k: [u8; 32],
    pub a: Attrs,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Pub {
    pub k: [u8; 33],
    pub a: Attrs,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Er {
    SeedLength,
    Depth,
    Child,
    Crypto,
}

pub fn split(i: [u8; 64]) -> ([u8; 32], [u8; 32]) {
    let mut l = [0u8; 32];
    let mut r = [0u8; 32];
    l.copy_from_slice(&i[..32]);
    r.copy_from_slice(&i[32..]);
    (l, r)
}
pub fn master(seed: &[u8]) -> Result<Prv, Er> {
    if ![16, 32, 64, 128].contains(&seed.len()) {
        return Err(Er::SeedLength);
    }
    let (k, cc) = split(hash::hmac512(b"Bitcoin seed", seed));
    if !secp::valid_sk(&secp::from_be(&k)) {
        return Err(Er::Crypto);
    }
    Ok(Prv { k, a: Attrs { depth: 0, fp: [0; 4], child: 0, cc } })
}
pub fn fingerprint(pk: &[u8; 33]) -> [u8; 4] {
    let h = hash::hash160(pk);
    [h[0], h[1], h[2], h[3]]
}
impl Prv {
    pub fn to_pub(&self) -> Pub {
        Pub { k: secp::pubkey(&self.k).unwrap(), a: self.a.clone() }
    }
    /// The HMAC message of a step.
    pub fn data(&self, child: u32, pk: &[u8; 33]) -> Vec<u8> {
        let mut d = vec![];
        if child >> 31 == 1 {
            d.push(0);
            d.extend(self.k);
        } else {
            d.extend(pk);
        }
        d.extend(child.to_be_bytes());
        d
    }
    pub fn ckd(&self, child: u32) -> Result<Prv, Er> {
        if self.a.depth == 255 {
            return Err(Er::Depth);
        }
        let pk = secp::pubkey(&self.k).unwrap();
        let (il, cc) = split(hash::hmac512(&self.a.cc, &self.data(child, &pk)));
        let t = secp::from_be(&il);
        if secp::ge(&t, &secp::N) {
            return Err(Er::Crypto);
        }
        let k = secp::nadd(&t, &secp::from_be(&self.k));
        if secp::is_zero(&k) {
            return Err(Er::Crypto);
        }
        Ok(Prv { k: secp::to_be(&k), a: Attrs { depth: self.a.depth + 1, fp: fingerprint(&pk), child, cc } })
    }
    pub fn path(&self, p: &[u32]) -> Result<Prv, Er> {
        p.iter().try_fold(self.clone(), |k, c| k.ckd(*c))
    }
    pub fn key_bytes(&self) -> [u8; 33] {
        let mut o = [0u8; 33];
        o[1..].copy_from_slice(&self.k);
        o
    }
}
impl Pub {
    pub fn ckd(&self, child: u32) -> Result<Pub, Er> {
        if child >> 31 == 1 {
            return Err(Er::Child);
        }
        if self.a.depth == 255 {
            return Err(Er::Depth);
        }
        let mut d = self.k.to_vec();
        d.extend(child.to_be_bytes());
        let (il, cc) = split(hash::hmac512(&self.a.cc, &d));
        let t = secp::from_be(&il);
        if secp::ge(&t, &secp::N) {
            return Err(Er::Crypto);
        }
        let q = secp::add(&secp::mul_g(&t), &secp::decompress(&self.k));
        match q {
            None => Err(Er::Crypto),
            Some(q) => Ok(Pub { k: secp::compress(&q), a: Attrs { depth: self.a.depth + 1, fp: fingerprint(&self.k), child, cc } }),
        }
    }
    pub fn path(&self, p: &[u32]) -> Result<Pub, Er> {
        p.iter().try_fold(self.clone(), |k, c| k.ckd(*c))
    }
}

pub fn raw(version: u32, a: &Attrs, key: &[u8; 33]) -> Vec<u8> {
    let mut v = version.to_be_bytes().to_vec();
    v.push(a.depth);
    v.extend(a.fp);
    v.extend(a.child.to_be_bytes());
    v.extend(a.cc);
    v.extend(key);
    v
}
pub fn text(version: u32, a: &Attrs, key: &[u8; 33]) -> String {
    b58::check_encode(&raw(version, a, key))
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Parsed {
    pub version: u32,
    pub letters: String,
    pub a: Attrs,
    pub key: [u8; 33],
}
impl Parsed {
    pub fn is_prv(&self) -> bool {
        self.letters.ends_with("prv")
    }
    pub fn is_pub(&self) -> bool {
        self.letters.ends_with("pub")
    }
    pub fn prv_ok(&self) -> bool {
        self.is_prv() && self.key[0] == 0 && secp::valid_sk(&secp::from_be(&self.key[1..]))
    }
    pub fn pub_ok(&self) -> bool {
        self.is_pub() && secp::decompress(&self.key).is_some()
    }
}
/// The container: Base58Check of 78 bytes, four letters in front, master rule.
pub fn parse(s: &str) -> Option<Parsed> {
    let v = b58::check_decode(s)?;
    if v.len() != 78 {
        return None;
    }
    let letters = s.get(..4)?.to_string();
    if !letters.bytes().all(|b| b.is_ascii_alphabetic()) {
        return None;
    }
    let mut fp = [0u8; 4];
    fp.copy_from_slice(&v[5..9]);
    let mut cc = [0u8; 32];
    cc.copy_from_slice(&v[13..45]);
    let mut key = [0u8; 33];
    key.copy_from_slice(&v[45..]);
    let u = |b: &[u8]| u32::from_be_bytes([b[0], b[1], b[2], b[3]]);
    let a = Attrs { depth: v[4], fp, child: u(&v[9..13]), cc };
    if a.depth == 0 && (a.fp != [0; 4] || a.child != 0) {
        return None;
    }
    Some(Parsed { version: u(&v[..4]), letters, a, key })
}

/// Path grammar: "m" ("/" digits "'"?)*, each number below 2^31.
pub fn parse_child(s: &str) -> Option<u32> {
    let (d, h) = match s.strip_suffix('\'') {
        Some(d) => (d, true),
        None => (s, false),
    };
    if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let mut v: u64 = 0;
    for b in d.bytes() {
        v = v * 10 + (b - b'0') as u64;
        if v >= 1 << 31 {
            return None;
        }
    }
    Some(v as u32 | (h as u32) << 31)
}
pub fn parse_path(s: &str) -> Option<Vec<u32>> {
    let mut it = s.split('/');
    if it.next() != Some("m") {
        return None;
    }
    it.map(parse_child).collect()
}
pub fn show_child(c: u32) -> String {
    format!("{}{}", c & 0x7fff_ffff, if c >> 31 == 1 { "'" } else { "" })
}
pub fn show_path(p: &[u32]) -> String {
    let mut s = "m".to_string();
    for c in p {
        s.push('/');
        s += &show_child(*c);
    }
    s
}

pub fn selftest() -> Result<(), String> {
    let e = |m: &str| Err(format!("bip32 oracle: {m}"));
    // BIP32 test vector 1
    let seed = super::unhex("000102030405060708090a0b0c0d0e0f").unwrap();
    let m = master(&seed).unwrap();
    let k = m.path(&parse_path("m/0'/1/2'/2/1000000000").unwrap()).unwrap();
    if text(0x0488ade4, &k.a, &k.key_bytes()) != "xprvA41z7zogVVwxVSgdKUHDy1SKmdb533PjDz7J6N6mV6uS3ze1ai8FHa8kmHScGpWmj4WggLyQjgPie1rFSruoUihUZREPSL39UNdE3BBDu76" {
        return e("vector 1 private");
    }
    let p = k.to_pub();
    if text(0x0488b21e, &p.a, &p.k) != "xpub6H1LXWLaKsWFhvm6RVpEL9P4KfRZSW7abD2ttkWP3SSQvnyA8FSVqNTEcYFgJS2UaFcxupHiYkro49S8yGasTvXEYBVPamhGW6cFJodrTHy" {
        return e("vector 1 public");
    }
    // BIP32 test vector 4 (leading zeros)
    let seed = super::unhex("3ddd5602285899a946114506157c7997e5444528f3003f6134712147db19b678").unwrap();
    let k = master(&seed).unwrap().path(&parse_path("m/0'/1'").unwrap()).unwrap();
    if text(0x0488ade4, &k.a, &k.key_bytes()) != "xprv9xJocDuwtYCMNAo3Zw76WENQeAS6WGXQ55RCy7tDJ8oALr4FWkuVoHJeHVAcAqiZLE7Je3vZJHxspZdFHfnBEjHqU5hG1Jaj32dVoS6XLT1" {
        return e("vector 4");
    }
    let pr = parse(&text(0x0488ade4, &k.a, &k.key_bytes())).unwrap();
    if pr.a != k.a || pr.key != k.key_bytes() || !pr.prv_ok() || pr.pub_ok() {
        return e("parse");
    }
    // private and public branch agree inside the oracle
    let c = m.ckd(7).unwrap().to_pub();
    if c != m.to_pub().ckd(7).unwrap() {
        return e("commute");
    }
    Ok(())
}

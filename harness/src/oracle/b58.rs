//! Own Base58 and Base58Check.
use super::hash::sha256;

const AL: &[u8; 58] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";

pub fn encode(b: &[u8]) -> String {
    let zeros = b.iter().take_while(|x| **x == 0).count();
    let mut d: Vec<u8> = vec![]; // little-endian base58 digits
    for &x in b {
        let mut c = x as u32;
        for v in d.iter_mut() {
            c += (*v as u32) << 8;
            *v = (c % 58) as u8;
            c /= 58;
        }
        while c > 0 {
            d.push((c % 58) as u8);
            c /= 58;
        }
    }
    let mut s = "1".repeat(zeros);
    s.extend(d.iter().rev().map(|v| AL[*v as usize] as char));
    s
}
pub fn decode(s: &str) -> Option<Vec<u8>> {
    let zeros = s.bytes().take_while(|x| *x == b'1').count();
    let mut b: Vec<u8> = vec![]; // little-endian bytes
    for ch in s.bytes() {
        let mut c = AL.iter().position(|a| *a == ch)? as u32;
        for v in b.iter_mut() {
            c += *v as u32 * 58;
            *v = c as u8;
            c >>= 8;
        }
        while c > 0 {
            b.push(c as u8);
            c >>= 8;
        }
    }
    let mut r = vec![0u8; zeros];
    r.extend(b.iter().rev());
    Some(r)
}
pub fn check_encode(b: &[u8]) -> String {
    let mut v = b.to_vec();
    v.extend(&sha256(&sha256(b))[..4]);
    encode(&v)
}
pub fn check_decode(s: &str) -> Option<Vec<u8>> {
    let v = decode(s)?;
    if v.len() < 4 {
        return None;
    }
    let (p, c) = v.split_at(v.len() - 4);
    if sha256(&sha256(p))[..4] == *c {
        Some(p.to_vec())
    } else {
        None
    }
}

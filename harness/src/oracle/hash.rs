//! Own SHA-256, SHA-512, RIPEMD-160, HMAC and PBKDF2, written from FIPS 180-4, RFC 2104, RFC 8018 and
//! the RIPEMD-160 paper. Round constants of SHA-2 are computed, not copied.

fn is_prime(n: u32) -> bool {
    let mut d = 2;
    while d * d <= n {
        if n % d == 0 {
            return false;
        }
        d += 1;
    }
    n > 1
}

/// floor(frac(p^(1/k)) * 2^64) by binary search over integers up to 2^(64+something), k = 2 or 3.
fn frac_root(p: u32, k: u32) -> u64 {
    // find the largest x with x^k <= p * 2^(64k); x < 2^(64+5)
    let p = p as u128;
    let mut lo: u128 = 0;
    let mut hi: u128 = 1u128 << 70;
    while hi - lo > 1 {
        let mid = (lo + hi) / 2;
        if pow_le(mid, k, p) {
            lo = mid;
        } else {
            hi = mid;
        }
    }
    lo as u64
}

/// x^k <= p << (64k), with x < 2^71, using little-endian u32 big numbers.
fn pow_le(x: u128, k: u32, p: u128) -> bool {
    fn to_vec(mut x: u128) -> Vec<u32> {
        let mut v = vec![];
        while x > 0 {
            v.push(x as u32);
            x >>= 32;
        }
        v
    }
    fn mul(a: &[u32], b: &[u32]) -> Vec<u32> {
        let mut r = vec![0u32; a.len() + b.len()];
        for i in 0..a.len() {
            let mut c = 0u64;
            for j in 0..b.len() {
                let t = r[i + j] as u64 + a[i] as u64 * b[j] as u64 + c;
                r[i + j] = t as u32;
                c = t >> 32;
            }
            r[i + b.len()] = c as u32;
        }
        while r.last() == Some(&0) {
            r.pop();
        }
        r
    }
    let xv = to_vec(x);
    let mut pw = vec![1u32];
    for _ in 0..k {
        pw = mul(&pw, &xv);
    }
    let mut rhs = vec![0u32; (2 * k) as usize];
    rhs.extend(to_vec(p));
    while rhs.last() == Some(&0) {
        rhs.pop();
    }
    if pw.len() != rhs.len() {
        return pw.len() < rhs.len();
    }
    for i in (0..pw.len()).rev() {
        if pw[i] != rhs[i] {
            return pw[i] < rhs[i];
        }
    }
    true
}

struct Tables {
    k256: [u32; 64],
    h256: [u32; 8],
    k512: [u64; 80],
    h512: [u64; 8],
}

fn tables() -> &'static Tables {
    static T: std::sync::OnceLock<Tables> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let primes: Vec<u32> = (2..).filter(|n| is_prime(*n)).take(80).collect();
        let mut t = Tables { k256: [0; 64], h256: [0; 8], k512: [0; 80], h512: [0; 8] };
        for i in 0..80 {
            t.k512[i] = frac_root(primes[i], 3);
            if i < 64 {
                t.k256[i] = (t.k512[i] >> 32) as u32;
            }
            if i < 8 {
                t.h512[i] = frac_root(primes[i], 2);
                t.h256[i] = (t.h512[i] >> 32) as u32;
            }
        }
        t
    })
}

fn sha256_block(h: &mut [u32; 8], b: &[u8]) {
    let k = &tables().k256;
    let mut w = [0u32; 64];
    for i in 0..16 {
        w[i] = u32::from_be_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]]);
    }
    for i in 16..64 {
        let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
        let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
        w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
    }
    let mut v = *h;
    for i in 0..64 {
        let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
        let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
        let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(k[i]).wrapping_add(w[i]);
        let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
        let mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
        let t2 = s0.wrapping_add(mj);
        v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
    }
    for i in 0..8 {
        h[i] = h[i].wrapping_add(v[i]);
    }
}

fn sha512_block(h: &mut [u64; 8], b: &[u8]) {
    let k = &tables().k512;
    let mut w = [0u64; 80];
    for i in 0..16 {
        let mut x = [0u8; 8];
        x.copy_from_slice(&b[8 * i..8 * i + 8]);
        w[i] = u64::from_be_bytes(x);
    }
    for i in 16..80 {
        let s0 = w[i - 15].rotate_right(1) ^ w[i - 15].rotate_right(8) ^ (w[i - 15] >> 7);
        let s1 = w[i - 2].rotate_right(19) ^ w[i - 2].rotate_right(61) ^ (w[i - 2] >> 6);
        w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
    }
    let mut v = *h;
    for i in 0..80 {
        let s1 = v[4].rotate_right(14) ^ v[4].rotate_right(18) ^ v[4].rotate_right(41);
        let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
        let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(k[i]).wrapping_add(w[i]);
        let s0 = v[0].rotate_right(28) ^ v[0].rotate_right(34) ^ v[0].rotate_right(39);
        let mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
        let t2 = s0.wrapping_add(mj);
        v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
    }
    for i in 0..8 {
        h[i] = h[i].wrapping_add(v[i]);
    }
}

pub fn sha256(m: &[u8]) -> [u8; 32] {
    let mut h = tables().h256;
    let full = m.len() / 64 * 64;
    for b in m[..full].chunks(64) {
        sha256_block(&mut h, b);
    }
    let rest = &m[full..];
    let mut p = [0u8; 128];
    p[..rest.len()].copy_from_slice(rest);
    p[rest.len()] = 0x80;
    let end = if rest.len() < 56 { 64 } else { 128 };
    p[end - 8..end].copy_from_slice(&((m.len() as u64) * 8).to_be_bytes());
    for b in p[..end].chunks(64) {
        sha256_block(&mut h, b);
    }
    let mut o = [0u8; 32];
    for i in 0..8 {
        o[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    o
}

fn sha512_from(mut h: [u64; 8], done: usize, m: &[u8]) -> [u8; 64] {
    let full = m.len() / 128 * 128;
    for b in m[..full].chunks(128) {
        sha512_block(&mut h, b);
    }
    let rest = &m[full..];
    let mut p = [0u8; 256];
    p[..rest.len()].copy_from_slice(rest);
    p[rest.len()] = 0x80;
    let end = if rest.len() < 112 { 128 } else { 256 };
    p[end - 16..end].copy_from_slice(&(((done + m.len()) as u128) * 8).to_be_bytes());
    for b in p[..end].chunks(128) {
        sha512_block(&mut h, b);
    }
    let mut o = [0u8; 64];
    for i in 0..8 {
        o[8 * i..8 * i + 8].copy_from_slice(&h[i].to_be_bytes());
    }
    o
}

pub fn sha512(m: &[u8]) -> [u8; 64] {
    sha512_from(tables().h512, 0, m)
}

pub struct Hmac512 {
    inner: [u64; 8],
    outer: [u64; 8],
}

impl Hmac512 {
    pub fn new(key: &[u8]) -> Self {
        let mut k = [0u8; 128];
        if key.len() > 128 {
            k[..64].copy_from_slice(&sha512(key));
        } else {
            k[..key.len()].copy_from_slice(key);
        }
        let mut inner = tables().h512;
        let mut outer = tables().h512;
        let i: Vec<u8> = k.iter().map(|b| b ^ 0x36).collect();
        let o: Vec<u8> = k.iter().map(|b| b ^ 0x5c).collect();
        sha512_block(&mut inner, &i);
        sha512_block(&mut outer, &o);
        Hmac512 { inner, outer }
    }
    pub fn mac(&self, m: &[u8]) -> [u8; 64] {
        let i = sha512_from(self.inner, 128, m);
        sha512_from(self.outer, 128, &i)
    }
}

pub fn hmac512(key: &[u8], m: &[u8]) -> [u8; 64] {
    Hmac512::new(key).mac(m)
}

pub fn hmac256(key: &[u8], m: &[u8]) -> [u8; 32] {
    let mut k = [0u8; 64];
    if key.len() > 64 {
        k[..32].copy_from_slice(&sha256(key));
    } else {
        k[..key.len()].copy_from_slice(key);
    }
    let mut i: Vec<u8> = k.iter().map(|b| b ^ 0x36).collect();
    i.extend(m);
    let mut o: Vec<u8> = k.iter().map(|b| b ^ 0x5c).collect();
    o.extend(sha256(&i));
    sha256(&o)
}

/// PBKDF2-HMAC-SHA512, one 64-byte block.
pub fn pbkdf2_512(pw: &[u8], salt: &[u8], rounds: u32) -> [u8; 64] {
    let h = Hmac512::new(pw);
    let mut s = salt.to_vec();
    s.extend([0, 0, 0, 1]);
    let mut u = h.mac(&s);
    let mut t = u;
    let mut blk = [0u8; 128];
    blk[64] = 0x80;
    blk[112..].copy_from_slice(&(192u128 * 8).to_be_bytes());
    let fin = |st: [u64; 8], u: &[u8; 64], blk: &mut [u8; 128]| {
        let mut st = st;
        blk[..64].copy_from_slice(u);
        sha512_block(&mut st, blk);
        let mut o = [0u8; 64];
        for i in 0..8 {
            o[8 * i..8 * i + 8].copy_from_slice(&st[i].to_be_bytes());
        }
        o
    };
    for _ in 1..rounds {
        let a = fin(h.inner, &u, &mut blk);
        u = fin(h.outer, &a, &mut blk);
        for i in 0..64 {
            t[i] ^= u[i];
        }
    }
    t
}

pub fn ripemd160(m: &[u8]) -> [u8; 20] {
    // message word order and shifts: left line by rho, right line by rho after pi
    const RHO: [usize; 16] = [7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8];
    const SHIFT: [[u32; 16]; 5] = [
        [11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8],
        [12, 13, 11, 15, 6, 9, 9, 7, 12, 15, 11, 13, 7, 8, 7, 7],
        [13, 15, 14, 11, 7, 7, 6, 8, 13, 14, 13, 12, 5, 5, 6, 9],
        [14, 11, 12, 14, 8, 6, 5, 5, 15, 12, 15, 14, 9, 9, 8, 6],
        [15, 12, 13, 13, 9, 5, 8, 6, 14, 11, 12, 11, 8, 6, 5, 5],
    ];
    const KL: [u32; 5] = [0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xa953fd4e];
    const KR: [u32; 5] = [0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0x7a6d76e9, 0];
    fn f(j: usize, x: u32, y: u32, z: u32) -> u32 {
        match j {
            0 => x ^ y ^ z,
            1 => (x & y) | (!x & z),
            2 => (x | !y) ^ z,
            3 => (x & z) | (y & !z),
            _ => x ^ (y | !z),
        }
    }
    let mut h: [u32; 5] = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0];
    let mut p = m.to_vec();
    p.push(0x80);
    while p.len() % 64 != 56 {
        p.push(0);
    }
    p.extend(((m.len() as u64) * 8).to_le_bytes());
    for b in p.chunks(64) {
        let mut x = [0u32; 16];
        for i in 0..16 {
            x[i] = u32::from_le_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]]);
        }
        let line = |right: bool| {
            let mut v = h;
            let mut idx = [0usize; 16];
            for i in 0..16 {
                idx[i] = if right { (9 * i + 5) % 16 } else { i };
            }
            for r in 0..5 {
                for i in 0..16 {
                    let w = idx[i];
                    let (fj, k) = if right { (4 - r, KR[r]) } else { (r, KL[r]) };
                    let t = v[0]
                        .wrapping_add(f(fj, v[1], v[2], v[3]))
                        .wrapping_add(x[w])
                        .wrapping_add(k)
                        .rotate_left(SHIFT[r][w])
                        .wrapping_add(v[4]);
                    v = [v[4], t, v[1], v[2].rotate_left(10), v[3]];
                }
                idx = idx.map(|w| RHO[w]);
            }
            v
        };
        let l = line(false);
        let r = line(true);
        h = [
            h[1].wrapping_add(l[2]).wrapping_add(r[3]),
            h[2].wrapping_add(l[3]).wrapping_add(r[4]),
            h[3].wrapping_add(l[4]).wrapping_add(r[0]),
            h[4].wrapping_add(l[0]).wrapping_add(r[1]),
            h[0].wrapping_add(l[1]).wrapping_add(r[2]),
        ];
    }
    let mut o = [0u8; 20];
    for i in 0..5 {
        o[4 * i..4 * i + 4].copy_from_slice(&h[i].to_le_bytes());
    }
    o
}

pub fn hash160(m: &[u8]) -> [u8; 20] {
    ripemd160(&sha256(m))
}

pub fn selftest() -> Result<(), String> {
    let hx = |b: &[u8]| super::hex(b);
    let t = |got: String, want: &str, name: &str| if got == want { Ok(()) } else { Err(format!("{name}: {got} != {want}")) };
    t(hx(&sha256(b"abc")), "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad", "sha256")?;
    t(hx(&sha512(b"abc")), "ddaf35a193617abacc417349ae20413112e6fa4e89a97ea20a9eeee64b55d39a2192992a274fc1a836ba3c23a3feebbd454d4423643ce80e2a9ac94fa54ca49f", "sha512")?;
    t(hx(&ripemd160(b"abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq")), "12a053384a9c0c88e405a06c27dcf49ada62eb2b", "ripemd160")?;
    t(hx(&ripemd160(b"")), "9c1185a5c5e9fc54612808977ee8f548b2258d31", "ripemd160 empty")?;
    t(hx(&hmac512(b"Jefe", b"what do ya want for nothing?")), "164b7a7bfcf819e2e395fbe73b56e0a387bd64222e831fd610270cd7ea2505549758bf75c05a994a6d034f65f8f0e6fdcaeab1a34d4a6b4b636e070a38bce737", "hmac512")?;
    t(hx(&hmac256(b"Jefe", b"what do ya want for nothing?")), "5bdcc146bf60754e6a042426089575c75a003f089d2739839dec58b964ec3843", "hmac256")?;
    t(hx(&pbkdf2_512(b"legal winner thank year wave sausage worth useful legal winner thank yellow", b"mnemonicTREZOR", 2048)), "2e8905819b8723fe2c1d161860e5ee1830318dbf49a83bd451cfb8440c28bd6fa457fe1296106559a3c80937a1c1069be3a3a5bd381ee6260e8d9739fce1f607", "pbkdf2")?;
    Ok(())
}

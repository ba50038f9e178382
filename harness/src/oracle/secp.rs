//! Own secp256k1 (SEC 2): field, scalars, group, RFC 6979 ECDSA with recovery. Plain and variable-time.

pub type U = [u64; 4]; // little-endian limbs

pub const P: U = [0xFFFFFFFEFFFFFC2F, !0, !0, !0];
pub const N: U = [0xBFD25E8CD0364141, 0xBAAEDCE6AF48A03B, 0xFFFFFFFFFFFFFFFE, !0];
const GX: U = [0x59F2815B16F81798, 0x029BFCDB2DCE28D9, 0x55A06295CE870B07, 0x79BE667EF9DCBBAC];
const GY: U = [0x9C47D08FFB10D4B8, 0xFD17B448A6855419, 0x5DA4FBFC0E1108A8, 0x483ADA7726A3C465];

pub fn from_be(b: &[u8]) -> U {
    let mut r = [0u64; 4];
    for i in 0..4 {
        let mut x = [0u8; 8];
        x.copy_from_slice(&b[8 * i..8 * i + 8]);
        r[3 - i] = u64::from_be_bytes(x);
    }
    r
}
pub fn to_be(u: &U) -> [u8; 32] {
    let mut o = [0u8; 32];
    for i in 0..4 {
        o[8 * i..8 * i + 8].copy_from_slice(&u[3 - i].to_be_bytes());
    }
    o
}
pub fn ge(a: &U, b: &U) -> bool {
    for i in (0..4).rev() {
        if a[i] != b[i] {
            return a[i] > b[i];
        }
    }
    true
}
pub fn is_zero(a: &U) -> bool {
    *a == [0; 4]
}
pub fn add_carry(a: &U, b: &U) -> (U, bool) {
    let mut r = [0u64; 4];
    let mut c = 0u128;
    for i in 0..4 {
        let t = a[i] as u128 + b[i] as u128 + c;
        r[i] = t as u64;
        c = t >> 64;
    }
    (r, c != 0)
}
pub fn sub_borrow(a: &U, b: &U) -> (U, bool) {
    let mut r = [0u64; 4];
    let mut br = 0i128;
    for i in 0..4 {
        let t = a[i] as i128 - b[i] as i128 - br;
        if t < 0 {
            r[i] = (t + (1i128 << 64)) as u64;
            br = 1;
        } else {
            r[i] = t as u64;
            br = 0;
        }
    }
    (r, br != 0)
}
fn add_mod(a: &U, b: &U, m: &U) -> U {
    let (r, c) = add_carry(a, b);
    if c || ge(&r, m) {
        sub_borrow(&r, m).0
    } else {
        r
    }
}
fn sub_mod(a: &U, b: &U, m: &U) -> U {
    let (r, b) = sub_borrow(a, b);
    if b {
        add_carry(&r, m).0
    } else {
        r
    }
}
fn mul_wide(a: &U, b: &U) -> [u64; 8] {
    let mut r = [0u64; 8];
    for i in 0..4 {
        let mut c = 0u128;
        for j in 0..4 {
            let t = r[i + j] as u128 + a[i] as u128 * b[j] as u128 + c;
            r[i + j] = t as u64;
            c = t >> 64;
        }
        r[i + 4] = c as u64;
    }
    r
}

// ---- field -------------------------------------------------------------------------------------
fn fmul(a: &U, b: &U) -> U {
    const C: u64 = 0x1000003D1;
    let w = mul_wide(a, b);
    let mut r = [0u64; 4];
    let mut c = 0u128;
    for i in 0..4 {
        let t = w[i] as u128 + w[i + 4] as u128 * C as u128 + c;
        r[i] = t as u64;
        c = t >> 64;
    }
    // c < 2^34
    let extra = c * C as u128;
    let (mut r2, mut k) = add_carry(&r, &[extra as u64, (extra >> 64) as u64, 0, 0]);
    while k {
        let (x, y) = add_carry(&r2, &[C, 0, 0, 0]);
        r2 = x;
        k = y;
    }
    if ge(&r2, &P) {
        r2 = sub_borrow(&r2, &P).0;
    }
    r2
}
fn fsq(a: &U) -> U {
    fmul(a, a)
}
fn fadd(a: &U, b: &U) -> U {
    add_mod(a, b, &P)
}
fn fsub(a: &U, b: &U) -> U {
    sub_mod(a, b, &P)
}
fn pow_by(a: &U, e: &U, mul: fn(&U, &U) -> U) -> U {
    let mut r: U = [1, 0, 0, 0];
    for i in (0..256).rev() {
        r = mul(&r, &r);
        if e[i / 64] >> (i % 64) & 1 == 1 {
            r = mul(&r, a);
        }
    }
    r
}
fn finv(a: &U) -> U {
    pow_by(a, &sub_borrow(&P, &[2, 0, 0, 0]).0, fmul)
}
fn fsqrt(a: &U) -> Option<U> {
    // p = 3 mod 4: a^((p+1)/4)
    let mut e = add_carry(&P, &[1, 0, 0, 0]).0;
    for _ in 0..2 {
        let mut c = 0;
        for i in (0..4).rev() {
            let n = e[i] & 1;
            e[i] = e[i] >> 1 | c << 63;
            c = n;
        }
    }
    let r = pow_by(a, &e, fmul);
    if fsq(&r) == *a {
        Some(r)
    } else {
        None
    }
}

// ---- scalars -----------------------------------------------------------------------------------
pub fn nadd(a: &U, b: &U) -> U {
    add_mod(a, b, &N)
}
pub fn nneg(a: &U) -> U {
    if is_zero(a) {
        *a
    } else {
        sub_borrow(&N, a).0
    }
}
pub fn nreduce(a: &U) -> U {
    if ge(a, &N) {
        sub_borrow(a, &N).0
    } else {
        *a
    }
}
pub fn nmul(a: &U, b: &U) -> U {
    // 2^256 = C mod n, with C = 2^256 - n (129 bits)
    let c: U = sub_borrow(&[0; 4], &N).0;
    let mut w = mul_wide(a, b);
    loop {
        let hi: U = [w[4], w[5], w[6], w[7]];
        let lo: U = [w[0], w[1], w[2], w[3]];
        if is_zero(&hi) {
            let mut r = lo;
            while ge(&r, &N) {
                r = sub_borrow(&r, &N).0;
            }
            return r;
        }
        let m = mul_wide(&hi, &c);
        let mut carry = 0u128;
        for i in 0..8 {
            let t = m[i] as u128 + if i < 4 { lo[i] as u128 } else { 0 } + carry;
            w[i] = t as u64;
            carry = t >> 64;
        }
        assert!(carry == 0);
    }
}
pub fn ninv(a: &U) -> U {
    pow_by(a, &sub_borrow(&N, &[2, 0, 0, 0]).0, nmul)
}

// ---- group -------------------------------------------------------------------------------------
/// Affine point; None is the point at infinity.
pub type Pt = Option<(U, U)>;

#[derive(Clone, Copy)]
struct J {
    x: U,
    y: U,
    z: U, // zero for infinity
}
const JINF: J = J { x: [1, 0, 0, 0], y: [1, 0, 0, 0], z: [0; 4] };

fn jdouble(p: &J) -> J {
    if is_zero(&p.z) || is_zero(&p.y) {
        return JINF;
    }
    let yy = fsq(&p.y);
    let s = {
        let t = fmul(&p.x, &yy);
        let t2 = fadd(&t, &t);
        fadd(&t2, &t2)
    };
    let xx = fsq(&p.x);
    let m = fadd(&fadd(&xx, &xx), &xx);
    let x3 = fsub(&fsq(&m), &fadd(&s, &s));
    let y4 = fsq(&yy);
    let y4_8 = {
        let a = fadd(&y4, &y4);
        let b = fadd(&a, &a);
        fadd(&b, &b)
    };
    let y3 = fsub(&fmul(&m, &fsub(&s, &x3)), &y4_8);
    let yz = fmul(&p.y, &p.z);
    J { x: x3, y: y3, z: fadd(&yz, &yz) }
}
fn jadd_affine(p: &J, q: &(U, U)) -> J {
    if is_zero(&p.z) {
        return J { x: q.0, y: q.1, z: [1, 0, 0, 0] };
    }
    let zz = fsq(&p.z);
    let u2 = fmul(&q.0, &zz);
    let s2 = fmul(&q.1, &fmul(&zz, &p.z));
    let h = fsub(&u2, &p.x);
    let r = fsub(&s2, &p.y);
    if is_zero(&h) {
        return if is_zero(&r) { jdouble(p) } else { JINF };
    }
    let hh = fsq(&h);
    let hhh = fmul(&h, &hh);
    let v = fmul(&p.x, &hh);
    let x3 = fsub(&fsub(&fsq(&r), &hhh), &fadd(&v, &v));
    let y3 = fsub(&fmul(&r, &fsub(&v, &x3)), &fmul(&p.y, &hhh));
    J { x: x3, y: y3, z: fmul(&p.z, &h) }
}
fn to_affine(p: &J) -> Pt {
    if is_zero(&p.z) {
        return None;
    }
    let zi = finv(&p.z);
    let zi2 = fsq(&zi);
    Some((fmul(&p.x, &zi2), fmul(&p.y, &fmul(&zi2, &zi))))
}

pub fn g() -> Pt {
    Some((GX, GY))
}
pub fn add(a: &Pt, b: &Pt) -> Pt {
    match (a, b) {
        (None, _) => *b,
        (_, None) => *a,
        (Some(a), Some(b)) => to_affine(&jadd_affine(&J { x: a.0, y: a.1, z: [1, 0, 0, 0] }, b)),
    }
}
pub fn neg(a: &Pt) -> Pt {
    a.map(|(x, y)| (x, fsub(&[0; 4], &y)))
}
pub fn mul(k: &U, p: &Pt) -> Pt {
    let q = match p {
        None => return None,
        Some(q) => *q,
    };
    let mut r = JINF;
    for i in (0..256).rev() {
        r = jdouble(&r);
        if k[i / 64] >> (i % 64) & 1 == 1 {
            r = jadd_affine(&r, &q);
        }
    }
    to_affine(&r)
}
fn comb() -> &'static Vec<(U, U)> {
    static T: std::sync::OnceLock<Vec<(U, U)>> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut t = Vec::with_capacity(64 * 15);
        let mut base = g();
        for _ in 0..64 {
            let mut acc = base;
            for _ in 0..15 {
                t.push(acc.unwrap());
                acc = add(&acc, &base);
            }
            base = acc; // 16 * base
        }
        t
    })
}
/// k*G by a 4-bit comb.
pub fn mul_g(k: &U) -> Pt {
    let t = comb();
    let mut r = JINF;
    for i in 0..64 {
        let d = (k[i / 16] >> (4 * (i % 16)) & 15) as usize;
        if d != 0 {
            r = jadd_affine(&r, &t[i * 15 + d - 1]);
        }
    }
    to_affine(&r)
}

/// Visits (k0 + i) * G for i in 1..=n (k0 not near 0 or the order).
pub fn walk(k0: &U, n: u64, mut f: impl FnMut(u64, &(U, U))) {
    const B: usize = 1024;
    let mut t = vec![g().unwrap()];
    for _ in 1..B {
        t.push(add(&Some(*t.last().unwrap()), &g()).unwrap());
    }
    let mut base = mul_g(k0).unwrap();
    let mut done = 0u64;
    let mut pre = vec![[0u64; 4]; B + 1];
    while done < n {
        pre[0] = [1, 0, 0, 0];
        for i in 0..B {
            pre[i + 1] = fmul(&pre[i], &fsub(&t[i].0, &base.0));
        }
        let mut inv = finv(&pre[B]);
        let mut last = base;
        for i in (0..B).rev() {
            let di = fmul(&inv, &pre[i]);
            inv = fmul(&inv, &fsub(&t[i].0, &base.0));
            let l = fmul(&fsub(&t[i].1, &base.1), &di);
            let x = fsub(&fsub(&fsq(&l), &t[i].0), &base.0);
            let y = fsub(&fmul(&l, &fsub(&base.0, &x)), &base.1);
            let p = (x, y);
            if i == B - 1 {
                last = p;
            }
            f(done + i as u64 + 1, &p);
        }
        base = last;
        done += B as u64;
    }
}

pub fn compress(p: &(U, U)) -> [u8; 33] {
    let mut o = [0u8; 33];
    o[0] = 2 + (p.1[0] & 1) as u8;
    o[1..].copy_from_slice(&to_be(&p.0));
    o
}
pub fn lift_x(x: &U, odd: bool) -> Pt {
    if ge(x, &P) {
        return None;
    }
    let rhs = fadd(&fmul(&fsq(x), x), &[7, 0, 0, 0]);
    let y = fsqrt(&rhs)?;
    let y = if (y[0] & 1 == 1) != odd { fsub(&[0; 4], &y) } else { y };
    Some((*x, y))
}
pub fn decompress(b: &[u8]) -> Pt {
    if b.len() != 33 || (b[0] != 2 && b[0] != 3) {
        return None;
    }
    lift_x(&from_be(&b[1..]), b[0] == 3)
}
/// Public key of a 32-byte private key, None unless 1..n-1.
pub fn pubkey(sk: &[u8; 32]) -> Option<[u8; 33]> {
    let k = from_be(sk);
    if !valid_sk(&k) {
        return None;
    }
    Some(compress(&mul_g(&k).unwrap()))
}
pub fn valid_sk(k: &U) -> bool {
    !is_zero(k) && !ge(k, &N)
}

// ---- ECDSA -------------------------------------------------------------------------------------
pub fn rfc6979_nonce(sk: &[u8; 32], digest: &[u8; 32]) -> U {
    let h = to_be(&nreduce(&from_be(digest)));
    let mut v = [1u8; 32];
    let mut k = [0u8; 32];
    for t in 0..2u8 {
        let mut m = v.to_vec();
        m.push(t);
        m.extend(sk);
        m.extend(h);
        k = super::hash::hmac256(&k, &m);
        v = super::hash::hmac256(&k, &v);
    }
    loop {
        v = super::hash::hmac256(&k, &v);
        let c = from_be(&v);
        if valid_sk(&c) {
            return c;
        }
        let mut m = v.to_vec();
        m.push(0);
        k = super::hash::hmac256(&k, &m);
        v = super::hash::hmac256(&k, &v);
    }
}
pub fn sign(sk: &[u8; 32], digest: &[u8; 32]) -> ([u8; 64], u8) {
    let z = nreduce(&from_be(digest));
    let d = from_be(sk);
    let k = rfc6979_nonce(sk, digest);
    let r_pt = mul_g(&k).unwrap();
    let mut rec = (r_pt.1[0] & 1) as u8;
    if ge(&r_pt.0, &N) {
        rec |= 2;
    }
    let r = nreduce(&r_pt.0);
    let mut s = nmul(&ninv(&k), &nadd(&z, &nmul(&r, &d)));
    if is_high(&s) {
        s = nneg(&s);
        rec ^= 1;
    }
    let mut o = [0u8; 64];
    o[..32].copy_from_slice(&to_be(&r));
    o[32..].copy_from_slice(&to_be(&s));
    (o, rec)
}
pub fn is_high(s: &U) -> bool {
    // s > n/2  <=>  2s > n  (n odd)
    let (d, c) = add_carry(s, s);
    c || (ge(&d, &N) && d != N)
}
pub fn verify(pk: &[u8], digest: &[u8; 32], sig: &[u8; 64]) -> bool {
    let q = decompress(pk);
    let r = from_be(&sig[..32]);
    let s = from_be(&sig[32..]);
    if q.is_none() || !valid_sk(&r) || !valid_sk(&s) {
        return false;
    }
    let z = nreduce(&from_be(digest));
    let w = ninv(&s);
    let p = add(&mul_g(&nmul(&z, &w)), &mul(&nmul(&r, &w), &q));
    match p {
        None => false,
        Some((x, _)) => nreduce(&x) == r,
    }
}
pub fn recover(digest: &[u8; 32], sig: &[u8; 64], rec: u8) -> Option<[u8; 33]> {
    let r = from_be(&sig[..32]);
    let s = from_be(&sig[32..]);
    if rec > 3 || !valid_sk(&r) || !valid_sk(&s) {
        return None;
    }
    let x = if rec & 2 != 0 {
        let (x, c) = add_carry(&r, &N);
        if c {
            return None;
        }
        x
    } else {
        r
    };
    let rp = lift_x(&x, rec & 1 == 1);
    rp?;
    let z = nreduce(&from_be(digest));
    let ri = ninv(&r);
    let q = add(&mul(&nmul(&s, &ri), &rp), &neg(&mul_g(&nmul(&z, &ri))));
    q.map(|p| compress(&p))
}

pub fn selftest() -> Result<(), String> {
    let e = |m: &str| Err(format!("secp256k1 oracle: {m}"));
    if mul(&N, &g()).is_some() || mul_g(&N).is_some() {
        return e("nG");
    }
    let nm1 = sub_borrow(&N, &[1, 0, 0, 0]).0;
    if mul_g(&nm1) != neg(&g()) {
        return e("(n-1)G");
    }
    if lift_x(&GX, GY[0] & 1 == 1) != g() {
        return e("G on curve");
    }
    let mut k: U = [3, 5, 7, 11];
    for _ in 0..6 {
        k = nmul(&k, &[0x9e3779b97f4a7c15, 0xd1b54a32d192ed03, 0x94d049bb133111eb, 0xbf58476d1ce4e5b9]);
        if nmul(&k, &ninv(&k)) != [1, 0, 0, 0] {
            return e("inverse");
        }
        let p = mul_g(&k);
        if p != mul(&k, &g()) {
            return e("comb");
        }
        let (x, y) = p.unwrap();
        if fsq(&y) != fadd(&fmul(&fsq(&x), &x), &[7, 0, 0, 0]) {
            return e("curve equation");
        }
        if add(&p, &mul_g(&nneg(&k))).is_some() {
            return e("inverse points");
        }
        if add(&p, &p) != mul_g(&nadd(&k, &k)) {
            return e("doubling");
        }
        let sk = to_be(&k);
        let dg = super::hash::sha256(&sk);
        let (sg, rec) = sign(&sk, &dg);
        let pk = pubkey(&sk).unwrap();
        if !verify(&pk, &dg, &sg) || recover(&dg, &sg, rec) != Some(pk) {
            return e("sign/verify/recover");
        }
    }
    // well-known RFC 6979 vector for secp256k1: key 1, SHA-256("Satoshi Nakamoto")
    let mut sk = [0u8; 32];
    sk[31] = 1;
    let (sg, _) = sign(&sk, &super::hash::sha256(b"Satoshi Nakamoto"));
    if super::hex(&sg) != "934b1ea10a4b3c1757e2b0c017d0b6143ce3c9a7e6a4a49860d7a6ab210ee3d82442ce9d2b916064108014783e923ec36b49743e2ffa1c4496f01a512aafd9e5" {
        return e("RFC 6979 vector");
    }
    Ok(())
}

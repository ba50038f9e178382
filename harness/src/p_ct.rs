//! C20: comparisons of private keys under valgrind's memcheck, with the secret bytes declared undefined: memcheck then
//! reports every branch and every memory address computed from them.
use crate::gen;
use crate::mon::{lib, Env, Mon, R};
use crate::oracle::bip32::{self as b32, Prv};
use crate::oracle::{hex, secp};
use crate::rng::Rng;
use crate::spec::Moody;
use crate::{ensure, ensure_eq};
use kms::bip32 as k;
use std::hint::black_box;
use subtle::ConstantTimeEq;

/// A valgrind client request; 0 when not under valgrind.
fn request(code: usize, a: usize, b: usize) -> usize {
    let args: [usize; 6] = [code, a, b, 0, 0, 0];
    let mut r: usize = 0;
    unsafe {
        std::arch::asm!(
            "rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51", "xchg rbx, rbx",
            in("rax") args.as_ptr(), inout("rdx") r, out("rdi") _,
        );
    }
    black_box(&mut r);
    r
}
const MC: usize = 0x4d43_0000;
fn hide(p: *const u8, n: usize) {
    request(MC + 1, p as usize, n);
}
fn show(p: *const u8, n: usize) {
    request(MC + 2, p as usize, n);
}
fn errors() -> usize {
    request(0x1201, 0, 0)
}
fn bytes_of<T>(x: &T) -> (*const u8, usize) {
    (x as *const T as *const u8, std::mem::size_of::<T>())
}

/// A plain key type of the user's own.
struct Raw([u8; 32]);
#[derive(Clone, Debug, PartialEq, Eq)]
struct RawPub([u8; 33]);
impl k::PrivateKey for Raw {
    type PublicKey = RawPub;
    fn from_bytes(b: &[u8; 32]) -> k::Result<Self> {
        Ok(Raw(*b))
    }
    fn to_bytes(&self) -> [u8; 32] {
        self.0
    }
    fn derive_child(&self, _: [u8; 32]) -> k::Result<Self> {
        Err(k::Error::Crypto)
    }
    fn public_key(&self) -> RawPub {
        RawPub([2; 33])
    }
}
impl k::PublicKey for RawPub {
    fn from_bytes(_: [u8; 33]) -> k::Result<Self> {
        Err(k::Error::Crypto)
    }
    fn to_bytes(&self) -> [u8; 33] {
        self.0
    }
    fn derive_child(&self, _: [u8; 32]) -> k::Result<Self> {
        Err(k::Error::Crypto)
    }
}

#[inline(never)]
fn by_eq<K: k::PrivateKey>(a: &k::ExtendedPrivateKey<K>, b: &k::ExtendedPrivateKey<K>, out: &mut u8) {
    *out = (a == b) as u8;
}
#[inline(never)]
fn by_ne<K: k::PrivateKey>(a: &k::ExtendedPrivateKey<K>, b: &k::ExtendedPrivateKey<K>, out: &mut u8) {
    *out = (a != b) as u8 ^ 1;
}
#[inline(never)]
fn by_ct<K: k::PrivateKey>(a: &k::ExtendedPrivateKey<K>, b: &k::ExtendedPrivateKey<K>, out: &mut u8) {
    *out = a.ct_eq(b).unwrap_u8();
}
const WAYS: [&str; 3] = ["==", "!=", "ct_eq"];

/// One comparison with the secrets of both keys (or of one) hidden. Returns the verdict and the errors it cost.
fn compare<K: k::PrivateKey>(a: &k::ExtendedPrivateKey<K>, b: &k::ExtendedPrivateKey<K>, way: usize, hidden: u64) -> (bool, usize) {
    let mut parts = vec![];
    for (i, x) in [a, b].into_iter().enumerate() {
        if hidden >> (2 * i) & 1 != 0 {
            parts.push(bytes_of(x.private_key()));
        }
        if hidden >> (2 * i + 1) & 1 != 0 {
            parts.push(bytes_of(&x.attrs().chain_code));
        }
    }
    let mut out = 0u8;
    let before = errors();
    for (p, n) in &parts {
        hide(*p, *n);
    }
    let f = black_box([by_eq::<K> as fn(&_, &_, &mut u8), by_ne::<K>, by_ct::<K>][way]);
    f(a, b, black_box(&mut out));
    for (p, n) in &parts {
        show(*p, *n);
    }
    show(&out, 1);
    let cost = errors() - before;
    (black_box(out) != 0, cost)
}
fn related(r: &mut Rng, a: &Prv) -> (Prv, String) {
    let mut b = a.clone();
    let mut what = vec![];
    for _ in 0..*r.pick(&[0usize, 1, 1, 1, 2, 3]) {
        match r.below(7) {
            0 | 1 => {
                let i = r.idx(32);
                b.k[i] ^= 1 << r.below(8);
                what.push(format!("key byte {i}"));
            }
            2 | 3 => {
                let i = r.idx(32);
                b.a.cc[i] ^= 1 << r.below(8);
                what.push(format!("chain code byte {i}"));
            }
            4 => {
                b.k = gen::sk(r);
                b.a.cc = gen::cc(r);
                what.push("all secrets".into());
            }
            5 => {
                b.k = secp::to_be(&secp::nneg(&secp::from_be(&a.k)));
                what.push("key negated".into());
            }
            _ => {
                b.a = gen::attrs(r, 255);
                if r.chance(1, 2) {
                    b.a.cc = a.a.cc;
                }
                what.push("public fields".into());
            }
        }
    }
    if !secp::valid_sk(&secp::from_be(&b.k)) {
        b.k = a.k;
    }
    (b, what.join(", "))
}
fn case<K: k::PrivateKey>(m: &mut Mon, r: &mut Rng, name: &str) -> R {
    let a = gen::prv(r, 255);
    let (b, what) = related(r, &a);
    let t = |x: &Prv| b32::text(0x0488ade4, &x.a, &x.key_bytes()).parse::<k::ExtendedPrivateKey<K>>().map_err(|e| format!("{e:?}"));
    let (x, y) = (lib(|| t(&a))??, lib(|| t(&b))??);
    let (x, y) = (Box::new(x), if r.chance(1, 10) && a == b { None } else { Some(Box::new(y)) });
    for way in 0..3 {
        let hidden = *r.pick(&[15u64, 15, 15, 5, 10, 3, 12]);
        let y = y.as_ref().unwrap_or(&x);
        let (same, cost) = lib(|| compare(&x, y, way, hidden))?;
        m.eval();
        ensure!(
            cost == 0,
            "comparing two private keys ({name}) by {} took {cost} branches or addresses depending on their secrets (the keys differ in: {}); keys {} and {}, attributes {:?} and {:?}",
            WAYS[way],
            if what.is_empty() { "nothing" } else { &what },
            hex(&a.k),
            hex(&b.k),
            a.a,
            b.a
        );
        ensure_eq!(same, a == b, "the verdict of {} on keys that differ in {what:?}", WAYS[way]);
        m.count(&format!("{name} by {}: no secret-dependent branch or address", WAYS[way]));
        m.seen(format!("{a:?}{b:?}{way}{hidden}").as_bytes());
    }
    m.count(if a == b { "equal pairs" } else { "different pairs" });
    m.sample(|| format!("{name}: keys that differ in {what:?}, all three comparisons, 0 errors"));
    Ok(())
}

fn control() -> R {
    ensure!(request(0x1001, 0, 0) != 0, "not running under valgrind");
    let (a, b) = (Box::new([3u8; 32]), Box::new([3u8; 32]));
    let table = [1u8; 256];
    for way in 0..2 {
        let before = errors();
        hide(a.as_ptr(), 32);
        let mut out = 0u8;
        match way {
            0 => {
                for i in 0..32 {
                    if black_box(&a)[i] != black_box(&b)[i] {
                        black_box(&mut out);
                        break;
                    }
                }
            }
            _ => out = black_box(&table)[black_box(&a)[5] as usize],
        }
        black_box(&mut out);
        show(a.as_ptr(), 32);
        show(&out, 1);
        ensure!(errors() > before, "control {way}: a secret-dependent {} went unnoticed", ["branch", "address"][way]);
    }
    Ok(())
}
pub fn c20(env: &'static Env) {
    env.rule("Comparisons of private keys (==, !=, ct_eq; three key types) run under memcheck with the private key and chain code bytes of one or both keys undefined; memcheck counts every conditional branch and address computed from them. Non-trivial: a distinct (pair of keys, comparison, hidden parts) run with the count read before and after.");
    env.assume("machine code of the shipped build (opt-level 3, no assertions) on this compiler; secret-dependent instruction latencies are out of scope");
    if let Err(e) = control() {
        eprintln!("{e}");
        std::process::exit(2);
    }
    env.with("control", |m| m.count_n("control: secret-dependent branch and address noticed", 2));
    env.phase_t("compare", env.n(2_400, 60_000), 1, |m, r, i| match i % 3 {
        0 => case::<libsecp256k1::SecretKey>(m, r, "built-in key type"),
        1 => case::<Moody>(m, r, "wrapped key type"),
        _ => case::<Raw>(m, r, "byte-array key type"),
    });
}

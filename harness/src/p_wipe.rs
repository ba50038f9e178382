//! C15: what is left in a secret's memory when its owner is gone. Buffers are watched by the process's allocator, which
//! records at the moment of release (before the memory can be reused) how many of their bytes are not zero.
use crate::alloc::{scanned, watch, Fate, Watch};
use crate::ensure;
use crate::gen;
use crate::mon::{lib, Env, Mon, R};
use crate::oracle::bip32::{self as b32};
use crate::oracle::bip39::{self as o, lists};
use crate::rng::Rng;
use kms::bip32 as k;
use kms::bip39::{Mnemonic, MnemonicType, Seed};
use std::collections::BTreeMap;
use std::mem::MaybeUninit;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::Arc;
use zeroize::Zeroizing;

/// An owner of secret memory that can be made, used and dropped in every way safe code allows.
trait Owner: Clone + Send + Sync + 'static {
    const NAME: &'static str;
    fn make(r: &mut Rng) -> Self;
    /// The memory that holds the secret, by name.
    fn secrets(&self) -> Vec<(&'static str, &[u8])>;
    /// Anything a user may do with it while it is alive.
    fn using(&self, r: &mut Rng);
    /// The memory that passing it by value does not move.
    fn passed(&self, w: Vec<(&'static str, Watch)>) -> Vec<(&'static str, Watch)> {
        w
    }
    /// Calls that take it by value.
    fn consume(self, r: &mut Rng, w: Vec<(&'static str, Watch)>) -> Result<Vec<(&'static str, Watch)>, String>;
}

fn mnemonic(r: &mut Rng) -> Mnemonic {
    let l = r.idx(2);
    let lang = lists()[l].lang;
    match r.below(4) {
        0 => Mnemonic::new(*r.pick(&[MnemonicType::Words12, MnemonicType::Words15, MnemonicType::Words18, MnemonicType::Words21, MnemonicType::Words24]), lang),
        1 => Mnemonic::from_entropy(&dense(r, 16), lang).unwrap(),
        2 => {
            let n = *r.pick(&o::SIZES);
            Mnemonic::from_entropy(&dense(r, n), lang).unwrap()
        }
        _ => {
            let n = *r.pick(&o::SIZES);
            let mut s = o::sentence(&dense(r, n), l);
            if r.chance(1, 2) {
                let ws = *r.pick(&gen::WS);
                s = s.replacen(' ', ws, r.range(1, 30)) + ws;
            }
            Mnemonic::from_phrase(&s, lang).unwrap()
        }
    }
}
/// Bytes none of which is zero, so that every byte left behind shows.
fn dense(r: &mut Rng, n: usize) -> Vec<u8> {
    (0..n).map(|_| r.range(1, 255) as u8).collect()
}
fn dense32(r: &mut Rng) -> [u8; 32] {
    let mut k: [u8; 32] = dense(r, 32).try_into().unwrap();
    k[0] = k[0].min(0xfe); // below the group order
    k
}

/// Leaves out memory inside the object itself: passing the object by value moves it elsewhere.
fn outside<T>(x: &T, w: Vec<(&'static str, Watch)>) -> Vec<(&'static str, Watch)> {
    let a = x as *const T as usize;
    w.into_iter().filter(|(_, k)| k.addr() < a || k.addr() >= a + std::mem::size_of::<T>()).collect()
}

impl Owner for Box<Mnemonic> {
    fn passed(&self, w: Vec<(&'static str, Watch)>) -> Vec<(&'static str, Watch)> {
        outside(&**self, w)
    }
    const NAME: &'static str = "mnemonic";
    fn make(r: &mut Rng) -> Self {
        Box::new(mnemonic(r))
    }
    fn secrets(&self) -> Vec<(&'static str, &[u8])> {
        vec![("phrase", self.phrase().as_bytes()), ("entropy", self.entropy())]
    }
    fn using(&self, r: &mut Rng) {
        match r.below(4) {
            0 => {
                let x = &**self;
                drop((format!("{x}{x:?}{x:x}{x:#X}"), x.as_bytes()))
            }
            1 => drop(Seed::new(self, "p")),
            2 => drop(Mnemonic::from_phrase(self.phrase(), self.language()).unwrap()),
            _ => (),
        }
    }
    fn consume(self, r: &mut Rng, w: Vec<(&'static str, Watch)>) -> Result<Vec<(&'static str, Watch)>, String> {
        let w = self.passed(w);
        let want = self.phrase().to_string();
        let how = r.chance(1, 2);
        let (got, hits) = scanned(want.as_bytes(), || if how { (*self).into_phrase() } else { String::from(*self) });
        ensure!(hits == 0, "converting a mnemonic into its phrase released memory with the phrase in it");
        ensure!(got == want, "converting a mnemonic of {} bytes into its phrase gave {got:?}", want.len());
        let mut rest = vec![];
        for (n, x) in w {
            if n == "phrase" && x.fate() == Fate::Held {
                // handed over: from here the caller owns the memory
                ensure!(x.addr() == got.as_ptr() as usize, "the phrase's old memory is neither released nor handed over");
                continue;
            }
            rest.push((n, x));
        }
        Ok(rest)
    }
}
impl Owner for Box<Seed> {
    fn passed(&self, w: Vec<(&'static str, Watch)>) -> Vec<(&'static str, Watch)> {
        outside(&**self, w)
    }
    const NAME: &'static str = "seed";
    fn make(r: &mut Rng) -> Self {
        let m = mnemonic(r);
        Box::new(Seed::new(&m, &gen::passphrase(r)))
    }
    fn secrets(&self) -> Vec<(&'static str, &[u8])> {
        vec![("seed bytes", self.as_bytes())]
    }
    fn using(&self, r: &mut Rng) {
        match r.below(3) {
            0 => {
                let x = &**self;
                drop(format!("{x:?}{x:x}{x:#X}"))
            }
            1 => drop(k::XPrv::new(self.as_bytes())),
            _ => (),
        }
    }
    fn consume(self, r: &mut Rng, w: Vec<(&'static str, Watch)>) -> Result<Vec<(&'static str, Watch)>, String> {
        let w = self.passed(w);
        let want = self.as_bytes().to_vec();
        let n = r.range(0, 4);
        let p: Vec<u32> = gen::steps(r, n);
        let (p, how) = (gen::lib_path(&p), r.below(3));
        let (_, hits) = scanned(&want, || match how {
            0 => drop(k::XPrv::new(*self)),
            1 => drop(k::XPrv::new_from_path(*self, &p)),
            _ => drop(k::ExtendedPrivateKey::<Sour>::new(*self)),
        });
        ensure!(hits == 0, "master key generation released memory with the seed in it");
        Ok(w)
    }
}
/// A key type that refuses every key, or panics.
#[derive(Clone)]
struct Sour;
#[derive(Clone, Debug, PartialEq, Eq)]
struct SourPub;
impl k::PrivateKey for Sour {
    type PublicKey = SourPub;
    fn from_bytes(b: &[u8; 32]) -> k::Result<Self> {
        if b[0] % 2 == 0 {
            panic!("sour key")
        }
        Err(k::Error::Crypto)
    }
    fn to_bytes(&self) -> [u8; 32] {
        [1; 32]
    }
    fn derive_child(&self, _: [u8; 32]) -> k::Result<Self> {
        Err(k::Error::Crypto)
    }
    fn public_key(&self) -> SourPub {
        SourPub
    }
}
impl k::PublicKey for SourPub {
    fn from_bytes(_: [u8; 33]) -> k::Result<Self> {
        Err(k::Error::Crypto)
    }
    fn to_bytes(&self) -> [u8; 33] {
        [2; 33]
    }
    fn derive_child(&self, _: [u8; 32]) -> k::Result<Self> {
        Err(k::Error::Crypto)
    }
}

fn xprv(r: &mut Rng) -> k::XPrv {
    let mut x = gen::prv(r, 255);
    x.k = dense32(r);
    gen::lib_prv(&x).unwrap()
}
#[derive(Clone)]
struct KeyText(Zeroizing<String>);
impl Owner for KeyText {
    const NAME: &'static str = "private-key text";
    fn make(r: &mut Rng) -> Self {
        let p = prefix(r);
        KeyText(xprv(r).to_string(p))
    }
    fn secrets(&self) -> Vec<(&'static str, &[u8])> {
        vec![("key text", self.0.as_bytes())]
    }
    fn using(&self, r: &mut Rng) {
        match r.below(3) {
            0 => drop(self.0.parse::<k::XPrv>()),
            1 => drop(self.0.parse::<k::ExtendedKey>()),
            _ => (),
        }
    }
    fn consume(self, r: &mut Rng, w: Vec<(&'static str, Watch)>) -> Result<Vec<(&'static str, Watch)>, String> {
        // nothing in the library takes it by value; its making must not leave the text behind either
        let (x, p) = (xprv(r), prefix(r));
        let want = x.to_string(p);
        let (same, hits) = scanned(want.as_bytes(), || x.to_string(p) == want);
        ensure!(same, "printing a key twice gave two texts");
        ensure!(hits == 0, "making and dropping a private-key text released memory with the text in it");
        Ok(w)
    }
}
fn prefix(r: &mut Rng) -> k::Prefix {
    match r.below(5) {
        0 | 1 => *r.pick(&gen::PRV_PREFIX),
        2 => *r.pick(&gen::PUB_PREFIX),
        3 => k::Prefix::from_parts_unchecked("ABcd", r.u32()),
        _ => k::Prefix::XPRV,
    }
}
impl Owner for Box<k::ExtendedKey> {
    const NAME: &'static str = "extended-key object";
    fn make(r: &mut Rng) -> Self {
        extended(r)
    }
    fn secrets(&self) -> Vec<(&'static str, &[u8])> {
        vec![("key bytes", &self.key_bytes)]
    }
    fn using(&self, r: &mut Rng) {
        use_extended(self, r)
    }
    fn consume(self, r: &mut Rng, w: Vec<(&'static str, Watch)>) -> Result<Vec<(&'static str, Watch)>, String> {
        // by-value conversion moves the object out of its box, which is the caller's move; a clone is converted
        let copy = (*self).clone();
        if r.chance(1, 2) {
            drop(k::XPrv::try_from(copy));
        } else {
            drop(k::XPub::try_from(copy));
        }
        Ok(w)
    }
}
fn extended(r: &mut Rng) -> Box<k::ExtendedKey> {
    match r.below(5) {
        0 => {
            let p = prefix(r);
            Box::new(xprv(r).to_extended_key(p))
        }
        1 => Box::new(xprv(r).public_key().to_extended_key(*r.pick(&gen::PUB_PREFIX))),
        2 | 3 => {
            let mut x = gen::prv(r, 255);
            x.k = dense32(r);
            let (_, v, is_prv) = *r.pick(&gen::VERSIONS);
            let kb = if is_prv || r.chance(1, 3) { x.key_bytes() } else { dense(r, 33).try_into().unwrap() };
            Box::new(b32::text(v, &x.a, &kb).parse().unwrap())
        }
        _ => {
            let a = gen::attrs(r, 255);
            Box::new(k::ExtendedKey { prefix: prefix(r), attrs: gen::lib_attrs(&a), key_bytes: dense(r, 33).try_into().unwrap() })
        }
    }
}
fn use_extended(e: &k::ExtendedKey, r: &mut Rng) {
    match r.below(4) {
        0 => drop(e.to_string()),
        1 => drop(e.write_base58(&mut [0; k::ExtendedKey::MAX_BASE58_SIZE]).map(|s| s.len())),
        2 => drop(e.clone()),
        _ => (),
    }
}

fn watched<T: Owner>(x: &T) -> Vec<(&'static str, Watch)> {
    x.secrets().into_iter().map(|(n, b)| (n, watch(b))).collect()
}
fn intact<T: Owner>(x: &T, want: &[Vec<u8>], route: &str) -> R {
    let got: Vec<Vec<u8>> = x.secrets().iter().map(|s| s.1.to_vec()).collect();
    ensure!(got == want, "{} still alive after \"{route}\" changed", T::NAME);
    Ok(())
}
fn gone<T: Owner>(m: &mut Mon, w: &[(&'static str, Watch)], route: &str) -> R {
    for (n, x) in w {
        m.eval();
        match x.fate() {
            Fate::Clean => m.count(&format!("{} {n}: released all zero", T::NAME)),
            Fate::Dirty(b) => return Err(format!("{} released with {b} of {} bytes of its {n} in memory; route: {route}", T::NAME, x.len())),
            Fate::Held => {
                // never given back to the allocator: it has to be wiped all the same
                let b = x.dirty_now();
                ensure!(b == 0, "{} gone with {b} of {} bytes of its {n} still in memory that was never released; route: {route}", T::NAME, x.len());
                m.count(&format!("{} {n}: kept, all zero", T::NAME));
            }
        }
    }
    Ok(())
}
struct Trip(u8);
impl Drop for Trip {
    fn drop(&mut self) {
        std::hint::black_box(self.0);
    }
}
thread_local! {
    static PARK: std::cell::RefCell<Vec<Box<dyn std::any::Any>>> = const { std::cell::RefCell::new(vec![]) };
}

const ROUTES: u64 = 24;
fn go<T: Owner>(m: &mut Mon, r: &mut Rng, route: u64) -> R {
    let made = lib(|| T::make(r));
    let x = made?;
    let want: Vec<Vec<u8>> = x.secrets().iter().map(|s| s.1.to_vec()).collect();
    let mut key = want.concat();
    key.extend(route.to_le_bytes());
    m.seen(&key);
    m.sample(|| format!("{} of {} secret bytes, route {route}", T::NAME, want.concat().len()));
    let w = watched(&x);
    for _ in 0..r.below(3) {
        lib(|| x.using(r))?;
    }
    intact(&x, &want, "use")?;
    let mut name = "";
    let mut rest: Vec<(&'static str, Watch)> = vec![];
    let mut w = Some(w);
    let body = lib(|| -> R {
        match route {
            0 => {
                name = "end of scope";
                drop(x);
            }
            1 => {
                name = "original dropped before its clone";
                let y = x.clone();
                rest = watched(&y);
                drop(x);
                intact(&y, &want, name)?;
                y.using(r);
                drop(y);
            }
            2 => {
                name = "clone dropped before its original";
                let y = x.clone();
                rest = watched(&y);
                drop(y);
                intact(&x, &want, name)?;
                drop(x);
            }
            3 => {
                name = "moved to another thread";
                std::thread::spawn(move || drop(x)).join().unwrap();
            }
            4 => {
                name = "last share dropped on another thread";
                let a = Arc::new(x);
                let b = a.clone();
                let seed = r.u64();
                let t = std::thread::spawn(move || {
                    b.using(&mut Rng::new(seed, "wipe", 0));
                    drop(b)
                });
                if r.chance(1, 2) {
                    drop(a);
                    t.join().unwrap();
                } else {
                    t.join().unwrap();
                    drop(a);
                }
            }
            5 => {
                name = "unwinding";
                let _ = catch_unwind(AssertUnwindSafe(move || {
                    let _t = Trip(1);
                    let _x = x;
                    panic!("unwinding");
                }));
            }
            6 => {
                name = "unwinding on another thread";
                let _ = std::thread::spawn(move || {
                    crate::mon::quiet();
                    let _x = vec![x];
                    panic!("unwinding");
                })
                .join();
            }
            7 => {
                name = "assigned over";
                let mut v = x;
                v = std::hint::black_box(T::make(r));
                rest = watched(&v);
                drop(v);
            }
            8 => {
                name = "assigned over by its own clone";
                let mut v = x;
                let c = v.clone();
                v = c;
                intact(&v, &want, name)?;
                rest = watched(&v);
                drop(v);
            }
            9 => {
                name = "clone_from";
                let mut v = x;
                let other = T::make(r);
                let ow: Vec<Vec<u8>> = other.secrets().iter().map(|s| s.1.to_vec()).collect();
                v.clone_from(&other);
                intact(&v, &ow, name)?;
                drop(other);
                intact(&v, &ow, name)?;
                rest = watched(&v);
                // reusing the buffer for the new content is as good as wiping it
                w = Some(w.take().unwrap().into_iter().filter(|(_, k)| !rest.iter().any(|(_, n)| n.addr() == k.addr())).collect());
                drop(v);
            }
            10 => {
                name = "mem::replace";
                let mut v = x;
                let old = std::mem::replace(&mut v, T::make(r));
                intact(&old, &want, name)?;
                rest = watched(&v);
                if r.chance(1, 2) {
                    drop(v);
                    drop(old);
                } else {
                    drop(old);
                    drop(v);
                }
            }
            11 => {
                name = "Option::take";
                let mut v = Some(x);
                v.as_ref().unwrap().using(r);
                drop(v.take());
            }
            12 => {
                name = "Vec::clear";
                let mut v: Vec<T> = vec![];
                let others = r.range(0, 4);
                for _ in 0..others {
                    v.push(T::make(r));
                }
                let at = r.idx(v.len() + 1);
                v.insert(at, x);
                rest = v.iter().enumerate().filter(|(i, _)| *i != at).flat_map(|(_, y)| watched(y)).collect();
                v.clear();
                std::hint::black_box(&v);
            }
            13 => {
                name = "Vec::truncate, swap_remove, retain";
                let mut v = vec![T::make(r), x, T::make(r)];
                rest = [0, 2].iter().flat_map(|i| watched(&v[*i])).collect();
                match r.below(3) {
                    0 => v.truncate(1),
                    1 => drop(v.swap_remove(1)),
                    _ => {
                        let mut i = 0;
                        v.retain(|_| {
                            i += 1;
                            i != 2
                        });
                    }
                }
                gone::<T>(m, &w.take().unwrap(), name)?;
                drop(v);
            }
            14 => {
                name = "map entry replaced, removed";
                let mut v = BTreeMap::new();
                v.insert(1, x);
                let y = T::make(r);
                rest = watched(&y);
                v.insert(1, y);
                gone::<T>(m, &w.take().unwrap(), name)?;
                v.remove(&1);
            }
            15 => {
                name = "dropped in place";
                let mut b = Box::new(MaybeUninit::new(x));
                unsafe { std::ptr::drop_in_place(b.as_mut_ptr()) };
                gone::<T>(m, &w.take().unwrap(), name)?;
                std::hint::black_box(&b);
            }
            16 => {
                name = "shared within a thread";
                let a = Rc::new(x);
                let b = a.clone();
                drop(a);
                intact(&*b, &want, name)?;
                drop(b);
            }
            17 => {
                name = "thread-local destroyed with its thread";
                let (how, seed) = (r.below(4), r.u64());
                let t = std::thread::spawn(move || {
                    crate::mon::quiet();
                    let mut r = Rng::new(seed, "park", 0);
                    // others live and die on the thread before, between or after, so that whatever the library keeps
                    // per thread may go before or after the parked value does
                    let other = |r: &mut Rng| {
                        let y = T::make(r);
                        y.using(r);
                        let w = watched(&y);
                        drop(y);
                        w
                    };
                    let mut ws = vec![];
                    if how == 1 {
                        ws.extend(other(&mut r));
                    }
                    PARK.with(|p| p.borrow_mut().push(Box::new(x)));
                    if how >= 2 {
                        ws.extend(other(&mut r));
                    }
                    if how == 3 {
                        let y = T::make(&mut r);
                        ws.extend(watched(&y));
                        PARK.with(|p| p.borrow_mut().push(Box::new(y)));
                    }
                    ws
                });
                rest = t.join().unwrap();
            }
            18 => {
                name = "returned in an error";
                let f = |x: T| -> Result<(), (T, &'static str)> { Err((x, "no")) };
                let e = f(x);
                ensure!(e.is_err(), "impossible");
                drop(e);
            }
            19 => {
                name = "captured by a closure";
                let f = move || x.secrets().len();
                std::hint::black_box(f());
                drop(f);
            }
            20 => {
                name = "many clones";
                let n = r.range(2, 12);
                let mut v: Vec<T> = (0..n).map(|_| x.clone()).collect();
                rest = v.iter().flat_map(watched).collect();
                v.push(x);
                while !v.is_empty() {
                    let i = r.idx(v.len());
                    drop(v.swap_remove(i));
                    for y in &v {
                        intact(y, &want, name)?;
                    }
                }
            }
            21 => {
                name = "leaked box reclaimed";
                let p = Box::into_raw(Box::new(x));
                drop(unsafe { Box::from_raw(p) });
            }
            _ => {
                name = "taken by value by a library call";
                // a key type that panics is one way for the call to end
                let ws = w.take().unwrap();
                let keep: Vec<(&'static str, Watch)> = x.passed(ws.iter().map(|(n, k)| (*n, k.again())).collect());
                match catch_unwind(AssertUnwindSafe(|| x.consume(r, ws))) {
                    Ok(v) => w = Some(v?),
                    Err(_) => w = Some(keep),
                }
            }
        }
        Ok(())
    });
    body??;
    if let Some(w) = w {
        gone::<T>(m, &w, name)?;
    }
    gone::<T>(m, &rest, name)?;
    m.count(&format!("route: {name}"));
    Ok(())
}

/// Serialised key objects where they lie: in vectors, arrays and structs.
fn in_place(m: &mut Mon, r: &mut Rng) -> R {
    let n = r.range(1, 5);
    let mut v: Vec<k::ExtendedKey> = lib(|| (0..n).map(|_| *extended(r)).collect())?;
    // the elements' final places, watched once nothing moves any more
    let w: Vec<(&'static str, Watch)> = v.iter().map(|e| ("key bytes", watch(&e.key_bytes))).collect();
    m.seen(&v.iter().flat_map(|e| e.key_bytes).collect::<Vec<u8>>());
    let how = r.below(4);
    let name = ["vector truncated", "vector dropped", "element assigned over", "element swapped out"][how as usize];
    lib(|| -> R {
        match how {
            0 => {
                let keep = r.idx(n);
                v.truncate(keep);
                for (i, (_, k)) in w.iter().enumerate() {
                    if i >= keep {
                        m.eval();
                        ensure!(k.dirty_now() == 0, "an extended key truncated from a vector left {} key bytes in place", k.dirty_now());
                    }
                }
                drop(v);
            }
            1 => drop(v),
            2 => {
                let i = r.idx(n);
                let mut e = extended(r);
                e.key_bytes = [0; 33];
                v[i] = *e;
                m.eval();
                ensure!(w[i].1.dirty_now() == 0, "impossible");
                drop(v);
            }
            _ => {
                let i = r.idx(n);
                let old = std::mem::replace(&mut v[i], *extended(r));
                let b = Box::new(old);
                let k = watch(&b.key_bytes);
                drop(b);
                gone::<Box<k::ExtendedKey>>(m, &[("key bytes", k)], name)?;
                drop(v);
            }
        }
        Ok(())
    })??;
    gone::<Box<k::ExtendedKey>>(m, &w, name)?;
    m.count(&format!("route: {name}"));
    Ok(())
}

/// An original and its clone dropped at the same moment on two threads, over and over.
fn together<T: Owner>(m: &mut Mon, r: &mut Rng, rounds: u64) -> R {
    use std::sync::atomic::{AtomicU64, Ordering::*};
    use std::sync::Mutex;
    let hand: Mutex<Option<T>> = Mutex::new(None);
    let (turn, ready, done) = (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
    let wait = |a: &AtomicU64, n: u64| {
        let mut spins = 0u64;
        while a.load(Acquire) < n {
            spins += 1;
            if spins > 1 << 16 {
                std::thread::yield_now()
            } else {
                std::hint::spin_loop()
            }
        }
    };
    const OVER: u64 = u64::MAX;
    std::thread::scope(|s| {
        s.spawn(|| {
            crate::mon::quiet();
            let mut n = 0;
            loop {
                n += 1;
                // 3n-2: handed over, 3n-1: go
                wait(&turn, 3 * n - 2);
                if turn.load(Acquire) == OVER {
                    return;
                }
                let x = hand.lock().unwrap().take();
                ready.store(n, Release);
                wait(&turn, 3 * n - 1);
                let _ = catch_unwind(AssertUnwindSafe(|| drop(x)));
                done.store(n, Release);
            }
        });
        let mut go = || -> R {
            for n in 1..=rounds {
                let x = lib(|| T::make(r))?;
                let y = lib(|| x.clone())?;
                let (wx, wy) = (watched(&x), watched(&y));
                let key = x.secrets().iter().map(|s| s.1.to_vec()).collect::<Vec<_>>().concat();
                m.seen(&key);
                *hand.lock().unwrap() = Some(y);
                turn.store(3 * n - 2, Release);
                wait(&ready, n);
                let late = r.below(64);
                turn.store(3 * n - 1, Release);
                for _ in 0..late {
                    std::hint::spin_loop()
                }
                lib(|| drop(x))?;
                wait(&done, n);
                gone::<T>(m, &wx, "dropped together with its clone on another thread")?;
                gone::<T>(m, &wy, "dropped together with its original on another thread")?;
                m.count(&format!("{}: dropped on two threads at once", T::NAME));
            }
            Ok(())
        };
        let e = go();
        turn.store(OVER, Release);
        e
    })
}

/// The monitor must see a buffer that is not wiped, and one that is.
fn control() -> R {
    let v = vec![7u8; 40];
    let w = watch(&v);
    drop(v);
    ensure!(w.fate() == Fate::Dirty(40), "control: an unwiped buffer reads {:?}", w.fate());
    let v = Zeroizing::new(vec![7u8; 40]);
    let w = watch(&v);
    drop(v);
    ensure!(w.fate() == Fate::Clean, "control: a wiped buffer reads {:?}", w.fate());
    Ok(())
}

pub fn c15(env: &'static Env) {
    env.rule("Owners of secrets (mnemonics, seeds, private-key texts, extended-key objects) made in every way the library offers, used, and dropped by every route; the process's allocator checks each watched secret buffer at the moment of its release. Non-trivial: a distinct (secret content, route).");
    env.assume("only the memory of the owning objects is judged, at release; transient copies made while computing, and the bytes a Rust move leaves behind, are not");
    if let Err(e) = control() {
        eprintln!("{e}");
        std::process::exit(2);
    }
    let n = env.n(160_000, 4_000_000);
    env.phase("wipe", n, |m, r, i| {
        let route = (i / 4) % ROUTES;
        match i % 4 {
            0 => go::<Box<Mnemonic>>(m, r, route),
            1 => go::<Box<Seed>>(m, r, route),
            2 => go::<KeyText>(m, r, route),
            _ => go::<Box<k::ExtendedKey>>(m, r, route),
        }
    });
    env.phase("in-place", n / 4, |m, r, _| in_place(m, r));
    let rounds = env.n(1, 10);
    env.phase_t("together", 48, 4, |m, r, i| match i % 4 {
        0 => together::<Box<Mnemonic>>(m, r, rounds * 4000),
        1 => together::<Box<Seed>>(m, r, rounds * 1500),
        2 => together::<KeyText>(m, r, rounds * 4000),
        _ => together::<Box<k::ExtendedKey>>(m, r, rounds * 4000),
    });
}

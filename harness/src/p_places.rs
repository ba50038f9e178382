//! C21: the same calls made from unusual places (while a thread unwinds or ends, from caller code the library is
//! running, in a forked process) and on arguments that take the place of others in memory.
use crate::gen;
use crate::mon::{lib, Env, Mon, R};
use crate::oracle::bip32::{self as b32};
use crate::oracle::bip39::{self as o, lists};
use crate::oracle::{hash, hex, secp};
use crate::p_bip39::check_mnemonic;
use crate::rng::Rng;
use crate::spec::{self, Callback, Moody, Pool};
use crate::ensure;
use kms::bip32 as k;
use kms::bip39::{Mnemonic, Seed};
use std::cell::RefCell;
use std::fmt::Write;
use std::sync::mpsc::{channel, Sender};

type Did = Vec<(u64, String)>;

/// Makes its calls when it is dropped.
struct Late {
    pool: &'static Pool,
    ids: Vec<u64>,
    to: Sender<Did>,
}
impl Drop for Late {
    fn drop(&mut self) {
        let out = self.ids.iter().map(|i| (*i, spec::run(self.pool, *i).1)).collect();
        let _ = self.to.send(out);
    }
}
thread_local! {
    static FIRST: RefCell<Option<Late>> = const { RefCell::new(None) };
    static LAST: RefCell<Option<Late>> = const { RefCell::new(None) };
}
/// In destructors, while a panic unwinds the thread.
fn unwinding(pool: &'static Pool, ids: &[u64]) -> Did {
    let (to, from) = channel();
    let l = Late { pool, ids: ids.to_vec(), to };
    let _ = lib(|| {
        let _l = l;
        panic!("unwind")
    });
    from.recv().unwrap_or_default()
}
/// In destructors of thread-local values, before and after those of anything the library keeps per thread.
fn ending(pool: &'static Pool, ids: &[u64]) -> Result<Did, String> {
    let (to, from) = channel();
    let ids: Vec<u64> = ids.to_vec();
    let third = ids.len() / 3;
    let (a, b, c) = (ids[..third].to_vec(), ids[third..2 * third].to_vec(), ids[2 * third..].to_vec());
    // a thread with a name a program might give it
    let name = ["main", "worker-1", "kms", ""][ids.len() % 4];
    std::thread::Builder::new().name(name.into()).spawn(move || {
        crate::mon::quiet();
        FIRST.with(|f| *f.borrow_mut() = Some(Late { pool, ids: b, to: to.clone() }));
        let now = a.iter().map(|i| (*i, spec::run(pool, *i).1)).collect();
        let _ = to.send(now);
        LAST.with(|f| *f.borrow_mut() = Some(Late { pool, ids: c, to }));
    })
    .map_err(|e| e.to_string())?
    .join()
    .map_err(|_| "a thread ended by a panic".to_string())?;
    Ok(from.iter().flatten().collect())
}
struct Talkative(String);
impl Write for Talkative {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        spec::inside();
        self.0.push_str(s);
        Ok(())
    }
}
/// From the caller's code, while the library runs it: writers, iterators, arguments, key types.
fn nested(pool: &'static Pool, r: &mut Rng, ids: &[u64], m: &mut Mon) -> Result<Did, String> {
    let mut all: Did = vec![];
    let mut todo: Vec<u64> = ids.to_vec();
    let mut n = 0;
    while !todo.is_empty() && n < 12 {
        n += 1;
        let take = r.range(1, 4).min(todo.len());
        let inner = todo.split_off(todo.len() - take);
        let how = r.below(10);
        let (x, q) = (pool.prv(r), r.pick(&pool.paths[..11]).clone());
        let (e, l) = (r.pick(&pool.ents).clone(), r.idx(2));
        let (res, did) = spec::with_calls_inside(pool, inner.clone(), || -> R {
            let mut w = Talkative(String::new());
            let key = || gen::lib_prv(&x).map_err(|e| format!("{x:x?}: {e:?}"));
            match how {
                0 => {
                    let mn = lib(|| Mnemonic::from_entropy(&e, lists()[l].lang))?.map_err(|x| x.to_string())?;
                    lib(|| write!(w, "{mn}{mn}"))?.map_err(|e| e.to_string())?;
                    let s = o::sentence(&e, l);
                    ensure!(w.0 == format!("{s}{s}"), "printing {} into a writer that calls the library gives {:?}", hex(&e), w.0);
                }
                1 => {
                    let mn = lib(|| Mnemonic::from_entropy(&e, lists()[l].lang))?.map_err(|x| x.to_string())?;
                    lib(|| write!(w, "{mn:x} {mn:#X} {mn:?}"))?.map_err(|e| e.to_string())?;
                    ensure!(w.0 == format!("{mn:x} {mn:#X} {mn:?}"), "renderings into a writer that calls the library: {:?}", w.0);
                    let sd = lib(|| Seed::new(&mn, "x"))?;
                    let mut w = Talkative(String::new());
                    lib(|| write!(w, "{sd:x} {sd:#X}"))?.map_err(|e| e.to_string())?;
                    ensure!(w.0 == format!("{sd:x} {sd:#X}"), "seed renderings into a writer that calls the library: {:?}", w.0);
                }
                2 => {
                    let p = lib(|| gen::lib_path(&q))?;
                    lib(|| write!(w, "{p}"))?.map_err(|e| e.to_string())?;
                    ensure!(w.0 == b32::show_path(&q), "path {q:x?} prints into a writer that calls the library as {:?}", w.0);
                }
                3 => {
                    let y = lib(key)??;
                    let ek = lib(|| y.to_extended_key(k::Prefix::XPRV))?;
                    lib(|| write!(w, "{ek}{y:?}"))?.map_err(|e| e.to_string())?;
                    let t = b32::text(k::Prefix::XPRV.version(), &x.a, &x.key_bytes());
                    ensure!(w.0 == format!("{t}{y:?}"), "{x:x?} prints into a writer that calls the library as {:?}", w.0);
                }
                4 => {
                    let mut p = lib(|| gen::lib_path(&q))?;
                    let add: Vec<u32> = (0..r.range(1, 5)).map(|_| *r.pick(&pool.idx)).collect();
                    lib(|| {
                        p.extend(add.iter().map(|c| {
                            spec::inside();
                            k::ChildNumber(*c)
                        }))
                    })?;
                    let want: Vec<u32> = q.iter().chain(&add).copied().collect();
                    ensure!(p.iter().map(|c| c.0).eq(want.iter().copied()), "extending {q:x?} by {add:x?} from an iterator that calls the library gives {p}");
                }
                5 => {
                    let s = r.pick(&pool.seeds).clone();
                    let got = lib(|| k::XPrv::new(Callback(&s, 0, Default::default())))?;
                    ensure!(got.as_ref().map(gen::model_prv).map_err(|_| ()) == b32::master(&s).map_err(|_| ()), "master of {} through an argument that calls the library: {got:?}", hex(&s));
                    let got = lib(|| k::XPrv::new_from_path(Callback(&s, 0, Default::default()), &gen::lib_path(&q)))?;
                    ensure!(got.as_ref().map(gen::model_prv).map_err(|_| ()) == b32::master(&s).and_then(|x| x.path(&q)).map_err(|_| ()), "path {q:x?} of {} through an argument that calls the library: {got:?}", hex(&s));
                }
                6 | 7 => {
                    let t = b32::text(0x0488ade4, &x.a, &x.key_bytes());
                    let y: k::Result<k::ExtendedPrivateKey<Moody>> = lib(|| t.parse())?;
                    let z = lib(|| y.and_then(|y| y.derive_from_path(&gen::lib_path(&q))))?;
                    let want = x.path(&q);
                    match (&z, &want) {
                        (Ok(a), Ok(b)) => ensure!(spec::show_attrs(a.attrs()) == spec::show_attrs(&gen::lib_attrs(&b.a)) && a.to_bytes()[..] == b.k, "path {q:x?} of {x:x?} over a key type that calls the library"),
                        (Err(_), Err(_)) => (),
                        _ => return Err(format!("path {q:x?} of {x:x?} over a key type that calls the library: {}", z.is_ok())),
                    }
                }
                8 => {
                    let y = lib(key)??;
                    let soft: Vec<u32> = q.iter().map(|c| c & 0x7fff_ffff).collect();
                    let t = b32::text(0x0488b21e, &x.a, &secp::pubkey(&x.k).unwrap());
                    let p: k::Result<k::ExtendedPublicKey<spec::MoodyPub>> = lib(|| t.parse())?;
                    let z = lib(|| p.and_then(|p| p.derive_from_path(&gen::lib_path(&soft))))?;
                    let want = lib(|| y.public_key().derive_from_path(&gen::lib_path(&soft)))?;
                    match (&z, &want) {
                        (Ok(a), Ok(b)) => ensure!(a.to_bytes() == b.to_bytes() && spec::show_attrs(a.attrs()) == spec::show_attrs(b.attrs()), "public path {soft:x?} of {x:x?} over a key type that calls the library"),
                        (Err(_), Err(_)) => (),
                        _ => return Err(format!("public path {soft:x?} of {x:x?} over a key type that calls the library: {}", z.is_ok())),
                    }
                }
                _ => {
                    let p: k::DerivationPath = lib(|| {
                        q.iter()
                            .map(|c| {
                                spec::inside();
                                k::ChildNumber(*c)
                            })
                            .fold(k::DerivationPath::default(), |mut p, c| {
                                p.push(c);
                                p
                            })
                    })?;
                    ensure!(p.to_string() == b32::show_path(&q), "path built beside other calls: {p}");
                }
            }
            Ok(())
        });
        res?;
        m.count_n("calls made from inside another call", did.len() as u64);
        todo.extend(&inner[..inner.len() - did.len().min(inner.len())]);
        all.extend(did);
    }
    Ok(all)
}
/// In a child of fork.
fn forked(pool: &'static Pool, ids: &[u64]) -> Result<Did, String> {
    let mut fd = [0i32; 2];
    unsafe {
        if libc::pipe(fd.as_mut_ptr()) != 0 {
            return Err("no pipe".into());
        }
        let pid = libc::fork();
        if pid == 0 {
            for i in ids {
                let s = spec::run(pool, *i).1;
                let b = [&(s.len() as u64).to_le_bytes()[..], s.as_bytes()].concat();
                let mut at = 0;
                while at < b.len() {
                    let n = libc::write(fd[1], b[at..].as_ptr() as *const _, b.len() - at);
                    if n <= 0 {
                        libc::_exit(1);
                    }
                    at += n as usize;
                }
            }
            libc::_exit(0);
        }
        libc::close(fd[1]);
        let mut f: std::fs::File = std::os::unix::io::FromRawFd::from_raw_fd(fd[0]);
        let mut b = vec![];
        let _ = std::io::Read::read_to_end(&mut f, &mut b);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        let mut out = vec![];
        let mut at = 0;
        for i in ids {
            if at + 8 > b.len() {
                return Err(format!("a forked process ended early (status {st:#x}) in call {i} of {ids:?}"));
            }
            let n = u64::from_le_bytes(b[at..at + 8].try_into().unwrap()) as usize;
            out.push((*i, String::from_utf8_lossy(&b[at + 8..(at + 8 + n).min(b.len())]).to_string()));
            at += 8 + n;
        }
        Ok(out)
    }
}

/// Arguments and objects that overwrite each other where they lie.
fn slots(m: &mut Mon, r: &mut Rng, pool: &Pool) -> R {
    let mut area = Box::new([0u8; 160]);
    let off = r.idx(8);
    let x0 = pool.prv(r);
    let mut x = lib(|| gen::lib_prv(&x0))?.map_err(|e| format!("{x0:x?}: {e:?}"))?;
    let mut y = lib(|| x.public_key())?;
    let mut text = String::with_capacity(400);
    let mut path = lib(|| gen::lib_path(&[1]))?;
    let mut mn = lib(|| Mnemonic::from_entropy(&[7; 32], lists()[0].lang))?.map_err(|e| e.to_string())?;
    let mut w = x0;
    for n in 0..24 {
        // one byte different, a swap, or something else altogether, in the same place
        let len = *r.pick(&[16usize, 20, 24, 28, 32, 32, 32, 64]);
        let b = &mut area[off..off + len];
        match r.below(4) {
            0 => b[r.idx(len)] ^= 1 << r.below(8),
            1 => b.swap(r.idx(len), r.idx(len)),
            2 => b.copy_from_slice(&r.bytes(len)),
            _ => b[len - 1] = b[len - 1].wrapping_add(1),
        }
        let b = &area[off..off + len];
        m.eval();
        match r.below(9) {
            0 if len <= 32 => {
                let l = r.idx(2);
                let got = lib(|| Mnemonic::from_entropy(b, lists()[l].lang))?.map_err(|e| format!("{}: {e}", hex(b)))?;
                check_mnemonic(&got, b, &o::sentence(b, l), l, true).map_err(|e| format!("{e} (entropy {} where another lay, step {n})", hex(b)))?;
                mn = got;
            }
            1 if len <= 32 => {
                let l = r.idx(2);
                text.clear();
                text.push_str(&o::sentence(b, l));
                let got = lib(|| Mnemonic::from_phrase(&text, lists()[l].lang))?.map_err(|e| format!("{text}: {e}"))?;
                ensure!(got.entropy() == b, "{text:?} read where another text lay gives {}", hex(got.entropy()));
                mn.clone_from(&got);
                ensure!(mn.entropy() == b && mn.phrase() == text, "a mnemonic that replaced another in place is {mn}");
                let p = text.split(' ').next().unwrap_or("");
                let s = lib(|| Seed::new(&mn, p))?;
                ensure!(s.as_bytes() == o::seed(&text, l, p), "seed of {text:?} with {p:?}, in place of another: {s:x}");
            }
            2 => {
                let got = lib(|| k::XPrv::new(b))?;
                let want = b32::master(b);
                ensure!(got.as_ref().map(gen::model_prv).map_err(|_| ()) == want.clone().map_err(|_| ()), "master of {} where another seed lay: {got:?}", hex(b));
                if let (Ok(g), Ok(v)) = (got, want) {
                    (x, w) = (g, v);
                }
            }
            3 => {
                let got = lib(|| kms::crypto::ripemd(b))?;
                let dg: [u8; 32] = hash::sha256(b);
                ensure!(got.trim_start_matches("0x") == hex(&hash::ripemd160(b)), "ripemd of {}: {got}", hex(b));
                area[off..off + 32].copy_from_slice(&dg);
                let sk = lib(|| libsecp256k1::SecretKey::from(&x))?;
                let got = lib(|| kms::ecdsa_sign(&sk, &area[off..off + 32]))?.map_err(|e| e.to_string())?;
                ensure!(got == secp::sign(&w.k, &dg), "signature of {} by {} where others lay", hex(&dg), hex(&w.k));
            }
            4 => {
                let c = *r.pick(&pool.idx);
                let got = lib(|| x.derive_child(k::ChildNumber(c)))?;
                let want = w.ckd(c);
                ensure!(got.as_ref().map(gen::model_prv).map_err(|_| ()) == want.clone().map_err(|_| ()), "child {c:x} of {w:x?} where another key lay: {got:?}");
                if let (Ok(g), Ok(v)) = (got, want) {
                    if r.chance(1, 2) {
                        (x, w) = (g, v);
                    }
                }
            }
            5 => {
                let v = pool.prv(r);
                x = lib(|| gen::lib_prv(&v))?.map_err(|e| format!("{v:x?}: {e:?}"))?;
                w = v;
                ensure!(gen::model_prv(&x) == w, "a key that replaced another in place is {x:?}");
            }
            6 => {
                y = lib(|| x.public_key())?;
                let p = w.to_pub();
                ensure!(gen::model_pub(&y) == p && y.fingerprint() == b32::fingerprint(&p.k), "public key of {w:x?} where another lay");
                let c = *r.pick(&pool.idx) & 0x7fff_ffff;
                let got = lib(|| y.derive_child(k::ChildNumber(c)))?;
                ensure!(got.as_ref().map(gen::model_pub).map_err(|_| ()) == p.ckd(c).map_err(|_| ()), "public child {c:x} of {p:x?} where another key lay: {got:?}");
            }
            7 => {
                text.clear();
                text.push_str(lib(|| x.to_string(k::Prefix::XPRV))?.as_str());
                ensure!(text == b32::text(0x0488ade4, &w.a, &w.key_bytes()), "text of {w:x?}: {text}");
                let g = lib(|| text.parse::<k::XPrv>())?.map_err(|e| format!("{text}: {e:?}"))?;
                ensure!(gen::model_prv(&g) == w, "{text} read where another text lay");
                ensure!(bool::from(subtle::ConstantTimeEq::ct_eq(&g, &x)) && g == x, "{text} read back is not equal");
            }
            _ => {
                let q = r.pick(&pool.paths[..11]).clone();
                text.clear();
                text.push_str(&b32::show_path(&q));
                path.clone_from(&lib(|| text.parse::<k::DerivationPath>())?.map_err(|e| format!("{text}: {e:?}"))?);
                let got = lib(|| x.clone().derive_from_path(&path))?;
                ensure!(got.as_ref().map(gen::model_prv).map_err(|_| ()) == w.path(&q).map_err(|_| ()), "path {text} of {w:x?} where others lay: {got:?}");
            }
        }
        m.seen(format!("{} {w:x?} {text}", hex(&area[..])).as_bytes());
    }
    drop(y);
    m.sample(|| format!("24 calls on arguments in one place, ending with {}", hex(&area[off..off + 32])));
    Ok(())
}

/// One operation, several times in a row, on arguments alike that lie in one place.
fn runs(m: &mut Mon, r: &mut Rng, pool: &Pool) -> R {
    use crate::p_alike::{like, like_attrs, like_key, Place};
    let what = r.idx(10);
    let mut here = Place::always();
    let l = r.idx(2);
    let (n, turn) = (*r.pick(&o::SIZES), r.idx(60));
    let mut b = match what {
        1 => r.bytes(32),
        2 => gen::block(r, [16, 32, 64][turn % 3]),
        3 | 4 | 5 => r.bytes(n),
        _ => gen::block(r, [20, 32, 33, 64, 65, 150][turn % 6]),
    };
    let mut p = pool.prv(r);
    let sk = lib(|| libsecp256k1::SecretKey::parse(&p.k))?.map_err(|e| format!("{}: {e:?}", hex(&p.k)))?;
    let mut x = lib(|| gen::lib_prv(&p))?.map_err(|e| format!("{p:x?}: {e:?}"))?;
    let mut y = lib(|| x.public_key())?;
    let c = *r.pick(&pool.idx);
    let mn = lib(|| Mnemonic::from_entropy(&[n as u8; 16], lists()[0].lang))?.map_err(|e| e.to_string())?;
    let base = o::sentence(&[n as u8; 16], 0);
    let mut q: Vec<u32> = (0..r.range(1, 4)).map(|_| r.below(1 << 31) as u32 | (r.u32() & 1 << 31)).collect();
    for _ in 0..if what == 5 { 3 } else { 7 } {
        b = like(r, &b);
        m.eval();
        m.seen(&[&[what as u8][..], &b, &p.k].concat());
        match what {
            0 => {
                let h = here.put(&b);
                let g = lib(|| kms::crypto::ripemd(h))?;
                ensure!(g == hex(&hash::ripemd160(&b)), "RIPEMD-160 of {} where its like lay is {g}", hex(&b));
            }
            1 => {
                let d: [u8; 32] = b[..].try_into().unwrap();
                let h = here.put(&b);
                let g = lib(|| kms::ecdsa_sign(&sk, h))?.map_err(|e| e.to_string())?;
                ensure!(g == secp::sign(&p.k, &d), "signature of {} where its like lay, by {}", hex(&b), hex(&p.k));
            }
            2 => {
                let h = here.put(&b);
                let g = lib(|| k::XPrv::new(h))?;
                ensure!(g.as_ref().map(gen::model_prv).map_err(|_| ()) == b32::master(&b).map_err(|_| ()), "master of {} where its like lay: {g:?}", hex(&b));
            }
            3 => {
                let h = here.put(&b);
                let g = lib(|| Mnemonic::from_entropy(h, lists()[l].lang))?.map_err(|e| format!("{}: {e}", hex(&b)))?;
                check_mnemonic(&g, &b, &o::sentence(&b, l), l, true)?;
            }
            4 => {
                let mut w: Vec<&str> = o::indices(&b).iter().map(|i| lists()[l].words[*i]).collect();
                if r.chance(1, 3) {
                    let (i, j) = (r.idx(w.len()), r.idx(w.len()));
                    w.swap(i, j);
                }
                crate::p_bip39::check_text(m, here.text(&w.join(" ")), l)?;
            }
            5 => {
                let t = hex(&b);
                let h = here.text(&t);
                let g = lib(|| Seed::new(&mn, h))?;
                ensure!(g.as_bytes() == o::seed(&base, 0, &t), "seed of {base:?} with {t:?} where its like lay: {g:x}");
            }
            6 => {
                if r.chance(1, 2) { p.k = like_key(r, &p.k) } else { p.a = like_attrs(r, &p.a) }
                let t = b32::text(0x0488ade4, &p.a, &p.key_bytes());
                let g = lib(|| here.text(&t).parse::<k::XPrv>())?;
                ensure!(g.as_ref().map(gen::model_prv) == Ok(p.clone()), "{t} read where its like lay: {g:?}");
            }
            7 => {
                p.k = like_key(r, &p.k);
                x.clone_from(&lib(|| gen::lib_prv(&p))?.map_err(|e| format!("{p:x?}: {e:?}"))?);
                let g = lib(|| x.derive_child(k::ChildNumber(c)))?;
                ensure!(g.as_ref().map(gen::model_prv).map_err(|_| ()) == p.ckd(c).map_err(|_| ()), "child {c:x} of {p:x?} where its like lay: {g:?}");
            }
            8 => {
                if r.chance(1, 2) { p.k = like_key(r, &p.k) } else { p.a = like_attrs(r, &p.a) }
                x.clone_from(&lib(|| gen::lib_prv(&p))?.map_err(|e| format!("{p:x?}: {e:?}"))?);
                y.clone_from(&lib(|| x.public_key())?);
                let c = c & 0x7fff_ffff;
                let g = lib(|| y.derive_child(k::ChildNumber(c)))?;
                ensure!(g.as_ref().map(gen::model_pub).map_err(|_| ()) == p.to_pub().ckd(c).map_err(|_| ()), "child {c:x} of the public key of {p:x?} where its like lay: {g:?}");
            }
            _ => {
                let i = r.idx(q.len());
                q[i] ^= 1 << r.below(32);
                let t = b32::show_path(&q);
                let g = lib(|| here.text(&t).parse::<k::DerivationPath>())?;
                ensure!(g.as_ref().map(|g| g.iter().map(|c| c.0).collect::<Vec<_>>()) == Ok(q.clone()), "{t} read where its like lay: {g:?}");
            }
        }
    }
    Ok(())
}

/// One kind of call far more often than a counter of 16 bits (the cheap ones: 20 bits) can count, in one process.
fn wear(m: &mut Mon, r: &mut Rng, i: u64, thorough: bool) -> R {
    let all = lib(|| crate::p_race::hammers(r, 5))?;
    // the slow kind is shared between threads
    let (name, calls) = if i < 8 { all.iter().find(|k| k.0 == "seed").ok_or("no seeds")? } else { &all[i as usize - 8] };
    let want: Vec<Vec<u8>> = lib(|| calls.iter().map(|c| c()).collect())?;
    let t0 = std::time::Instant::now();
    let mut n = 0u64;
    // (calls are counted, never timed: the time only says when a cheap call has been made often enough)
    let (least, most) = (if i < 8 { 9_000 } else if *name == "seed" { 0 } else { 70_000 }, if thorough { 1 << 24 } else { 1 << 20 });
    while n < least || (n < most && t0.elapsed().as_millis() < if thorough { 60_000 } else { 700 }) {
        for _ in 0..1000 {
            let at = n as usize % calls.len();
            let got = lib(|| calls[at]())?;
            n += 1;
            ensure!(got == want[at], "\"{name}\" gives {:?} after {n} calls, {:?} at first", String::from_utf8_lossy(&got), String::from_utf8_lossy(&want[at]));
        }
    }
    m.evals += n;
    m.seen(name.as_bytes());
    m.count_n("wear: calls of a kind repeated in one process", n);
    m.sample(|| format!("\"{name}\" {n} times"));
    Ok(())
}

pub fn c21(env: &'static Env, pool: &'static Pool) {
    env.phase("same-place", env.n(3000, 60_000), |m, r, _| slots(m, r, pool));
    env.phase("same-place-runs", env.n(8000, 150_000), |m, r, _| runs(m, r, pool));
    let kinds = crate::p_race::hammers(&mut Rng::new(0, "kinds", 0), 1).len() as u64;
    // in the fastest build only
    env.phase("wear", if env.variant == "shipped" || env.only.is_some() { kinds + 8 } else { 0 }, |m, r, i| wear(m, r, i, env.thorough));
    let n_calls = 40 * spec::KINDS;
    let names = ["while unwinding", "as a thread ends", "inside another call", "in a forked process"];
    let judge = |m: &mut Mon, place: &str, did: Did, want: &[(u64, String)]| -> R {
        for (i, got) in &did {
            m.eval();
            m.seen(&i.to_le_bytes());
            let w = &want.iter().find(|w| w.0 == *i).unwrap().1;
            ensure!(got == w, "call {i} ({}) gives {got:?} {place}, but {w:?} elsewhere", spec::run(pool, *i).0);
        }
        m.count_n(&format!("calls {place}"), did.len() as u64);
        Ok(())
    };
    let table = |r: &mut Rng, n: usize| -> Vec<(u64, String)> {
        let kinds: Vec<u64> = (0..3).map(|_| r.below(spec::KINDS)).collect();
        (0..n)
            .map(|_| {
                let i = if r.chance(1, 2) { r.below(n_calls) } else { r.below(40) * spec::KINDS + *r.pick(&kinds) };
                (i, spec::run(pool, i).1)
            })
            .collect()
    };
    env.phase("places", env.n(1200, 20_000), |m, r, _| {
        let want = table(r, 12);
        let ids: Vec<u64> = want.iter().map(|w| w.0).collect();
        judge(m, names[0], unwinding(pool, &ids), &want)?;
        judge(m, names[1], lib(|| ending(pool, &ids))??, &want)?;
        let did = nested(pool, r, &ids, m)?;
        judge(m, names[2], did, &want)?;
        // and afterwards, as before
        let again = ids.iter().map(|i| (*i, spec::run(pool, *i).1)).collect();
        judge(m, "afterwards", again, &want)?;
        m.sample(|| format!("calls {ids:?} {names:?}"));
        Ok(())
    });
    // alone, so that no other thread is inside the library when the process splits
    env.phase_t("forked", env.n(150, 2000), 1, |m, r, _| {
        let want = table(r, 12);
        let ids: Vec<u64> = want.iter().map(|w| w.0).collect();
        judge(m, names[3], lib(|| forked(pool, &ids))??, &want)
    });
}

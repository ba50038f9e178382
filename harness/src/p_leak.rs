//! C14: debug renderings and error values say nothing about secrets (two runs that differ only in the secret must read
//! the same), and library calls make no system call that could carry anything out of the process.
use crate::gen;
use crate::mon::{lib, Env, Mon, R};
use crate::oracle::bip32::{self as b32};
use crate::oracle::bip39::{self as o, lists};
use crate::oracle::{b58, hex, secp};
use crate::p_hostile;
use crate::rng::{hash64, Rng};
use crate::spec::{self, Moody, Pool};
use crate::{ensure, ensure_eq};
use kms::bip32 as k;
use kms::bip32::{PrivateKey, PublicKey};
use kms::bip39::{ErrorKind, Mnemonic, MnemonicType};
use std::collections::HashSet;
use std::io::Read;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::*};

// ---- debug renderings --------------------------------------------------------------------------------
fn renders<T: std::fmt::Debug>(x: &T) -> Vec<String> {
    vec![
        format!("{x:?}"),
        format!("{x:#?}"),
        format!("{x:x?}"),
        format!("{x:#X?}"),
        format!("{x:90?}"),
        format!("{x:.3?}"),
        format!("{x:+?}{x:08?}{x:*^200?}{x:-?}{x:#010x?}{x:#.0?}{x:.1X?}"),
        format!("{x:.32?}{x:#.64?}{x:1.100?}{x:+#.65535?}{x:>+0300.33x?}"),
    ]
}
fn debug_case(m: &mut Mon, r: &mut Rng) -> R {
    let a = gen::prv(r, 255);
    let mut b = a.clone();
    loop {
        match r.below(4) {
            0 => b.k = gen::sk(r),
            1 => b.k[r.idx(32)] ^= 1 << r.below(8),
            2 => b.k = secp::to_be(&secp::nneg(&secp::from_be(&a.k))),
            _ => {
                let i = r.idx(32);
                b.k[i] = r.below(256) as u8;
            }
        }
        if b.k != a.k && secp::valid_sk(&secp::from_be(&b.k)) {
            break;
        }
        b.k = a.k;
    }
    m.eval();
    m.seen(&[&a.k[..], &b.k, format!("{:?}", a.a).as_bytes()].concat());
    let (x, y) = lib(|| (gen::lib_prv(&a), gen::lib_prv(&b)))?;
    let (x, y) = (x.map_err(|e| format!("{e:?}"))?, y.map_err(|e| format!("{e:?}"))?);
    let (p, q) = lib(|| (renders(&x), renders(&y)))?;
    for (u, v) in p.iter().zip(&q) {
        ensure!(u == v, "debug renderings tell two private keys apart ({} and {}, all else equal):\n  {u}\n  {v}", hex(&a.k), hex(&b.k));
    }
    let (p, q) = lib(|| (renders(&Some((x.clone(), &x))), renders(&Some((y.clone(), &y)))))?;
    ensure!(p == q, "debug renderings inside another value tell two private keys apart ({} and {}): {p:?} {q:?}", hex(&a.k), hex(&b.k));
    // the same over another key type
    let t = |z: &b32::Prv| b32::text(0x0488ade4, &z.a, &z.key_bytes()).parse::<k::ExtendedPrivateKey<Moody>>().map(|z| renders(&z));
    let (p, q) = lib(|| (t(&a), t(&b)))?;
    ensure!(p == q && p.is_ok(), "debug renderings over another key type tell two private keys apart ({} and {}): {p:?} {q:?}", hex(&a.k), hex(&b.k));
    m.count("pairs of keys rendered");
    m.sample(|| format!("{} and {} render alike: {}", hex(&a.k), hex(&b.k), p.unwrap()[0]));
    Ok(())
}

// ---- errors ------------------------------------------------------------------------------------------
fn chain(e: &(dyn std::error::Error + 'static)) -> String {
    let mut s = String::new();
    let mut c = Some(e);
    while let Some(x) = c {
        s += &format!("| {x} {x:?} {x:#?} {x:#} {x:.200}");
        c = x.source();
    }
    s
}
fn show_any<T>(x: Result<T, anyhow::Error>) -> Result<String, ()> {
    match x {
        Ok(_) => Err(()),
        Err(e) => Ok(format!("{e} {e:?} {e:#} {e:#?} {:?} {}", e.downcast_ref::<ErrorKind>(), chain(e.as_ref()))),
    }
}
fn show_std<T, E: std::error::Error + 'static>(x: Result<T, E>) -> Result<String, ()> {
    match x {
        Ok(_) => Err(()),
        Err(e) => Ok(chain(&e)),
    }
}

/// A rejected secret and its twin: the same fault in the same place, all else different. Returns what it is, the two
/// inputs, and the two renderings.
fn same_length_word(r: &mut Rng, l: usize, n: usize) -> &'static str {
    loop {
        let w = lists()[l].words[r.idx(2048)];
        if w.len() == n {
            return w;
        }
    }
}
/// Words of the given byte lengths.
fn words(r: &mut Rng, l: usize, lens: &[usize]) -> Vec<String> {
    lens.iter().map(|n| same_length_word(r, l, *n).to_string()).collect()
}
/// Letters that spell no word of any list (none has a word of these alone).
fn nonword(r: &mut Rng, n: usize) -> String {
    script(r, n, 0)
}
fn script(r: &mut Rng, n: usize, set: usize) -> String {
    const SETS: [[char; 7]; 6] = [
        ['x', 'q', 'z', 'k', 'j', 'w', 'v'],
        ['X', 'Q', 'Z', 'K', 'J', 'W', 'V'],
        ['0', '1', '2', '3', '4', '5', '7'],
        ['\u{e9}', '\u{fc}', '\u{f1}', '\u{e8}', '\u{f6}', '\u{e4}', '\u{e1}'],
        ['\u{9f98}', '\u{9f49}', '\u{9f37}', '\u{9ea4}', '\u{9f8d}', '\u{9efb}', '\u{9f4a}'],
        ['#', '_', '-', '\'', '"', '\\', '{'],
    ];
    (0..n).map(|_| *r.pick(&SETS[set])).collect()
}
type Pair = (String, [String; 2], [Result<String, ()>; 2]);
fn error_pair(r: &mut Rng) -> Option<Pair> {
    let kind = r.below(22);
    let fresh = r.u64();
    let mk = |s: u64| Rng::new(fresh, "twin", s);
    let mut twins = [mk(0), mk(1)];
    macro_rules! both {
        ($what:expr, |$q:ident| $make:expr, |$t:ident| $call:expr) => {{
            let mut ins: Vec<_> = vec![];
            for $q in twins.iter_mut() {
                ins.push($make);
            }
            let mut outs = vec![];
            for $t in &ins {
                outs.push(lib(|| $call).unwrap_or_else(|e| Ok(e)));
            }
            let two = [format!("{:?}", ins[0]), format!("{:?}", ins[1])];
            if two[0] == two[1] {
                return None;
            }
            let b = outs.pop().unwrap();
            let a = outs.pop().unwrap();
            Some(($what.to_string(), two, [a, b]))
        }};
    }
    let l = r.idx(2);
    let lang = lists()[l].lang;
    let count = *r.pick(&[12usize, 15, 18, 21, 24]);
    let lens: Vec<usize> = (0..count).map(|_| if l == 0 { r.range(3, 8) } else { 3 }).collect();
    let call = r.below(2);
    let mn = move |t: &String| match call {
        0 => show_any(Mnemonic::from_phrase(t, lang)),
        _ => show_any(Mnemonic::validate(t, lang)),
    };
    let parse_kind = r.below(3);
    let parse = move |t: &String| match parse_kind {
        0 => show_std(t.parse::<k::XPrv>()),
        1 => show_std(t.parse::<k::XPub>()),
        _ => show_std(t.parse::<k::ExtendedKey>()),
    };
    let attrs = gen::attrs(r, 255);
    // same depth and child number, all secret-bearing fields different
    let twin_attrs = |q: &mut Rng| {
        let mut a = attrs.clone();
        a.cc = gen::cc(q);
        if a.depth > 0 {
            a.fp = q.bytes(4).try_into().unwrap();
        }
        a
    };
    match kind {
        0 => {
            let (at, n, set) = (r.idx(count), if r.chance(1, 8) { r.range(1, 300) } else { r.range(1, 12) }, r.idx(6));
            let sep = if r.chance(1, 4) { *r.pick(&gen::WS) } else { " " };
            both!("phrase with an unknown word", |q| {
                let mut w = words(q, l, &lens);
                w[at] = script(q, n, set);
                if lists().iter().any(|x| x.words.contains(&w[at].as_str())) { return None; }
                w.join(sep)
            }, |t| mn(t))
        }
        1 => both!("phrase with the wrong checksum", |q| loop {
            let s = words(q, l, &lens).join(" ");
            if matches!(o::parse(&s, l), o::Verdict::Bad { .. }) { break s; }
        }, |t| mn(t)),
        2 => {
            let c = loop { let c = r.range(1, 40); if c % 3 != 0 || !(12..=24).contains(&c) { break c; } };
            let lens: Vec<usize> = (0..c).map(|_| if l == 0 { r.range(3, 8) } else { 3 }).collect();
            both!("phrase with the wrong word count", |q| words(q, l, &lens).join(" "), |t| mn(t))
        }
        3 => {
            let lens: Vec<usize> = (0..count).map(|_| if l == 1 { r.range(3, 8) } else { 3 }).collect();
            both!("phrase in another language", |q| words(q, 1 - l, &lens).join(" "), |t| mn(t))
        }
        4 => {
            let (n, set) = (r.range(1, 60), *r.pick(&[0usize, 1, 2, 5]));
            both!("text that is no phrase", |q| script(q, n, set), |t| mn(t))
        }
        5 => {
            let at = r.idx(count);
            both!("phrase with a misspelt word", |q| { let mut w = words(q, l, &lens); w[at] = format!("{}{}", w[at], nonword(q, 1)); if lists()[l].words.contains(&w[at].as_str()) { return None; } w.join(" ") }, |t| mn(t))
        }
        6 => {
            let n = loop { let n = r.range(0, 70); if !o::SIZES.contains(&n) && n > 0 { break n; } };
            both!("entropy of a wrong length", |q| q.bytes(n), |t| show_any(Mnemonic::from_entropy(t, lang)))
        }
        7 => {
            let n = loop { let n = r.range(1, 200); if ![16, 32, 64, 128].contains(&n) { break n; } };
            both!("seed of a wrong length", |q| q.bytes(n), |t| show_std(k::XPrv::new(t)))
        }
        8 => {
            let n = loop { let n = r.range(1, 200); if ![16, 32, 64, 128].contains(&n) { break n; } };
            both!("seed of a wrong length, along a path", |q| q.bytes(n), |t| show_std(k::XPrv::new_from_path(t, &gen::lib_path(&[1, 2]))))
        }
        9 => {
            let (v, p) = { let x = gen::VERSIONS[r.idx(8)]; (x.1, x.2) };
            let at = r.range(4, 110);
            both!("key text with a character outside the alphabet", |q| {
                let x = b32::Prv { k: gen::sk(q), a: twin_attrs(q) };
                let kb = if p { x.key_bytes() } else { secp::pubkey(&x.k).unwrap() };
                let mut t: Vec<char> = b32::text(v, &x.a, &kb).chars().collect();
                let at = at.min(t.len() - 1);
                t[at] = *q.pick(&['0', 'O', 'I', 'l']);
                t.into_iter().collect::<String>()
            }, |t| parse(t))
        }
        10 => {
            let (v, p) = { let x = gen::VERSIONS[r.idx(8)]; (x.1, x.2) };
            both!("key text with a wrong checksum", |q| {
                let x = b32::Prv { k: gen::sk(q), a: twin_attrs(q) };
                let kb = if p { x.key_bytes() } else { secp::pubkey(&x.k).unwrap() };
                let mut t = b32::text(v, &x.a, &kb).into_bytes();
                let i = t.len() - 1 - q.idx(6);
                t[i] = if t[i] == b'7' { b'8' } else { b'7' };
                String::from_utf8(t).unwrap()
            }, |t| parse(t))
        }
        11 => {
            let (v, len) = (gen::VERSIONS[r.idx(8)].1, *r.pick(&[4usize, 13, 40, 45, 77, 79, 82, 100]));
            both!("key text of a wrong size", |q| {
                let mut b = q.bytes(len);
                b[..4].copy_from_slice(&v.to_be_bytes());
                b58::check_encode(&b)
            }, |t| parse(t))
        }
        12 => both!("private key out of range", |q| {
            let mut kb = [0u8; 33];
            kb[1..17].fill(0xff);
            kb[17..].copy_from_slice(&q.bytes(16));
            b32::text(0x0488ade4, &twin_attrs(q), &kb)
        }, |t| show_std(t.parse::<k::XPrv>())),
        13 => both!("private key with a wrong leading byte", |q| {
            let mut kb = [7u8; 33];
            kb[1..].copy_from_slice(&gen::sk(q));
            b32::text(0x0488ade4, &twin_attrs(q), &kb)
        }, |t| show_std(t.parse::<k::XPrv>())),
        14 => both!("private key imported as public", |q| {
            b32::text(0x0488ade4, &twin_attrs(q), &b32::Prv { k: gen::sk(q), a: attrs.clone() }.key_bytes())
        }, |t| show_std(t.parse::<k::XPub>())),
        15 => {
            let tag = *r.pick(&[2u8, 3, 4, 0, 9]);
            both!("public key off the curve", |q| loop {
                let mut kb = [tag; 33];
                kb[1..].copy_from_slice(&q.bytes(32));
                if secp::decompress(&kb).is_none() { break b32::text(0x0488b21e, &twin_attrs(q), &kb); }
            }, |t| show_std(t.parse::<k::XPub>()))
        }
        16 => {
            let which = r.below(2);
            both!("master key with a parent", |q| {
                let mut a = twin_attrs(q);
                a.depth = 0;
                if which == 0 { a.fp = [q.range(1, 255) as u8, 1, q.u32() as u8, 4]; a.child = 0 } else { a.fp = [0; 4]; a.child = 77; }
                b32::text(0x0488ade4, &a, &b32::Prv { k: gen::sk(q), a: a.clone() }.key_bytes())
            }, |t| parse(t))
        }
        17 => {
            let c = gen::child(r);
            both!("derivation below the last depth", |q| {
                let mut a = twin_attrs(q);
                a.depth = 255;
                (hex(&gen::sk(q)), b32::Prv { k: gen::sk(q), a })
            }, |t| match gen::lib_prv(&t.1) {
                Ok(x) if call == 0 => show_std(x.derive_child(k::ChildNumber(c))),
                Ok(x) => show_std(x.derive_from_path(&gen::lib_path(&[c, 0]))),
                Err(e) => Ok(format!("{e:?}")),
            })
        }
        19 => {
            let (n, set) = (r.range(1, 300), r.idx(6));
            both!("text that is no key", |q| script(q, n, set), |t| parse(t))
        }
        20 => {
            let (v, p) = { let x = gen::VERSIONS[r.idx(8)]; (x.1, x.2) };
            let (n, front) = (r.range(1, 30), r.chance(1, 4));
            both!("key text with more text around it", |q| {
                let x = b32::Prv { k: gen::sk(q), a: twin_attrs(q) };
                let t = b32::text(v, &x.a, &if p { x.key_bytes() } else { secp::pubkey(&x.k).unwrap() });
                if front { format!("{}{t}", script(q, n, 0)) } else { format!("{t}{}", script(q, n, 0)) }
            }, |t| parse(t))
        }
        18 => both!("key bytes out of range", |q| {
            let mut b = [0xffu8; 32];
            b[16..].copy_from_slice(&q.bytes(16));
            (gen::sk(q), b)
        }, |t| {
            let sk = libsecp256k1::SecretKey::parse(&t.0).unwrap();
            let pk = libsecp256k1::PublicKey::from_secret_key(&sk);
            Ok(format!("{:?} {:?} {:?}", show_std(<libsecp256k1::SecretKey as PrivateKey>::from_bytes(&t.1)), show_std(PrivateKey::derive_child(&sk, t.1)), show_std(PublicKey::derive_child(&pk, t.1))))
        }),
        _ => {
            let c = loop { let c = r.range(1, 40); if c % 3 != 0 || !(12..=24).contains(&c) { break c; } };
            let lens: Vec<usize> = (0..c).map(|_| if l == 0 { r.range(3, 8) } else { 3 }).collect();
            both!("phrase of a size no mnemonic has", |q| words(q, l, &lens).join(" "), |t| show_any(MnemonicType::for_phrase(t)))
        }
    }
}
fn error_case(m: &mut Mon, r: &mut Rng) -> R {
    let Some((what, ins, outs)) = error_pair(r) else { return Ok(()) };
    m.eval();
    match &outs {
        [Ok(a), Ok(b)] => {
            ensure!(a == b, "the error for a {what} depends on the rejected content:\n  {} -> {a}\n  {} -> {b}", ins[0], ins[1]);
            m.seen(ins.concat().as_bytes());
            m.count(&format!("error for {what}"));
            m.sample(|| format!("{what}: {} and {} both give {a}", ins[0], ins[1]));
        }
        // accepted input is another property's business
        [Err(()), Err(())] => m.count("pair accepted"),
        _ => m.count("one of the pair accepted"),
    }
    Ok(())
}

// ---- system calls --------------------------------------------------------------------------------------
const REPORT_FD: i32 = 777;
static EVENTS: AtomicU64 = AtomicU64::new(0);
static FIRST: [AtomicU64; 4] = [const { AtomicU64::new(0) }; 4];
static BUF: [AtomicU64; 8] = [const { AtomicU64::new(0) }; 8];
static SPLIT: AtomicUsize = AtomicUsize::new(0);

extern "C" fn on_sigsys(_: i32, info: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    unsafe {
        let nr = *(info as *const i32).add(6); // si_syscall
        let g = &mut (*(ctx as *mut libc::ucontext_t)).uc_mcontext.gregs;
        let (a0, a1, a2) = (g[libc::REG_RDI as usize], g[libc::REG_RSI as usize], g[libc::REG_RDX as usize]);
        if EVENTS.fetch_add(1, SeqCst) == 0 {
            FIRST[0].store(nr as u64, SeqCst);
            FIRST[1].store(a0 as u64, SeqCst);
            FIRST[2].store(a2 as u64, SeqCst);
            if nr as i64 == libc::SYS_write {
                let n = (a2 as usize).min(64);
                for i in 0..n.div_ceil(8) {
                    let mut w = [0u8; 8];
                    for j in 0..8 {
                        if i * 8 + j < n {
                            w[j] = *((a1 as usize + i * 8 + j) as *const u8);
                        }
                    }
                    BUF[i].store(u64::from_le_bytes(w), SeqCst);
                }
            }
        }
        g[libc::REG_RAX as usize] = match nr as i64 {
            libc::SYS_write | libc::SYS_pwrite64 | libc::SYS_sendto => a2,
            libc::SYS_fork | libc::SYS_vfork | libc::SYS_clone => -libc::EAGAIN as i64,
            _ => -libc::EACCES as i64,
        };
    }
}
/// From here on this process can neither write nor start anything; attempts are recorded and refused.
fn cage() -> bool {
    use libc::*;
    let all: Vec<i64> = vec![
        SYS_writev, SYS_pwrite64, SYS_pwritev, SYS_pwritev2, SYS_sendto, SYS_sendmsg, SYS_sendmmsg, SYS_sendfile, SYS_splice, SYS_tee, SYS_vmsplice,
        SYS_copy_file_range, SYS_socket, SYS_socketpair, SYS_connect, SYS_bind, SYS_listen, SYS_pipe, SYS_pipe2, SYS_creat, SYS_openat2,
        SYS_rename, SYS_renameat, SYS_renameat2, SYS_unlink, SYS_unlinkat, SYS_mkdir, SYS_mkdirat, SYS_rmdir, SYS_link, SYS_linkat, SYS_symlink,
        SYS_symlinkat, SYS_mknod, SYS_mknodat, SYS_truncate, SYS_ftruncate, SYS_fallocate, SYS_chmod, SYS_fchmod, SYS_fchmodat, SYS_utimensat, SYS_setxattr,
        SYS_fsetxattr, SYS_lsetxattr, SYS_fork, SYS_vfork, SYS_execve, SYS_execveat, SYS_memfd_create, SYS_io_uring_setup, SYS_shmget, SYS_msgget, SYS_msgsnd,
        SYS_mq_open, SYS_mq_timedsend, SYS_ptrace, SYS_process_vm_writev, SYS_kill, SYS_syslog, SYS_keyctl, SYS_add_key,
    ];
    const LD: u16 = 0x20; // BPF_LD | BPF_W | BPF_ABS
    const JEQ: u16 = 0x15;
    const JSET: u16 = 0x45;
    const RET: u16 = 0x06;
    const ALLOW: u32 = 0x7fff_0000;
    const TRAP: u32 = 0x0003_0000;
    const ENO: u32 = 0x0005_0000;
    let i = |code: u16, jt: u8, jf: u8, k: u32| sock_filter { code, jt, jf, k };
    let mut p = vec![
        i(LD, 0, 0, 4),
        i(JEQ, 1, 0, 0xc000_003e),
        i(RET, 0, 0, TRAP),
        i(LD, 0, 0, 0),
    ];
    for n in all {
        p.extend([i(JEQ, 0, 1, n as u32), i(RET, 0, 0, TRAP)]);
    }
    p.extend([i(JEQ, 0, 1, SYS_clone3 as u32), i(RET, 0, 0, ENO | ENOSYS as u32)]);
    // write: only to the report
    p.extend([i(JEQ, 0, 4, SYS_write as u32), i(LD, 0, 0, 16), i(JEQ, 0, 1, REPORT_FD as u32), i(RET, 0, 0, ALLOW), i(RET, 0, 0, TRAP)]);
    let wr = (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC | O_APPEND) as u32 | (O_TMPFILE & !O_DIRECTORY) as u32;
    p.extend([i(JEQ, 0, 4, SYS_open as u32), i(LD, 0, 0, 24), i(JSET, 0, 1, wr), i(RET, 0, 0, TRAP), i(RET, 0, 0, ALLOW)]);
    p.extend([i(JEQ, 0, 4, SYS_openat as u32), i(LD, 0, 0, 32), i(JSET, 0, 1, wr), i(RET, 0, 0, TRAP), i(RET, 0, 0, ALLOW)]);
    // a new thread may run (under the same filter), a new process may not
    p.extend([i(JEQ, 0, 4, SYS_clone as u32), i(LD, 0, 0, 16), i(JSET, 1, 0, CLONE_THREAD as u32), i(RET, 0, 0, TRAP), i(RET, 0, 0, ALLOW)]);
    p.push(i(RET, 0, 0, ALLOW));
    unsafe {
        let mut sa: sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_sigsys as *const () as usize;
        sa.sa_flags = SA_SIGINFO | SA_NODEFER;
        if sigaction(SIGSYS, &sa, std::ptr::null_mut()) != 0 || prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) != 0 {
            return false;
        }
        let f = sock_fprog { len: p.len() as u16, filter: p.as_mut_ptr() };
        prctl(PR_SET_SECCOMP, 2, &f as *const sock_fprog) == 0
    }
}
fn report(s: &str) {
    let s = format!("{s}\n");
    unsafe { libc::write(REPORT_FD, s.as_ptr() as *const _, s.len()) };
}
/// Sizes and positions of the standard streams, open descriptors, and the names in the scratch directory.
fn surroundings(dir: &str) -> String {
    let mut s = String::new();
    for fd in 0..3 {
        unsafe {
            let mut st: libc::stat = std::mem::zeroed();
            libc::fstat(fd, &mut st);
            s += &format!("{fd}: {} bytes at {}; ", st.st_size, libc::lseek(fd, 0, libc::SEEK_CUR));
        }
    }
    let open: Vec<i32> = (0..1024).filter(|f| unsafe { libc::fcntl(*f, libc::F_GETFD) } >= 0).collect();
    let mut names: Vec<String> = std::fs::read_dir(dir).map(|d| d.flatten().map(|e| format!("{:?} {}", e.file_name(), e.metadata().map_or(0, |m| m.len()))).collect()).unwrap_or_default();
    names.sort();
    s + &format!("open {open:?}; files {names:?}")
}
/// c14child <seed> <spec calls> <hostile calls> <scratch>: 0 calls means the monitor's own control.
pub fn child_main(a: &[String]) -> i32 {
    let n = |i: usize| a[i].parse::<u64>().unwrap_or(0);
    let (seed, calls, hostile, dir) = (n(0), n(1), n(2), a[3].clone());
    unsafe {
        libc::dup2(1, REPORT_FD);
        for (fd, name) in [(0, "in"), (1, "out"), (2, "err")] {
            let c = std::ffi::CString::new(format!("{dir}/{name}")).unwrap();
            let f = libc::open(c.as_ptr(), libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC, 0o600);
            if fd == 0 {
                libc::write(f, b"typed secret\n".as_ptr() as *const _, 13);
                libc::lseek(f, 0, libc::SEEK_SET);
            }
            libc::dup2(f, fd);
            libc::close(f);
        }
    }
    let pool = Pool::new(seed);
    let mut g = Rng::new(seed, "c14child", calls);
    let before = surroundings(&dir);
    let caged = cage();
    report(if caged { "caged" } else { "uncaged" });
    crate::world::everywhere(a[4].parse().unwrap_or(0));
    let ev = || EVENTS.load(SeqCst);
    let told = |what: &str| {
        let text: Vec<u8> = BUF.iter().flat_map(|w| w.load(SeqCst).to_le_bytes()).take_while(|b| *b != 0).collect();
        report(&format!("event {what}: system call {} ({:#x}, .., {}) {:?}", FIRST[0].load(SeqCst), FIRST[1].load(SeqCst), FIRST[2].load(SeqCst), String::from_utf8_lossy(&text)));
        EVENTS.store(0, SeqCst);
    };
    if calls == 0 {
        let mut seen = 0;
        for i in 0..6 {
            match i {
                0 => println!("control"),
                1 => eprintln!("control"),
                2 => drop(std::fs::write(format!("{dir}/control"), "x")),
                3 => drop(std::net::TcpStream::connect("127.0.0.1:9")),
                4 => assert!(unsafe { libc::fork() } < 0),
                _ => drop(std::os::unix::net::UnixDatagram::unbound()),
            }
            seen += (ev() > 0) as u32;
            EVENTS.store(0, SeqCst);
        }
        // without the cage, the comparison of surroundings has to notice
        if !caged {
            seen = if surroundings(&dir) != before { 6 } else { 0 };
        }
        report(&format!("control {seen}"));
        return 0;
    }
    let mut descs = HashSet::new();
    for i in 0..calls {
        let (d, _) = spec::run(&pool, g.u64());
        descs.insert(hash64(d.as_bytes()));
        if ev() != 0 {
            told(&d);
            return 0;
        }
        if i == 0 && !caged && surroundings(&dir) != before {
            break;
        }
    }
    for _ in 0..hostile {
        let kind = g.below(p_hostile::OPS);
        let mut what = String::new();
        p_hostile::op(&mut g, kind, &mut |name, len, f| {
            let mut r = Rng::new(seed, "c14hostile", kind);
            let _ = lib(|| f(&mut r));
            what = format!("{name} on {len} bytes");
        });
        descs.insert(hash64(what.as_bytes()) ^ g.u64());
        if ev() != 0 {
            told(&what);
            return 0;
        }
    }
    let after = surroundings(&dir);
    if after != before {
        report(&format!("event changed surroundings: before {before}, after {after}"));
        return 0;
    }
    SPLIT.store(0, SeqCst);
    report(&format!("done {}", descs.len()));
    0
}
fn run_child(seed: u64, calls: u64, hostile: u64, noisy: bool) -> Result<Vec<String>, String> {
    static N: AtomicU64 = AtomicU64::new(0);
    let dir = std::env::temp_dir().join(format!("kmsmon-c14-{}-{}", std::process::id(), N.fetch_add(1, SeqCst)));
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let d = dir.to_string_lossy().to_string();
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.arg("c14child").args([seed.to_string(), calls.to_string(), hostile.to_string(), d.clone(), if noisy { (1 + seed % 64).to_string() } else { "0".into() }]).current_dir(&dir);
    c.env("HOME", &d).env("TMPDIR", &d).env("XDG_CACHE_HOME", &d);
    if noisy {
        for v in ["RUST_LOG", "LOG_LEVEL", "KMS_LOG"] {
            c.env(v, "trace");
        }
    }
    let mut out = String::new();
    let st = c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().and_then(|mut p| {
        p.stdout.take().unwrap().read_to_string(&mut out)?;
        p.wait()
    });
    let _ = std::fs::remove_dir_all(&dir);
    let st = st.map_err(|e| e.to_string())?;
    let mut v: Vec<String> = out.lines().map(String::from).collect();
    if !st.success() {
        v.push(format!("died {st}"));
    }
    Ok(v)
}

pub fn c14(env: &'static Env) {
    env.rule("Pairs of private keys equal in all else rendered with every debug flag; pairs of rejected secrets with the same fault in the same place and all content different, every rendering of both errors compared; fresh processes running library calls (first uses included) under a system-call filter that records and refuses every write, open for writing, socket, pipe, process or signal. Non-trivial: a distinct pair, or a distinct call made under the filter.");
    env.assume("backtraces are off (RUST_BACKTRACE unset); the number of words or bits named by an error is not part of the secret; reading files or the random source is not output");
    env.phase("debug", env.n(40_000, 1_500_000), |m, r, _| debug_case(m, r));
    env.phase("errors", env.n(600_000, 20_000_000), |m, r, _| error_case(m, r));
    if env.wants("io") || env.wants("control") {
        match run_child(env.seed, 0, 0, false) {
            Ok(v) if v.iter().any(|l| l == "control 6") => env.with("control", |m| m.count(&format!("control: all 6 kinds of output noticed, {}", v[0]))),
            v => {
                eprintln!("the output monitor does not work here: {v:?}");
                std::process::exit(2);
            }
        }
    }
    let per = env.n(1500, 6000);
    env.phase_t("io", env.n(24, 600), env.threads.min(8), |m, r, i| {
        let seed = r.u64();
        let v = lib(|| run_child(seed, per, per * 2, i % 2 == 1))??;
        for l in &v {
            if let Some(e) = l.strip_prefix("event ") {
                return Err(format!("a library call produced output: {e}"));
            }
            if let Some(n) = l.strip_prefix("done ") {
                m.count_n("calls under the system-call filter", 3 * per);
                m.count_n("distinct calls under the filter", n.parse().unwrap_or(0));
                m.count(&format!("processes, {}", v[0]));
                for j in 0..n.parse::<u64>().unwrap_or(0) {
                    m.seen(&[i.to_le_bytes(), j.to_le_bytes()].concat());
                }
                m.sample(|| format!("process {i}: {n} distinct calls, no output"));
            }
            ensure!(!l.starts_with("died"), "the process making library calls {l}: {v:?}");
        }
        ensure!(v.iter().any(|l| l.starts_with("done ")), "no result from the caged process: {v:?}");
        m.eval();
        ensure_eq!(v.len(), 2, "caged process's report");
        Ok(())
    });
}

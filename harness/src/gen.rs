//! Boundary-biased generators.
use crate::oracle::{bip32::*, bip39, nfkd, secp};
use crate::rng::Rng;
use kms::bip32 as k32;

pub fn block(r: &mut Rng, n: usize) -> Vec<u8> {
    let mut v = r.bytes(n);
    match r.below(15) {
        14 => v = readable(r, n),
        0 => v.fill(0),
        1 => v.fill(0xff),
        2 => {
            v.fill(0);
            let i = r.idx(n.max(1) * 8);
            if n > 0 {
                v[i / 8] = 1 << (i % 8);
            }
        }
        3 => {
            v.fill(0xff);
            let i = r.idx(n.max(1) * 8);
            if n > 0 {
                v[i / 8] = !(1 << (i % 8));
            }
        }
        4 => {
            let k = r.range(0, n);
            v[..k].fill(0);
        }
        5 => {
            let k = r.range(0, n);
            v[n - k..].fill(0);
        }
        6 => {
            let b = r.u32() as u8;
            v.fill(b);
        }
        7 => {
            let k = r.range(0, n);
            v[..k].fill(0xff);
        }
        8 => {
            let b = *r.pick(&[0x7fu8, 0x80, 0x0d, 0x0a, 0x09, 0x20, 0x30, 0x31, 0xc3, 0x5c, 0x36]);
            v.fill(b);
        }
        9 if n > 0 => {
            let i = r.idx(n);
            v[i] = *r.pick(&[0, 0xff, 0x7f, 0x80, 1]);
        }
        _ => {}
    }
    v
}
/// Bytes that look like the text, or the container, of something else.
pub fn readable(r: &mut Rng, n: usize) -> Vec<u8> {
    let digits: &[u8] = *r.pick(&[
        &b"0123456789abcdef"[..],
        b"0123456789ABCDEF",
        b"0123456789abcdefABCDEF",
        b"0123456789",
        b"01",
        b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz",
        b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/",
        b"ABCDEFGHIJKLMNOPQRSTUVWXYZ234567",
        b"abcdefghijklmnopqrstuvwxyz",
        b"abcdefghijklmnopqrstuvwxyz    ",
    ]);
    let mut v: Vec<u8> = (0..n).map(|_| *r.pick(digits)).collect();
    let head: &[u8] = *r.pick(&[
        &b""[..],
        b"",
        b"",
        b"0x",
        b"0X",
        b"\xef\xbb\xbf",
        b"\xff\xfe",
        b"\x30\x44\x02\x20",
        b"\x30\x2e\x02\x01\x01\x04\x20",
        b"-----BEGIN ",
        b"xprv9s21ZrQH143K",
        b"xpub661MyMwAqRbc",
        b"\x04\x88\xad\xe4",
        b"\x19Ethereum Signed Message:\n32",
        b"\x18Bitcoin Signed Message:\n",
        b"Bitcoin seed",
        b"mnemonic",
        b"{\"seed\":\"",
        b"\"",
        b"base64:",
        b"hex:",
    ]);
    let k = head.len().min(n);
    v[..k].copy_from_slice(&head[..k]);
    if k == n && n > 0 {
        v[0] = n as u8;
    }
    if r.chance(1, 8) && n > 0 {
        let tail = *r.pick(&[b'=', b'\n', b'"', 0, b' ', 0x80]);
        v[n - 1] = tail;
    }
    v
}
/// A text that could be taken for something else than itself.
pub fn odd_word(r: &mut Rng) -> String {
    let w: String = text(r, 6);
    let n = r.range(0, 20);
    let x = String::from_utf8_lossy(&readable(r, n)).to_string();
    match r.below(24) {
        0 => format!("mnemonic{w}"),
        1 => "mnemonic".into(),
        2 => format!("\"{x}\""),
        3 => format!("'{w}'"),
        4 => format!("0x{x}"),
        5 => format!("%{:02x}{x}%20", r.below(256)),
        6 => format!("\\n{x}\\u00e9\\"),
        7 => format!("&amp;{x}&#233;"),
        8 => format!("\u{feff}{x}"),
        9 => format!("{x}+{x}"),
        10 => ["null", "None", "true", "false", "nil", "undefined", "NaN", "0", "-1", "-", "--", "."][r.idx(12)].into(),
        11 => format!("m/44'/{}'/0'", r.below(100)),
        12 => format!("${{{x}}}{{}}{{0}}%s%n"),
        13 => format!("{x}\0{w}"),
        14 => format!("{w}\u{202e}{x}\u{200b}"),
        15 => {
            let l = r.idx(2);
            bip39::sentence(&r.bytes(16), l)
        }
        16 => format!("hex:{x}"),
        17 => format!("{x}={x}&{x}"),
        18 => x.to_uppercase(),
        19 => format!("{x}\r\n"),
        20 => format!("{{\"p\":\"{x}\"}}"),
        21 => format!("<{x}>"),
        22 => x.repeat(r.range(1, 6)),
        _ => x,
    }
}
pub fn entropy(r: &mut Rng) -> Vec<u8> {
    let n = *r.pick(&bip39::SIZES);
    block(r, n)
}

pub fn sk(r: &mut Rng) -> [u8; 32] {
    loop {
        let mut b: [u8; 32] = r.arr();
        match r.below(14) {
            0 => {
                // small
                b = [0; 32];
                b[31] = r.range(1, 255) as u8;
            }
            1 => {
                // n - small
                let s = [r.below(300) + 1, 0, 0, 0];
                b = secp::to_be(&secp::sub_borrow(&secp::N, &s).0);
            }
            2 | 3 => {
                let z = r.range(1, 31);
                b[..z].fill(0);
            }
            4 => {
                let i = r.idx(256);
                b = [0; 32];
                b[31 - i / 8] = 1 << (i % 8);
            }
            5 => {
                // around n/2
                let mut h = secp::N;
                for i in 0..4 {
                    h[i] = h[i] >> 1 | if i < 3 { h[i + 1] << 63 } else { 0 };
                }
                let d = [r.below(5), 0, 0, 0];
                b = secp::to_be(&if r.chance(1, 2) { secp::add_carry(&h, &d).0 } else { secp::sub_borrow(&h, &d).0 });
            }
            6 => {
                let v = block(r, 32);
                b.copy_from_slice(&v);
            }
            7 => {
                let z = r.range(1, 31);
                b[32 - z..].fill(0);
            }
            8 => {
                // limb patterns
                for c in b.chunks_mut(4) {
                    match r.below(4) {
                        0 => c.fill(0),
                        1 => c.fill(0xff),
                        _ => {}
                    }
                }
            }
            _ => {}
        }
        if secp::valid_sk(&secp::from_be(&b)) {
            return b;
        }
    }
}
pub fn cc(r: &mut Rng) -> [u8; 32] {
    let v = block(r, 32);
    let mut o = [0; 32];
    o.copy_from_slice(&v);
    o
}
pub fn index31(r: &mut Rng) -> u32 {
    match r.below(9) {
        // the purposes and coins wallets use
        5 => *r.pick(&[44, 45, 48, 49, 84, 86, 0, 1, 2, 3, 60, 61, 118, 144, 145, 195, 354, 501, 714, 1852, 1815, 13, 83696968]),
        0 => *r.pick(&[0, 1, 2, 9, 10, 255, 256, 65535, 65536, 0x7fff_ffff, 0x7fff_fffe, 0x4000_0000, 1_000_000_000, 2147483646]),
        1 => 1u32 << r.below(31),
        2 => (1u32 << r.below(31)) - 1,
        3 => r.below(100) as u32,
        4 => {
            // some zero / ff bytes
            let mut b = r.u32().to_be_bytes();
            b[r.idx(4)] = *r.pick(&[0, 0xff]);
            u32::from_be_bytes(b) & 0x7fff_ffff
        }
        _ => r.u32() & 0x7fff_ffff,
    }
}
pub fn child(r: &mut Rng) -> u32 {
    index31(r) | (r.below(2) as u32) << 31
}
pub fn depth(r: &mut Rng) -> u8 {
    match r.below(4) {
        0 => *r.pick(&[0, 1, 2, 126, 127, 128, 129, 253, 254]),
        1 => 0,
        _ => r.below(255) as u8,
    }
}
/// depth may be 255; a depth-0 key has a zero parent fingerprint and child number.
pub fn attrs(r: &mut Rng, max_depth: u8) -> Attrs {
    let depth = if max_depth == 255 && r.chance(1, 8) { 255 } else { depth(r) };
    if depth == 0 {
        return Attrs { depth, fp: [0; 4], child: 0, cc: cc(r) };
    }
    let mut fp: [u8; 4] = r.arr();
    match r.below(8) {
        0 => fp = [0; 4],
        1 => fp = [0xff; 4],
        2 => fp[r.idx(4)] = 0,
        _ => {}
    }
    Attrs { depth, fp, child: child(r), cc: cc(r) }
}
pub fn prv(r: &mut Rng, max_depth: u8) -> Prv {
    let mut p = Prv { k: sk(r), a: attrs(r, max_depth) };
    if r.chance(1, 20) {
        // parts of a key that equal each other or follow from each other
        let master = p.a.depth == 0;
        let own = crate::oracle::bip32::fingerprint(&secp::pubkey(&p.k).unwrap());
        match r.below(if master { 4 } else { 11 }) {
            0 => p.a.cc = p.k,
            1 => p.a.cc = secp::pubkey(&p.k).unwrap()[1..].try_into().unwrap(),
            2 => p.a.cc = secp::to_be(&secp::nneg(&secp::from_be(&p.k))),
            3 => p.a.cc.iter_mut().zip(&p.k).for_each(|(c, k)| *c = !k),
            4 => p.a.fp = own,
            5 => p.a.child = u32::from_be_bytes(p.a.fp),
            6 => p.a.child = u32::from_be_bytes(own),
            7 => p.a.fp = p.k[..4].try_into().unwrap(),
            8 => p.a.fp = p.a.cc[..4].try_into().unwrap(),
            9 => p.a.child = p.a.depth as u32 | (p.a.child & 1 << 31),
            _ => p.a.child = u32::from_be_bytes(p.k[28..].try_into().unwrap()),
        }
    }
    p
}
/// Steps of a path; sometimes few different ones, over and over.
pub fn steps(r: &mut Rng, n: usize) -> Vec<u32> {
    let few: Vec<u32> = (0..r.range(1, 3)).map(|_| child(r)).collect();
    let repeat = r.chance(1, 6);
    (0..n).map(|_| if repeat { *r.pick(&few) } else { child(r) }).collect()
}
/// A child number, sometimes one that has to do with the key it is for.
pub fn child_for(r: &mut Rng, a: &Attrs) -> u32 {
    match r.below(40) {
        0 => a.child,
        1 => a.child ^ 1 << 31,
        2 => a.depth as u32 | (r.below(2) as u32) << 31,
        3 => u32::from_be_bytes(a.fp),
        4 => u32::from_be_bytes(a.cc[..4].try_into().unwrap()),
        5 => a.child.wrapping_add(1),
        _ => child(r),
    }
}

pub const PRV_PREFIX: [k32::Prefix; 4] = [k32::Prefix::XPRV, k32::Prefix::TPRV, k32::Prefix::YPRV, k32::Prefix::ZPRV];
pub const PUB_PREFIX: [k32::Prefix; 4] = [k32::Prefix::XPUB, k32::Prefix::TPUB, k32::Prefix::YPUB, k32::Prefix::ZPUB];
/// (letters, version, private) as registered in SLIP-132.
pub const VERSIONS: [(&str, u32, bool); 8] = [
    ("xprv", 0x0488ade4, true),
    ("tprv", 0x04358394, true),
    ("yprv", 0x049d7878, true),
    ("zprv", 0x04b2430c, true),
    ("xpub", 0x0488b21e, false),
    ("tpub", 0x043587cf, false),
    ("ypub", 0x049d7cb2, false),
    ("zpub", 0x04b24746, false),
];

pub fn lib_attrs(a: &Attrs) -> k32::ExtendedKeyAttrs {
    k32::ExtendedKeyAttrs { depth: a.depth, parent_fingerprint: a.fp, child_number: k32::ChildNumber(a.child), chain_code: a.cc }
}
pub fn model_attrs(a: &k32::ExtendedKeyAttrs) -> Attrs {
    Attrs { depth: a.depth, fp: a.parent_fingerprint, child: a.child_number.0, cc: a.chain_code }
}
pub fn lib_prv(p: &Prv) -> Result<k32::XPrv, k32::Error> {
    let ek = k32::ExtendedKey { prefix: k32::Prefix::XPRV, attrs: lib_attrs(&p.a), key_bytes: p.key_bytes() };
    k32::XPrv::try_from(ek)
}
pub fn lib_pub(p: &Pub) -> Result<k32::XPub, k32::Error> {
    let ek = k32::ExtendedKey { prefix: k32::Prefix::XPUB, attrs: lib_attrs(&p.a), key_bytes: p.k };
    k32::XPub::try_from(ek)
}
pub fn model_prv(x: &k32::XPrv) -> Prv {
    Prv { k: x.to_bytes(), a: model_attrs(x.attrs()) }
}
pub fn model_pub(x: &k32::XPub) -> Pub {
    Pub { k: x.to_bytes(), a: model_attrs(x.attrs()) }
}
pub fn lib_path(p: &[u32]) -> k32::DerivationPath {
    let mut d = k32::DerivationPath::default();
    for c in p {
        d.push(k32::ChildNumber(*c));
    }
    d
}

// ---- text --------------------------------------------------------------------------------------
pub fn any_char(r: &mut Rng) -> char {
    loop {
        let c = match r.below(12) {
            0..=2 => char::from_u32(r.range(0x20, 0x7e) as u32),
            3 => char::from_u32(r.below(0x80) as u32),
            4 => char::from_u32(r.range(0x80, 0x24f) as u32),
            5 | 6 => char::from_u32(*r.pick(nfkd::decomposing())),
            7 => char::from_u32(*r.pick(nfkd::marks())),
            8 => char::from_u32(0xac00 + r.below(11172) as u32),
            9 => char::from_u32(r.range(0x4e00, 0x9fff) as u32),
            10 => char::from_u32(r.below(0x10000) as u32),
            _ => char::from_u32(r.below(0x110000) as u32),
        };
        if let Some(c) = c {
            if !nfkd::unstable(c) {
                return c;
            }
        }
    }
}
pub fn text(r: &mut Rng, max: usize) -> String {
    let n = r.range(0, max);
    (0..n).map(|_| any_char(r)).collect()
}
pub const WS: [&str; 12] = [" ", "  ", "\t", "\n", "\r\n", "\u{3000}", "\u{a0}", "\u{2003}", "\u{2028}", "\u{85}", "\u{b}", "\u{205f}"];

pub fn passphrase(r: &mut Rng) -> String {
    match r.below(15) {
        13 | 14 => odd_word(r),
        12 => {
            // long runs of marks: the limits of buffers and of the stream-safe form lie here
            let n = *r.pick(&[4usize, 17, 18, 29, 30, 31, 32, 33, 61, 64, 65, 129, 257]);
            let (a, b) = (*r.pick(nfkd::marks()), *r.pick(nfkd::marks()));
            let mut s = text(r, 3);
            s.push(*r.pick(&['a', '\u{e9}', '\u{ac00}', '\u{3042}', '7']));
            for i in 0..n {
                let c = match r.below(3) {
                    0 => a,
                    1 => b,
                    _ => *r.pick(nfkd::marks()),
                };
                s.push(char::from_u32(if n % 2 == 0 || i < 3 { a } else { c }).unwrap());
            }
            s + &text(r, 3)
        }
        0 => String::new(),
        1 => "TREZOR".into(),
        2 => {
            // lengths around the SHA-512 block and padding limits ("mnemonic" is 8 bytes, the block index 4)
            let n = r.range(90, 130);
            (0..n).map(|_| (b'a' + r.below(26) as u8) as char).collect()
        }
        3 => {
            let n = r.range(230, 260);
            (0..n).map(|_| (b'!' + r.below(90) as u8) as char).collect()
        }
        4 => {
            // marks in random order
            let mut s = String::from("a");
            for _ in 0..r.range(1, 8) {
                s.push(char::from_u32(*r.pick(nfkd::marks())).unwrap());
            }
            s
        }
        5 => (0..r.range(1, 8)).map(|_| char::from_u32(0xac00 + r.below(11172) as u32).unwrap()).collect(),
        6 => (0..r.range(1, 8)).map(|_| char::from_u32(*r.pick(nfkd::decomposing())).unwrap()).collect(),
        7 => {
            let pads = [" ", "\t", "\n", "\0", "\u{3000}", "\u{feff}", "\u{200d}", "\u{a0}"];
            format!("{}{}{}", r.pick(&pads), text(r, 5), r.pick(&pads))
        }
        8 => text(r, 400),
        _ => text(r, 20),
    }
}
/// Another spelling with the same NFKD, when one is found.
pub fn respell(r: &mut Rng, s: &str) -> String {
    let v: Vec<char> = nfkd::nfkd(s).chars().collect();
    let mut o = String::new();
    let mut i = 0;
    while i < v.len() {
        let mut done = false;
        for len in [4, 3, 2, 1] {
            if i + len <= v.len() && r.chance(2, 3) {
                let d: String = v[i..i + len].iter().collect();
                let alts = nfkd::composed_of(&d);
                if !alts.is_empty() {
                    o.push(*r.pick(&alts));
                    i += len;
                    done = true;
                    break;
                }
            }
        }
        // Hangul composition
        if !done && i + 1 < v.len() && (0x1100..0x1113).contains(&(v[i] as u32)) && (0x1161..0x1176).contains(&(v[i + 1] as u32)) && r.chance(2, 3) {
            let mut c = 0xac00 + ((v[i] as u32 - 0x1100) * 21 + (v[i + 1] as u32 - 0x1161)) * 28;
            i += 2;
            if i < v.len() && (0x11a8..0x11c3).contains(&(v[i] as u32)) && r.chance(2, 3) {
                c += v[i] as u32 - 0x11a7;
                i += 1;
            }
            o.push(char::from_u32(c).unwrap());
            done = true;
        }
        if !done {
            o.push(v[i]);
            i += 1;
        }
    }
    o
}

pub fn mutate_text(r: &mut Rng, s: &str, alphabet: &[char]) -> String {
    let mut v: Vec<char> = s.chars().collect();
    for _ in 0..r.range(1, 3) {
        let c = if alphabet.is_empty() || r.chance(1, 6) { any_char(r) } else { *r.pick(alphabet) };
        match r.below(7) {
            0 if !v.is_empty() => {
                let i = r.idx(v.len());
                v[i] = c;
            }
            1 => v.insert(r.range(0, v.len()), c),
            2 if !v.is_empty() => {
                v.remove(r.idx(v.len()));
            }
            3 if v.len() > 1 => {
                let i = r.idx(v.len() - 1);
                v.swap(i, i + 1);
            }
            4 if !v.is_empty() => {
                let k = r.range(0, v.len());
                v.truncate(k);
            }
            5 if !v.is_empty() => {
                let i = r.idx(v.len());
                let x = v[i];
                v[i] = if x.is_uppercase() { x.to_lowercase().next().unwrap() } else { x.to_uppercase().next().unwrap() };
            }
            _ if !v.is_empty() => {
                let i = r.idx(v.len());
                let x = v[i];
                v.insert(i, x);
            }
            _ => v.push(c),
        }
    }
    v.into_iter().collect()
}

/// A copy of bytes or a text somewhere in memory: at any distance from a round address, with other things around it.
pub struct At(Vec<u8>, std::ops::Range<usize>);
impl At {
    fn put(b: &[u8], fill: &[u8]) -> At {
        let h = b.iter().fold(0xcbf29ce484222325u64, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3));
        let (at, end) = ((h >> 20) as usize % 17, (h >> 30) as usize % 9);
        let mut v = Vec::with_capacity(at + b.len() + end);
        v.extend((0..at).map(|i| fill[i % fill.len()]));
        v.extend(b);
        v.extend((0..end).map(|i| fill[i % fill.len()]));
        At(v, at..at + b.len())
    }
}
impl std::ops::Deref for At {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0[self.1.clone()]
    }
}
pub struct TextAt(At);
impl std::ops::Deref for TextAt {
    type Target = str;
    fn deref(&self) -> &str {
        std::str::from_utf8(&self.0).unwrap()
    }
}
pub fn at(b: &[u8]) -> At {
    At::put(b, &[0xa5, 0, 0xff, 1])
}
pub fn text_at(t: &str) -> TextAt {
    TextAt(At::put(t.as_bytes(), b" a1'/"))
}

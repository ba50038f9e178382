//! NFKD from the golden decomposition table (generated by tools/gen_golden.py from Python's unicodedata).
use std::collections::HashMap;

struct T {
    dec: HashMap<u32, Vec<u32>>,
    ccc: HashMap<u32, u8>,
    decs: Vec<u32>,
    marks: Vec<u32>,
}
fn t() -> &'static T {
    static S: std::sync::OnceLock<T> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        let mut t = T { dec: HashMap::new(), ccc: HashMap::new(), decs: vec![], marks: vec![] };
        for l in include_str!("../../../golden/nfkd.txt").lines() {
            let mut f = l.split(' ');
            let cp = u32::from_str_radix(f.next().unwrap(), 16).unwrap();
            let ccc: u8 = f.next().unwrap().parse().unwrap();
            let d: Vec<&str> = f.collect();
            if d != ["-"] {
                t.dec.insert(cp, d.iter().map(|x| u32::from_str_radix(x, 16).unwrap()).collect());
                t.decs.push(cp);
            }
            if ccc != 0 {
                t.ccc.insert(cp, ccc);
                t.marks.push(cp);
            }
        }
        assert!(t.decs.len() > 5000 && t.marks.len() > 800);
        t
    })
}
/// Code points whose properties changed after Unicode 14: the table (and library) may disagree on them.
pub fn unstable(c: char) -> bool {
    matches!(c as u32, 0x10EFD..=0x10EFF | 0x11F41..=0x11F42 | 0x1E030..=0x1E06D | 0x1E08F | 0x1E4EC..=0x1E4EF)
}
pub fn decomposing() -> &'static [u32] {
    &t().decs
}
pub fn marks() -> &'static [u32] {
    &t().marks
}
pub fn ccc(c: char) -> u8 {
    *t().ccc.get(&(c as u32)).unwrap_or(&0)
}
fn one(c: char, o: &mut Vec<char>) {
    let u = c as u32;
    if (0xAC00..=0xD7A3).contains(&u) {
        let s = u - 0xAC00;
        o.push(char::from_u32(0x1100 + s / 588).unwrap());
        o.push(char::from_u32(0x1161 + s % 588 / 28).unwrap());
        if s % 28 != 0 {
            o.push(char::from_u32(0x11A7 + s % 28).unwrap());
        }
    } else if u < 0x80 {
        o.push(c)
    } else if let Some(d) = t().dec.get(&u) {
        o.extend(d.iter().map(|x| char::from_u32(*x).unwrap()));
    } else {
        o.push(c)
    }
}
pub fn nfkd(s: &str) -> String {
    let mut v: Vec<char> = vec![];
    for c in s.chars() {
        one(c, &mut v);
    }
    // canonical ordering: stable sort of every maximal run of marks
    let mut i = 0;
    while i < v.len() {
        if ccc(v[i]) == 0 {
            i += 1;
            continue;
        }
        let mut j = i;
        while j < v.len() && ccc(v[j]) != 0 {
            j += 1;
        }
        v[i..j].sort_by_key(|c| ccc(*c));
        i = j;
    }
    v.into_iter().collect()
}
/// Splits a decomposable character into one or more spellings with the same NFKD, for equivalence tests:
/// returns every single character whose full decomposition is exactly `d`.
pub fn composed_of(d: &str) -> Vec<char> {
    static R: std::sync::OnceLock<HashMap<String, Vec<char>>> = std::sync::OnceLock::new();
    R.get_or_init(|| {
        let mut m: HashMap<String, Vec<char>> = HashMap::new();
        for c in decomposing() {
            let ch = char::from_u32(*c).unwrap();
            m.entry(nfkd(&ch.to_string())).or_default().push(ch);
        }
        m
    })
    .get(d)
    .cloned()
    .unwrap_or_default()
}

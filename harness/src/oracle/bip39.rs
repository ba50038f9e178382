//! Own BIP39 encoder/decoder over the official lists.
use super::hash;
use super::nfkd::nfkd;
use kms::bip39::Language;
use std::collections::HashMap;

pub struct List {
    pub lang: Language,
    pub name: &'static str,
    pub words: Vec<&'static str>,
    pub index: HashMap<&'static str, usize>,
}

pub fn lists() -> &'static [List; 2] {
    static L: std::sync::OnceLock<[List; 2]> = std::sync::OnceLock::new();
    L.get_or_init(|| {
        let mk = |lang, name, text: &'static str, pin: &str| {
            assert_eq!(super::hex(&hash::sha256(text.as_bytes())), pin, "golden word list {name} is not the official one");
            let words: Vec<&'static str> = text.lines().collect();
            assert_eq!(words.len(), 2048);
            let index: HashMap<_, _> = words.iter().enumerate().map(|(i, w)| (*w, i)).collect();
            assert_eq!(index.len(), 2048);
            List { lang, name, words, index }
        };
        [
            mk(Language::English, "english", include_str!("../../../golden/english.txt"), "2f5eed53a4727b4bf8880d8f3f199efc90e58503646d9ff8eff3a2ed3b24dbda"),
            mk(Language::ChineseSimplified, "chinese_simplified", include_str!("../../../golden/chinese_simplified.txt"), "5c5942792bd8340cb8b27cd592f1015edf56a8c5b26276ee18a482428e7c5726"),
        ]
    })
}

pub const SIZES: [usize; 5] = [16, 20, 24, 28, 32];

pub fn words_of(ent: usize) -> usize {
    // ENT bits + ENT/32 checksum bits, 11 per word
    (ent * 8 + ent * 8 / 32) / 11
}
pub fn ent_of_words(w: usize) -> Option<usize> {
    SIZES.iter().copied().find(|e| words_of(*e) == w)
}

/// Word indices of an entropy.
pub fn indices(ent: &[u8]) -> Vec<usize> {
    let cs = hash::sha256(ent);
    let nbits = ent.len() * 8 + ent.len() / 4;
    let bit = |i: usize| {
        if i < ent.len() * 8 {
            ent[i / 8] >> (7 - i % 8) & 1
        } else {
            let j = i - ent.len() * 8;
            cs[j / 8] >> (7 - j % 8) & 1
        }
    };
    (0..nbits / 11).map(|w| (0..11).fold(0usize, |a, b| a << 1 | bit(w * 11 + b) as usize)).collect()
}
pub fn sentence(ent: &[u8], l: usize) -> String {
    indices(ent).iter().map(|i| lists()[l].words[*i]).collect::<Vec<_>>().join(" ")
}
/// Entropy and whether the checksum matches.
pub fn entropy_of(idx: &[usize]) -> Option<(Vec<u8>, bool)> {
    let e = ent_of_words(idx.len())?;
    let mut out = vec![0u8; e];
    for i in 0..e * 8 {
        let b = idx[i / 11] >> (10 - i % 11) & 1;
        out[i / 8] |= (b as u8) << (7 - i % 8);
    }
    let ok = indices(&out) == idx;
    Some((out, ok))
}

#[derive(Debug, Clone, PartialEq)]
pub enum Verdict {
    Ok { entropy: Vec<u8>, canonical: String },
    Bad { unknown_word: bool, words: usize, wrong_count: bool, checksum: bool },
}
pub fn words(text: &str) -> usize {
    text.split(char::is_whitespace).filter(|w| !w.is_empty()).count()
}
pub fn parse(text: &str, l: usize) -> Verdict {
    let words: Vec<String> = text.split(char::is_whitespace).filter(|w| !w.is_empty()).map(nfkd).collect();
    let idx: Vec<Option<usize>> = words.iter().map(|w| lists()[l].index.get(w.as_str()).copied()).collect();
    let unknown_word = idx.iter().any(|i| i.is_none());
    let wrong_count = ent_of_words(words.len()).is_none();
    if !unknown_word && !wrong_count {
        let idx: Vec<usize> = idx.into_iter().map(|i| i.unwrap()).collect();
        let (entropy, ok) = entropy_of(&idx).unwrap();
        if ok {
            return Verdict::Ok { entropy, canonical: words.join(" ") };
        }
        return Verdict::Bad { unknown_word, words: words.len(), wrong_count, checksum: true };
    }
    Verdict::Bad { unknown_word, words: words.len(), wrong_count, checksum: false }
}

/// The bytes a canonical sentence enters PBKDF2 with.
pub fn sentence_bytes(canonical: &str, l: usize) -> Vec<u8> {
    if l == 0 {
        return canonical.as_bytes().to_vec();
    }
    static G: std::sync::OnceLock<Vec<Vec<u8>>> = std::sync::OnceLock::new();
    let g = G.get_or_init(|| include_str!("../../../golden/gb18030.txt").lines().map(|h| super::unhex(h).unwrap()).collect());
    let mut o = vec![];
    for (i, w) in canonical.split(' ').enumerate() {
        if i > 0 {
            o.push(b' ');
        }
        o.extend(&g[lists()[l].index[w]]);
    }
    o
}
pub fn seed(canonical: &str, l: usize, passphrase: &str) -> [u8; 64] {
    let salt = nfkd(&format!("mnemonic{passphrase}"));
    hash::pbkdf2_512(&sentence_bytes(canonical, l), salt.as_bytes(), 2048)
}

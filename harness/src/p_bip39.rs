//! C01, C02, C03, C05.
use crate::gen;
use crate::mon::{lib, Env, Mon, R};
use crate::oracle::bip39::{self as o, lists, Verdict, SIZES};
use crate::oracle::{hex, nfkd};
use crate::{p_alike, p_rare};
use crate::rng::Rng;
use crate::{ensure, ensure_eq};
use kms::bip39::{ErrorKind, Language, Mnemonic, MnemonicType, Seed};

pub fn set_word(ent: &mut [u8], pos: usize, word: usize) {
    for b in 0..11 {
        let bit = pos * 11 + b;
        if bit < ent.len() * 8 {
            let v = (word >> (10 - b) & 1) as u8;
            let m = 7 - bit % 8;
            ent[bit / 8] = ent[bit / 8] & !(1 << m) | v << m;
        }
    }
}
pub fn upper(s: &str) -> String {
    s.bytes().map(|b| b.to_ascii_uppercase() as char).collect()
}

/// Everything a mnemonic reports, against the model.
pub fn check_mnemonic(m: &Mnemonic, ent: &[u8], sentence: &str, l: usize, full: bool) -> R {
    ensure!(lib(|| m.phrase().to_string())? == sentence, "phrase() of {} ({}) is {:?}, expected {:?}", hex(ent), lists()[l].name, m.phrase(), sentence);
    ensure!(lib(|| m.entropy().to_vec())? == ent, "entropy() of {sentence:?} is {}, expected {}", hex(m.entropy()), hex(ent));
    ensure!(m.language() == lists()[l].lang, "language() is {:?}", m.language());
    if full {
        let h = hex(ent);
        ensure_eq!(lib(|| format!("{m:x}"))?, h, "{{:x}} of {h}");
        ensure_eq!(lib(|| format!("{m:X}"))?, upper(&h), "{{:X}} of {h}");
        ensure_eq!(lib(|| format!("{m:#x}"))?, format!("0x{h}"), "{{:#x}} of {h}");
        ensure_eq!(lib(|| format!("{m:#X}"))?, format!("0x{}", upper(&h)), "{{:#X}} of {h}");
        ensure_eq!(lib(|| format!("{m}"))?, sentence, "Display of {h}");
        ensure_eq!(lib(|| m.to_string())?, sentence, "to_string of {h}");
        ensure_eq!(lib(|| format!("{m:?}"))?, format!("{sentence:?}"), "Debug of {h}");
        ensure_eq!(lib(|| AsRef::<str>::as_ref(m).to_string())?, sentence, "as_ref of {h}");
        let c = lib(|| m.clone())?;
        ensure_eq!(c.phrase(), sentence, "clone's phrase of {h}");
        ensure_eq!(c.entropy(), ent, "clone's entropy of {h}");
        ensure!(c.language() == m.language(), "clone's language");
        let c2 = lib(|| m.clone())?;
        ensure_eq!(lib(|| c.into_phrase())?, sentence, "into_phrase of {h}");
        ensure_eq!(lib(|| String::from(c2))?, sentence, "String::from of {h}");
        ensure_eq!(lib(|| m.as_bytes())?, o::sentence_bytes(sentence, l), "as_bytes of {sentence}");
    }
    Ok(())
}

pub fn c01(env: &'static Env) {
    env.rule("Sweep: every (language, size, word position, word index), the other entropy bits random; then boundary-biased entropies through every rendering and all refused lengths. Non-trivial: a distinct (language, entropy) whose sentence, entropy, hex renderings and language were compared with the reference encoder, or a distinct refused length.");
    p_alike::c01(env);
    env.assume("the six languages behind undeclared features are not compiled");
    let mut plan = vec![]; // (lang, size, pos)
    for l in 0..2 {
        for s in SIZES {
            for p in 0..o::words_of(s) {
                plan.push((l, s, p));
            }
        }
    }
    let rounds = env.n(1, 6);
    let n = plan.len() as u64 * 2048 * rounds;
    env.phase("sweep", n, |m, r, i| {
        let (l, s, p) = plan[(i / 2048) as usize % plan.len()];
        let w = (i % 2048) as usize;
        let mut e = gen::block(r, s);
        set_word(&mut e, p, w);
        let want = o::sentence(&e, l);
        let got = lib(|| Mnemonic::from_entropy(&gen::at(&e), lists()[l].lang))?.map_err(|x| format!("from_entropy({}) refused: {x}", hex(&e)))?;
        m.eval();
        m.seen(&[&[l as u8][..], &e].concat());
        m.sample(|| format!("{} {} -> {}", lists()[l].name, hex(&e), want));
        check_mnemonic(&got, &e, &want, l, i % 64 == 0)
    });
    env.phase("boundary", env.n(60_000, 1_500_000), |m, r, _| {
        let e = gen::entropy(r);
        let l = r.idx(2);
        let want = o::sentence(&e, l);
        let got = lib(|| Mnemonic::from_entropy(&gen::at(&e), lists()[l].lang))?.map_err(|x| format!("from_entropy({}) refused: {x}", hex(&e)))?;
        m.eval();
        m.seen(&[&[l as u8][..], &e].concat());
        m.count(&format!("{} words", o::words_of(e.len())));
        check_mnemonic(&got, &e, &want, l, true)
    });
    // lengths that must be refused, including every length congruent to a good one after truncation
    let mut bad: Vec<usize> = (0..700).collect();
    for s in SIZES {
        for k in 1..8 {
            bad.extend([s + 32 * k, s + 256 * k, s + 8192 * k, s + 65536 * k, s * 8 * k, s * k + 1]);
        }
    }
    bad.extend([1 << 20, (1 << 20) + 16, (1 << 29) / 64]);
    bad.retain(|b| !SIZES.contains(b));
    bad.sort();
    bad.dedup();
    env.phase("lengths", bad.len() as u64 * 2, |m, r, i| {
        let n = bad[i as usize / 2];
        let e = gen::block(r, n);
        m.eval();
        m.seen(&[n.to_le_bytes(), (i % 2).to_le_bytes()].concat());
        let got = lib(|| Mnemonic::from_entropy(&gen::at(&e), lists()[i as usize % 2].lang))?;
        ensure!(got.is_err(), "entropy of {n} bytes was accepted");
        m.count("refused lengths");
        Ok(())
    });
}

pub fn fault_ok(e: &anyhow::Error, words: usize, unknown: bool, wrong_count: bool, checksum: bool) -> bool {
    let k = e.chain().find_map(|c| c.downcast_ref::<ErrorKind>()).or_else(|| e.downcast_ref::<ErrorKind>());
    if words == 0 {
        return true;
    }
    match k {
        Some(ErrorKind::InvalidWord) => unknown,
        Some(ErrorKind::InvalidWordLength(n)) => wrong_count && *n == words,
        Some(ErrorKind::InvalidChecksum) => checksum,
        _ => false,
    }
}

/// Judges from_phrase and validate on one text.
pub fn check_text(m: &mut Mon, text: &str, l: usize) -> R {
    let lang = lists()[l].lang;
    let v = o::parse(text, l);
    let got = lib(|| Mnemonic::from_phrase(&gen::text_at(text), lang))?;
    let val = lib(|| Mnemonic::validate(&gen::text_at(text), lang))?;
    m.eval();
    let n = o::words(text);
    match (lib(|| MnemonicType::for_phrase(&gen::text_at(text)))?, o::ent_of_words(n)) {
        (Ok(t), Some(e)) => ensure!(t.entropy_bits() == e * 8, "for_phrase counts {} words in {:?}", t.word_count(), text.chars().take(400).collect::<String>()),
        (Err(_), None) => {}
        (g, _) => return Err(format!("for_phrase of {n} words {:?}: {:?}", text.chars().take(400).collect::<String>(), g.map(|t| t.word_count()))),
    }
    let show = || text.chars().take(400).collect::<String>();
    match v {
        Verdict::Ok { entropy, canonical } => {
            let mn = got.map_err(|e| format!("valid phrase {:?} ({}) refused: {e}", show(), lists()[l].name))?;
            ensure!(val.is_ok(), "validate refused a valid phrase {:?}", show());
            m.count("accepted");
            check_mnemonic(&mn, &entropy, &canonical, l, false)?;
        }
        Verdict::Bad { unknown_word, words, wrong_count, checksum } => {
            for (who, e) in [("from_phrase", got.err()), ("validate", val.err())] {
                let e = e.ok_or_else(|| format!("{who} accepted an invalid phrase {:?} ({}): unknown word {unknown_word}, {words} words, checksum fault {checksum}", show(), lists()[l].name))?;
                ensure!(
                    fault_ok(&e, words, unknown_word, wrong_count, checksum),
                    "{who} on {:?} ({}, {words} words) names a fault the phrase does not have: {e:?} (unknown word: {unknown_word}, wrong count: {wrong_count}, checksum: {checksum})",
                    show(),
                    lists()[l].name
                );
            }
            m.count(if unknown_word {
                "refused: unknown word"
            } else if wrong_count {
                "refused: word count"
            } else {
                "refused: checksum"
            });
        }
    }
    m.seen(text.as_bytes());
    Ok(())
}

/// A character that NFKD-decomposes to exactly this one, if any.
fn compat_char(r: &mut Rng, c: char) -> char {
    let a = nfkd::composed_of(&c.to_string());
    if a.is_empty() {
        c
    } else {
        *r.pick(&a)
    }
}

pub fn valid_words(r: &mut Rng, l: usize, size: usize) -> Vec<usize> {
    let e = gen::block(r, size);
    let _ = l;
    o::indices(&e)
}

pub fn c02(env: &'static Env) {
    env.rule("Texts made from valid sentences (both languages, five sizes): all 2048 last words per prefix, one- and multi-word substitutions, swaps, additions, removals, other-language words, case and compatibility-character spellings, every kind of Unicode white space, word counts 0..70 and counts congruent to valid ones, words abbreviated or extended, gaps of up to 130000 characters of any white space, and free text. Each is parsed and validated by the library and judged by the reference decoder. Non-trivial: a distinct text on which both calls were judged.");
    p_alike::c02(env);
    let join = |w: &[usize], l: usize| w.iter().map(|i| lists()[l].words[*i]).collect::<Vec<_>>().join(" ");
    env.phase("round-trip", env.n(60_000, 1_500_000), |m, r, _| {
        let l = r.idx(2);
        let e = gen::entropy(r);
        let s = o::sentence(&e, l);
        let a = lib(|| Mnemonic::from_entropy(&gen::at(&e), lists()[l].lang))?.map_err(|x| x.to_string())?;
        let b = lib(|| Mnemonic::from_phrase(a.phrase(), lists()[l].lang))?.map_err(|x| format!("generated phrase {:?} refused: {x}", a.phrase()))?;
        m.eval();
        m.seen(s.as_bytes());
        m.sample(|| s.clone());
        check_mnemonic(&b, &e, &s, l, false)?;
        ensure!(lib(|| Mnemonic::validate(&s, lists()[l].lang))?.is_ok(), "validate refused {s:?}");
        let t = lib(|| MnemonicType::for_phrase(&s))?.map_err(|x| format!("for_phrase({s:?}): {x}"))?;
        ensure_eq!(t.entropy_bits(), e.len() * 8, "for_phrase({s:?})");
        Ok(())
    });
    // every word in the last position, so exactly the words with the right checksum bits pass
    let reps = env.n(8, 120);
    env.phase("last-word", 2 * 5 * reps, |m, r, i| {
        let l = (i % 2) as usize;
        let size = SIZES[(i / 2 % 5) as usize];
        let mut w = valid_words(r, l, size);
        let n = w.len();
        let mut ok = 0;
        for last in 0..2048 {
            w[n - 1] = last;
            let s = join(&w, l);
            let before = *m.counters.get("accepted").unwrap_or(&0);
            check_text(m, &s, l)?;
            ok += *m.counters.get("accepted").unwrap_or(&0) - before;
        }
        ensure_eq!(ok, 2048 >> (size / 4), "accepted last words for {size} bytes of entropy");
        Ok(())
    });
    // every word in every position of a sentence, checksum made right again by the last word
    let plan: Vec<(usize, usize, usize)> = (0..2).flat_map(|l| SIZES.into_iter().flat_map(move |s| (0..o::words_of(s)).map(move |p| (l, s, p)))).collect();
    env.phase("sweep", plan.len() as u64 * 2048, |m, r, i| {
        let (l, s, p) = plan[(i / 2048) as usize];
        let mut e = r.bytes(s);
        set_word(&mut e, p, (i % 2048) as usize);
        let t = o::sentence(&e, l);
        check_text(m, &t, l)
    });
    env.phase("mutations", env.n(250_000, 6_000_000), |m, r, _| {
        let l = r.idx(2);
        let size = *r.pick(&SIZES);
        let mut idx = valid_words(r, l, size);
        let kind = r.below(20);
        let mut words: Vec<String> = vec![];
        match kind {
            0..=2 => {
                // wrong words from the same list
                for _ in 0..r.range(1, 2) {
                    let i = r.idx(idx.len());
                    idx[i] = r.idx(2048);
                }
            }
            3 => {
                let (a, b) = (r.idx(idx.len()), r.idx(idx.len()));
                idx.swap(a, b);
            }
            4 => {
                // neighbours in the list (single-bit faults of the index)
                let i = r.idx(idx.len());
                idx[i] ^= 1 << r.below(11);
            }
            5 => {
                idx = (0..r.range(0, 70)).map(|_| r.idx(2048)).collect();
            }
            6 => {
                // two valid sentences in a row, or a part of one
                let sz = *r.pick(&SIZES);
                let more = valid_words(r, l, sz);
                if r.chance(1, 2) {
                    idx.extend(more);
                } else {
                    let k = r.range(0, idx.len());
                    idx.truncate(k);
                }
            }
            7 => {
                // word appended or removed
                if r.chance(1, 2) {
                    let w = r.idx(2048);
                    let at = r.range(0, idx.len());
                    idx.insert(at, w);
                } else {
                    let i = r.idx(idx.len());
                    idx.remove(i);
                }
            }
            _ => {}
        }
        words.extend(idx.iter().map(|i| lists()[l].words[*i].to_string()));
        let mut parse_as = l;
        match kind {
            8 => {
                let i = r.idx(words.len());
                words[i] = lists()[1 - l].words[r.idx(2048)].to_string();
            }
            9 => {
                let i = r.idx(words.len());
                words[i] = match r.below(5) {
                    0 => words[i].to_uppercase(),
                    1 => {
                        let mut c = words[i].chars();
                        let f = c.next().unwrap();
                        f.to_uppercase().chain(c).collect()
                    }
                    2 => words[i].chars().take(4).collect(),
                    3 => words[i].chars().rev().collect(),
                    _ => gen::mutate_text(r, &words[i], &['a', 'e', 's', 'r', 't']),
                };
            }
            10 | 11 => {
                // compatibility spellings of the same words
                for w in words.iter_mut() {
                    if r.chance(1, 2) {
                        *w = w.chars().map(|c| if r.chance(1, 2) { compat_char(r, c) } else { c }).collect();
                    }
                }
            }
            12 => {
                let i = r.idx(words.len());
                let mk = char::from_u32(*r.pick(nfkd::marks())).unwrap();
                words[i].push(mk);
            }
            13 => parse_as = 1 - l,
            14 => {
                let i = r.idx(words.len());
                words[i] = gen::text(r, 6);
            }
            _ => {}
        }
        let mut t = String::new();
        let fancy = kind >= 15 || r.chance(1, 6);
        if fancy && r.chance(1, 2) {
            t += r.pick(&gen::WS);
        }
        for (i, w) in words.iter().enumerate() {
            if i > 0 {
                if fancy {
                    t += r.pick(&gen::WS);
                    if r.chance(1, 5) {
                        t += r.pick(&gen::WS);
                    }
                } else if kind == 19 && r.chance(1, 12) {
                    t += *r.pick(&[",", "-", "", ".", "\u{200b}", "\u{feff}", "\u{2060}", "\u{180e}", "\0"]);
                } else {
                    t += " ";
                }
            }
            t += w;
        }
        if fancy && r.chance(1, 2) {
            t += r.pick(&gen::WS);
        }
        if kind == 18 {
            t = gen::mutate_text(r, &t, &[' ', 'a', 'e', '\t']);
        }
        m.sample(|| t.clone());
        check_text(m, &t, parse_as)
    });
    // sentences of one word only, and of two words in turn, right and wrong by their last word
    env.phase("repeated", 2 * 5 * 2048, |m, r, i| {
        let (l, size, w) = ((i % 2) as usize, SIZES[(i / 2 % 5) as usize], (i / 10) as usize);
        let n = o::words_of(size);
        check_text(m, &join(&vec![w; n], l), l)?;
        let other = r.idx(2048);
        let mut idx: Vec<usize> = match r.below(4) {
            0 => (0..n).map(|k| if k % 2 == 0 { w } else { other }).collect(),
            1 => (0..n).map(|k| (w + k) % 2048).collect(),
            2 => (0..n).map(|k| if k < n / 2 { w } else { other }).collect(),
            _ => vec![w; n],
        };
        // made valid by the last word
        let mut e = vec![0u8; size];
        for (k, v) in idx.iter().enumerate().take(n - 1) {
            set_word(&mut e, k, *v);
        }
        for (at, v) in [(size - 1, 1u8 << r.below(3)), (size - 1, 0)] {
            e[at] ^= v;
            check_text(m, &o::sentence(&e, l), l)?;
        }
        // and the word order turned round
        idx.reverse();
        check_text(m, &join(&idx, l), l)
    });
    // white space of any length at any place, with nothing, a right word or a wrong one beyond it; words of any length
    let white: Vec<char> = (0..=0x10ffffu32).filter_map(char::from_u32).filter(|c| c.is_whitespace()).collect();
    env.phase("gaps", env.n(9_000, 200_000), |m, r, i| {
        let l = r.idx(2);
        let size = *r.pick(&SIZES);
        let e = gen::block(r, size);
        let s = o::sentence(&e, l);
        let mut w: Vec<String> = s.split(' ').map(String::from).collect();
        let len = match r.below(4) {
            0 => 1 + (i / 3) as usize % 300,
            1 => ((1usize << r.range(3, 17)) + 1).saturating_sub(r.idx(3)),
            2 => r.range(1, 3000),
            _ => r.range(1, 40),
        };
        let c = *r.pick(&white);
        let gap: String = match r.below(3) {
            0 => " ".repeat(len),
            1 => c.to_string().repeat(len),
            _ => (0..len).map(|_| *r.pick(&white)).collect(),
        };
        match r.below(6) {
            0 => w.push(lists()[l].words[r.idx(2048)].to_string()),
            1 => w.push("x".repeat(len)),
            2 => {
                let k = r.idx(w.len());
                let x = w[k].clone();
                w[k] = match r.below(4) {
                    0 => format!("{x}{}", "\u{301}".repeat(len)),
                    1 => format!("{x}{}", "\0".repeat(len)),
                    2 => x.repeat(len),
                    _ => format!("{}{x}", "a".repeat(len)),
                };
            }
            3 => {
                w.truncate(w.len() - 1 - r.idx(2));
            }
            _ => (),
        }
        let mut at: Vec<usize> = vec![match r.below(4) {
            0 => 0,
            1 => w.len(),
            2 => w.len() - 1,
            _ => r.range(0, w.len()),
        }];
        if r.chance(1, 4) {
            at.push(r.range(0, w.len()));
        }
        let mut t = String::new();
        for k in 0..=w.len() {
            if at.contains(&k) {
                t += &gap;
            } else if k > 0 && k < w.len() {
                t += " ";
            }
            if k < w.len() {
                t += &w[k];
            }
        }
        m.max("longest gap", len as u64);
        check_text(m, &t, l)
    });
    // what else people write a phrase as: none of it is a sentence unless the reference says so
    env.phase("other-forms", env.n(40_000, 800_000), |m, r, _| {
        let l = r.idx(2);
        let size = *r.pick(&SIZES);
        let e = gen::block(r, size);
        let s = o::sentence(&e, l);
        let w: Vec<&str> = s.split(' ').collect();
        let sep = |x: &str| w.join(x);
        let t = match r.below(30) {
            0 => hex(&e),
            1 => format!("0x{}", hex(&e)),
            2 => upper(&hex(&e)),
            3 => w.iter().enumerate().map(|(i, w)| format!("{}. {w}", i + 1)).collect::<Vec<_>>().join(" "),
            4 => w.iter().enumerate().map(|(i, w)| format!("{}.{w}", i + 1)).collect::<Vec<_>>().join(" "),
            5 => w.iter().enumerate().map(|(i, w)| format!("{}) {w}", i + 1)).collect::<Vec<_>>().join("\n"),
            6 => sep(*r.pick(&[",", ", ", "-", "_", ";", "|", "/", ".", "+", "%20", "\\n", "·", "、", "，"])),
            7 => sep(""),
            8 => format!("\"{s}\""),
            9 => format!("'{s}'"),
            10 => format!("[\"{}\"]", sep("\",\"")),
            11 => format!("mnemonic: {s}"),
            12 => format!("{s}."),
            13 => w.iter().map(|w| w.chars().take(r.range(3, 5)).collect::<String>()).collect::<Vec<_>>().join(" "),
            14 => w.iter().map(|w| w.chars().take(4).collect::<String>()).collect::<Vec<_>>().join(" "),
            15 => s.to_uppercase(),
            16 => w.iter().map(|w| {
                let mut c = w.chars();
                c.next().map(|f| f.to_uppercase().chain(c).collect::<String>()).unwrap_or_default()
            }).collect::<Vec<_>>().join(" "),
            17 => gen::odd_word(r),
            18 => format!("{s} {}", gen::odd_word(r)),
            19 => format!("{} {s}", gen::odd_word(r)),
            20 => w.iter().map(|x| lists()[l].words.iter().position(|y| y == x).unwrap().to_string()).collect::<Vec<_>>().join(" "),
            21 => w.iter().map(|x| format!("{:04}", lists()[l].words.iter().position(|y| y == x).unwrap() + 1)).collect::<Vec<_>>().join(" "),
            22 => w.iter().map(|x| format!("{:011b}", lists()[l].words.iter().position(|y| y == x).unwrap())).collect::<Vec<_>>().join(" "),
            23 => String::from_utf8_lossy(&e).to_string(),
            24 => {
                // one or two words given by number, or shortened
                let mut v: Vec<String> = w.iter().map(|x| x.to_string()).collect();
                for _ in 0..r.range(1, 2) {
                    let i = r.idx(v.len());
                    let p = lists()[l].words.iter().position(|y| *y == w[i]).unwrap();
                    v[i] = match r.below(6) {
                        0 => p.to_string(),
                        1 => (p + 1).to_string(),
                        2 => w[i].chars().take(4).collect(),
                        3 => w[i].chars().take(3).collect(),
                        4 => format!("{}s", w[i]),
                        _ => format!("\"{}\"", w[i]),
                    };
                }
                v.join(" ")
            }
            25 => {
                // one word unknown: the blank a recovery tool would fill
                let mut v: Vec<String> = w.iter().map(|x| x.to_string()).collect();
                let i = r.idx(v.len());
                v[i] = ["?", "*", "_", "...", "xxxx", "x", "？", "□"][r.idx(8)].into();
                v.join(" ")
            }
            26 => w.iter().rev().copied().collect::<Vec<_>>().join(" "),
            27 => {
                let mut v = w.clone();
                v.sort();
                v.join(" ")
            }
            28 => {
                // the sentence for the entropy of the other byte order, or without its first word
                let mut x = e.clone();
                x.reverse();
                if r.chance(1, 2) { o::sentence(&x, l) } else { w[1..].join(" ") }
            }
            _ => format!("{s}\0{}", gen::odd_word(r)),
        };
        m.sample(|| t.clone());
        check_text(m, &t, if r.chance(1, 8) { 1 - l } else { l })
    });
    env.phase("free-text", env.n(30_000, 600_000), |m, r, _| {
        let l = r.idx(2);
        let t = match r.below(3) {
            0 => gen::text(r, 60),
            1 => (0..r.range(1, 30)).map(|_| gen::text(r, 4)).collect::<Vec<_>>().join(" "),
            _ => (0..r.range(1, 26)).map(|_| r.pick(&gen::WS).to_string()).collect(),
        };
        check_text(m, &t, l)
    });
    // word counts congruent to a valid count after integer truncation, and huge ones
    let mut counts: Vec<usize> = (0..130).collect();
    for c in [12, 15, 18, 21, 24] {
        counts.extend([c + 256, c + 512, c + 65536, c * 2, c * 3, c + 2048]);
    }
    env.phase("counts", counts.len() as u64 * 2, |m, r, i| {
        let l = (i % 2) as usize;
        let n = counts[i as usize / 2];
        let one = r.idx(2048);
        let same = r.chance(1, 2);
        let mut idx: Vec<usize> = (0..n).map(|_| if same { one } else { r.idx(2048) }).collect();
        // start like a valid sentence
        let e = *r.pick(&SIZES);
        for (k, w) in valid_words(r, l, e).into_iter().enumerate() {
            if k < n {
                idx[k] = w;
            }
        }
        let t = join(&idx, l);
        m.max("words in a phrase", n as u64);
        check_text(m, &t, l)
    });
    env.phase("type-of-phrase", 2 * 31, |m, r, i| {
        let n = i as usize / 2;
        if n == 0 {
            return Ok(());
        }
        let idx: Vec<usize> = (0..n).map(|_| r.idx(2048)).collect();
        let t = join(&idx, (i % 2) as usize);
        m.eval();
        m.seen(t.as_bytes());
        match (lib(|| MnemonicType::for_phrase(&t))?, o::ent_of_words(n)) {
            (Ok(ty), Some(e)) => ensure_eq!(ty.entropy_bits(), e * 8, "for_phrase of {n} words"),
            (Err(_), None) => {}
            (g, w) => return Err(format!("for_phrase of {n} words: {:?}, expected {w:?}", g.map(|t| t.word_count()))),
        }
        Ok(())
    });
}

pub fn check_seed(m: &mut Mon, mn: &Mnemonic, canonical: &str, l: usize, pw: &str) -> R {
    let want = o::seed(canonical, l, pw);
    let s = lib(|| Seed::new(mn, &gen::text_at(pw)))?;
    m.eval();
    ensure!(lib(|| s.as_bytes().to_vec())? == want, "seed of {canonical:?} with passphrase {pw:?} is {}, expected {}", hex(s.as_bytes()), hex(&want));
    Ok(())
}

fn check_renderings(m: &mut Mon, e: &[u8], l: usize, pw: &str) -> R {
    let s = o::sentence(e, l);
    let mn = lib(|| Mnemonic::from_entropy(e, lists()[l].lang))?.map_err(|x| x.to_string())?;
    let want = o::seed(&s, l, pw);
    let h = hex(&want);
    let sd = lib(|| Seed::new(&mn, pw))?;
    m.eval();
    m.seen(format!("r{s}|{pw}").as_bytes());
    for x in [lib(|| sd.clone())?, sd] {
        ensure_eq!(lib(|| x.as_bytes().to_vec())?, want.to_vec(), "as_bytes");
        ensure_eq!(lib(|| AsRef::<[u8]>::as_ref(&x).to_vec())?, want.to_vec(), "as_ref");
        ensure_eq!(lib(|| format!("{x:x}"))?, h, "{{:x}}");
        ensure_eq!(lib(|| format!("{x:X}"))?, upper(&h), "{{:X}}");
        ensure_eq!(lib(|| format!("{x:#x}"))?, format!("0x{h}"), "{{:#x}}");
        ensure_eq!(lib(|| format!("{x:#X}"))?, format!("0x{}", upper(&h)), "{{:#X}}");
        ensure_eq!(lib(|| format!("{x:?}"))?, format!("0x{}", upper(&h)), "Debug");
    }
    Ok(())
}

pub fn c03(env: &'static Env) {
    env.rule("Mnemonics of both languages and all sizes (from entropy and from variously spelled phrases) with passphrases: every byte length 0..300, every decomposing character and combining mark, Hangul, marks in any order, control and space characters, long texts, and a second spelling with the same NFKD. Non-trivial: a distinct (sentence, passphrase) whose 64 seed bytes were compared with the reference PBKDF2.");
    p_alike::c03(env);
    env.assume("characters whose Unicode properties changed after Unicode 14 are not generated");
    env.phase("random", env.n(12_000, 250_000), |m, r, i| {
        let l = r.idx(2);
        let e = gen::entropy(r);
        let s = o::sentence(&e, l);
        let mn = if r.chance(1, 2) {
            lib(|| Mnemonic::from_entropy(&gen::at(&e), lists()[l].lang))?
        } else {
            let t = if r.chance(1, 2) { s.clone() } else { s.split(' ').map(|w| gen::respell(r, w)).collect::<Vec<_>>().join("\u{3000}") };
            if nfkd::nfkd(&t) != s {
                return Ok(());
            }
            lib(|| Mnemonic::from_phrase(&gen::text_at(&t), lists()[l].lang))?
        }
        .map_err(|x| format!("mnemonic {s:?} refused: {x}"))?;
        let pw = gen::passphrase(r);
        m.seen(format!("{s}|{pw}").as_bytes());
        m.sample(|| format!("{s:?} + {pw:?}"));
        check_seed(m, &mn, &s, l, &pw)?;
        if i % 4 == 0 {
            // an equivalent spelling gives the same seed
            let alt = gen::respell(r, &pw);
            if nfkd::nfkd(&alt) == nfkd::nfkd(&pw) && alt != pw {
                m.count("equivalent spellings compared");
                let a = lib(|| Seed::new(&mn, &pw))?;
                let b = lib(|| Seed::new(&mn, &alt))?;
                m.eval();
                ensure!(a.as_bytes() == b.as_bytes(), "passphrases {pw:?} and {alt:?} are equivalent but give different seeds");
            }
        }
        Ok(())
    });
    env.phase("renderings", env.n(400, 5000), |m, r, _| {
        let l = r.idx(2);
        let e = gen::entropy(r);
        let pw = gen::passphrase(r);
        check_renderings(m, &e, l, &pw)
    });
    let rare = p_rare::of("seed");
    env.phase("rare", rare.len() as u64, |m, _, i| {
        // seeds with runs of zero or all-one bytes
        let x = rare[i as usize];
        m.count("seeds with uncommon bytes");
        m.sample(|| x.tag.clone());
        check_renderings(m, &x.args[0], x.args[1][0] as usize, &String::from_utf8(x.args[2].clone()).unwrap())
    });
    let big: Vec<usize> = (9..env.n(19, 23)).flat_map(|e| [(1usize << e) - 9, (1 << e) - 8, (1 << e) - 1, 1 << e, (1 << e) + 1]).collect();
    env.phase("lengths", 2 * (320 + big.len() as u64), |m, r, i| {
        let l = (i % 2) as usize;
        let n = i as usize / 2;
        let n = if n < 320 { n } else { big[n - 320] };
        let e = gen::entropy(r);
        let s = o::sentence(&e, l);
        let mn = lib(|| Mnemonic::from_entropy(&gen::at(&e), lists()[l].lang))?.map_err(|x| x.to_string())?;
        let pw: String = (0..n).map(|_| (b' ' + r.below(95) as u8) as char).collect();
        m.seen(format!("{s}|{pw}").as_bytes());
        m.max("passphrase bytes", n as u64);
        check_seed(m, &mn, &s, l, &pw)
    });
    // every decomposing character and every combining mark, in groups
    let mut all: Vec<char> = nfkd::decomposing().iter().chain(nfkd::marks()).filter_map(|c| char::from_u32(*c)).filter(|c| !nfkd::unstable(*c)).collect();
    all.extend((0..11172).map(|i| char::from_u32(0xac00 + i).unwrap()));
    let groups: Vec<&[char]> = all.chunks(16).collect();
    env.phase("unicode-table", groups.len() as u64, |m, r, i| {
        let mut pw = String::new();
        for c in groups[i as usize] {
            pw.push(*c);
            pw.push(*r.pick(&['a', ' ', '\u{301}', '\u{e9}', 'Z', '\u{327}']));
            m.count("characters of the decomposition table");
        }
        let l = r.idx(2);
        let e = gen::entropy(r);
        let s = o::sentence(&e, l);
        let mn = lib(|| Mnemonic::from_entropy(&gen::at(&e), lists()[l].lang))?.map_err(|x| x.to_string())?;
        m.seen(pw.as_bytes());
        check_seed(m, &mn, &s, l, &pw)
    });
    // every word of both lists enters the sentence bytes
    env.phase("sentence-bytes", 2 * 2048 * env.n(2, 12), |m, r, i| {
        let l = (i % 2) as usize;
        let mut e = gen::entropy(r);
        let p = r.idx(o::words_of(e.len()) - 1);
        set_word(&mut e, p, (i / 2 % 2048) as usize);
        let s = o::sentence(&e, l);
        let mn = lib(|| Mnemonic::from_phrase(&s, lists()[l].lang))?.map_err(|x| x.to_string())?;
        m.eval();
        m.seen(s.as_bytes());
        ensure_eq!(lib(|| mn.as_bytes())?, o::sentence_bytes(&s, l), "bytes entering PBKDF2 for {s:?}");
        Ok(())
    });
}

pub fn c05(env: &'static Env) {
    env.rule("Exhaustive: all 2x2048 indices and words, every prefix of every word, all codes of up to 3 ASCII characters, all word counts and key sizes up to 5000; then mutated words, prefixes, codes and first words. Non-trivial: a distinct query whose answer was compared with the official lists.");
    env.phase("words", 2 * 2048, |m, _, i| {
        let l = (i % 2) as usize;
        let li = &lists()[l];
        let k = (i / 2) as usize;
        let w = lib(|| li.lang.wordlist().get_word((k as u16).into()))?;
        m.eval();
        m.seen(format!("w{l}{k}").as_bytes());
        m.sample(|| format!("{} word {k} = {w:?}", li.name));
        ensure_eq!(w, li.words[k], "{} word {k}", li.name);
        let b = lib(|| li.lang.wordmap().get_bits(li.words[k]).map(u16::from))?.map_err(|e| format!("{} word {:?} unknown: {e}", li.name, li.words[k]))?;
        ensure_eq!(b as usize, k, "{} index of {:?}", li.name, li.words[k]);
        // not in the other list
        let other = lib(|| lists()[1 - l].lang.wordmap().get_bits(li.words[k]).map(u16::from))?;
        ensure!(other.is_err() == !lists()[1 - l].index.contains_key(li.words[k]), "{:?} looked up in {}", li.words[k], lists()[1 - l].name);
        // every prefix
        let chars: Vec<char> = li.words[k].chars().collect();
        for n in 0..=chars.len() + 1 {
            let mut p: String = chars.iter().take(n).collect();
            if n == chars.len() + 1 {
                p.push(chars[0]);
            }
            check_prefix(m, l, &p)?;
        }
        Ok(())
    });
    env.phase("lookup", env.n(300_000, 5_000_000), |m, r, _| {
        let l = r.idx(2);
        let li = &lists()[l];
        let w = li.words[r.idx(2048)];
        let q = match r.below(12) {
            9 => gen::odd_word(r),
            10 => match r.below(5) {
                // the place of a word instead of the word
                0 => r.below(2100).to_string(),
                1 => format!("{:04}", r.below(2100)),
                2 => format!("{:x}", r.below(2100)),
                3 => format!("{:011b}", r.below(2048)),
                _ => format!("#{}", r.below(2100)),
            },
            11 => format!("{}{w}{}", r.pick(&["\"", "'", "(", "1.", "-", "", "\\", "$"]), r.pick(&["\"", "'", ")", ",", ".", ";", "s", "\\"])),
            0 => w.to_uppercase(),
            1 => format!("{w} "),
            2 => format!(" {w}"),
            3 => gen::mutate_text(r, w, &['a', 'e', 's', 'r', 't', 'o', 'n']),
            4 => w.chars().map(|c| compat_char(r, c)).collect(),
            5 => format!("{w}{}", li.words[r.idx(2048)]),
            6 => gen::text(r, 9),
            7 => {
                let k = r.range(0, w.len());
                w.get(..k).unwrap_or("").to_string()
            }
            _ => format!("{w}{}", r.pick(&["\0", "\n", "\u{301}", "\u{200b}", "'"])),
        };
        m.eval();
        m.seen(format!("l{l}{q}").as_bytes());
        let got = lib(|| li.lang.wordmap().get_bits(&gen::text_at(&q)).map(u16::from))?;
        match (got, li.index.get(q.as_str())) {
            (Ok(g), Some(w)) => ensure_eq!(g as usize, *w, "index of {q:?}"),
            (Err(_), None) => m.count("unknown words"),
            (g, w) => return Err(format!("lookup of {q:?} in {}: {:?}, expected {w:?}", li.name, g.ok())),
        }
        Ok(())
    });
    // a great many texts that are in no list: what a lookup by anything less than the whole word would let through
    env.phase("strangers", env.n(6_000, 300_000), |m, r, i| {
        let maps = [0, 1].map(|l| lists()[l].lang.wordmap());
        let mut z = r.u64() | 1;
        let mut b = [0u8; 12];
        let l = (i % 4 == 3) as usize;
        let n = 3 + (i % 7) as usize;
        for _ in 0..100_000 {
            z ^= z << 13;
            z ^= z >> 7;
            z ^= z << 17;
            let mut x = z;
            for c in b[..n].iter_mut() {
                *c = b'a' + (x % 26) as u8;
                x /= 26;
            }
            let q = std::str::from_utf8(&b[..n]).unwrap();
            // the answer is checked whenever a word is claimed to be known, or is
            if let Ok(g) = maps[l].get_bits(q) {
                ensure!(lists()[l].index.get(q) == Some(&(u16::from(g) as usize)), "lookup of {q:?} in {}: {}", lists()[l].name, u16::from(g));
                m.count("known words among random letters");
            } else {
                ensure!(n > 4 || !lists()[l].index.contains_key(q), "{q:?} not found in {}", lists()[l].name);
            }
        }
        m.evals += 100_000;
        m.count_n("random letters looked up", 100_000);
        m.seen(&b);
        Ok(())
    });
    env.phase("prefixes", env.n(20_000, 400_000), |m, r, _| {
        let l = r.idx(2);
        let w = lists()[r.idx(2)].words[r.idx(2048)];
        let mut p: String = w.chars().take(r.range(0, 5)).collect();
        match r.below(4) {
            0 => p = gen::mutate_text(r, &p, &['a', 'b', 'z', 'q', 'x', 'y']),
            1 => p.push((b'a' + r.below(26) as u8) as char),
            2 => p = gen::text(r, 3),
            _ => {}
        }
        m.sample(|| format!("prefix {p:?}"));
        check_prefix(m, l, &p)
    });
    // all prefixes of up to 3 lower-case letters
    env.phase("short-prefixes", 26 + 676 + 17576, |m, _, i| {
        let i = i as usize;
        let c = |k: usize| (b'a' + k as u8) as char;
        let p: String = if i < 26 {
            c(i).to_string()
        } else if i < 702 {
            [c((i - 26) / 26), c((i - 26) % 26)].iter().collect()
        } else {
            let j = i - 702;
            [c(j / 676), c(j / 26 % 26), c(j % 26)].iter().collect()
        };
        check_prefix(m, 0, &p)
    });
    env.phase("codes", 128 + 128 * 128 + 128 * 128 * 128, |m, _, i| {
        let i = i as u32;
        let b: Vec<u8> = if i < 128 {
            vec![i as u8]
        } else if i < 128 + 16384 {
            let j = i - 128;
            vec![(j / 128) as u8, (j % 128) as u8]
        } else {
            let j = i - 128 - 16384;
            vec![(j / 16384) as u8, (j / 128 % 128) as u8, (j % 128) as u8]
        };
        check_code(m, std::str::from_utf8(&b).unwrap())
    });
    env.phase("odd-codes", env.n(100_000, 1_000_000), |m, r, i| {
        let base = *r.pick(&[
            "en", "zh-cn", "zh", "zh-tw", "fr", "ja", "es", "ko", "it", "english", "zh_cn", "zh-hans", "zhcn", "cn", "en-us", "", "en_us", "en-gb", "eng",
            "zho", "chi", "zh-hans-cn", "zh-hant", "zh-sg", "zh-hk", "chinese", "chinese-simplified", "chinesesimplified", "simplified", "en.utf-8", "en_us.utf-8", "C",
            "posix", "default", "auto", "en;q=0.8", "en,zh-cn", "0", "1", "中文", "简体中文", "英语", "jp", "fra", "spa", "ita", "kor", "cs", "pt", "de", "ru",
        ]);
        if r.chance(1, 12) {
            return check_code(m, &gen::odd_word(r));
        }
        let mut c: String = base.chars().map(|c| if r.chance(1, 2) { c.to_ascii_uppercase() } else { c }).collect();
        if i % 3 == 0 {
            c = gen::mutate_text(r, &c, &['e', 'n', 'z', 'h', '-', 'c', 'N', ' ']);
        } else if i % 3 == 1 && r.chance(1, 2) {
            c = c.chars().map(|x| if r.chance(1, 3) { compat_char(r, x) } else { x }).collect();
        }
        check_code(m, &c)
    });
    env.phase("detect", env.n(200_000, 3_000_000), |m, r, _| {
        let l = r.idx(2);
        let w = lists()[l].words[r.idx(2048)];
        let first = match r.below(8) {
            6 => gen::odd_word(r),
            7 => [r.below(2100).to_string(), format!("1.{w}"), format!("\"{w}"), w.chars().take(4).collect(), format!("{w},")][r.idx(5)].clone(),
            0 => gen::mutate_text(r, w, &['a', 'e', 's']),
            1 => w.to_uppercase(),
            2 => gen::text(r, 5),
            _ => w.to_string(),
        };
        let mut t = String::new();
        if r.chance(1, 3) {
            t += r.pick(&gen::WS);
        }
        t += &first;
        for _ in 0..r.below(5) {
            t += if r.chance(1, 3) { r.pick(&gen::WS) } else { " " };
            t += lists()[r.idx(2)].words[r.idx(2048)];
        }
        let f = t.split(char::is_whitespace).find(|w| !w.is_empty());
        let want = f.and_then(|f| lists().iter().find(|l| l.index.contains_key(f))).map(|l| l.lang);
        // a spelling that only normalises to a listed word may be detected or not
        if want.is_none() && f.map_or(false, |f| lists().iter().any(|l| l.index.contains_key(nfkd::nfkd(f).as_str()))) {
            m.count("not judged: first word listed only after normalisation");
            return Ok(());
        }
        let got = lib(|| Language::from_phrase(&gen::text_at(&t)))?;
        m.eval();
        m.seen(format!("d{t}").as_bytes());
        m.count(if want.is_some() { "detected" } else { "undetectable" });
        ensure_eq!(got, want, "language of {t:?}");
        Ok(())
    });
    let mut sizes: Vec<usize> = (0..5000).collect();
    for c in [12usize, 15, 18, 21, 24, 128, 160, 192, 224, 256] {
        sizes.extend([c + 256, c + 65536, c + (1 << 32), c | 1 << 63, c + (1 << 16), c.wrapping_neg(), c * 8, c * 256]);
    }
    sizes.extend([usize::MAX, usize::MAX - 1, 1 << 31, 1 << 32, 1 << 63]);
    sizes.sort();
    sizes.dedup();
    env.phase("sizes", sizes.len() as u64, |m, _, i| {
        let n = sizes[i as usize];
        m.eval();
        m.seen(format!("s{n}").as_bytes());
        let want = |bits: Option<usize>, t: Result<MnemonicType, anyhow::Error>, what: &str| -> R {
            match (bits, t) {
                (None, Err(_)) => Ok(()),
                (Some(b), Ok(t)) => {
                    let d = (t.entropy_bits(), t.checksum_bits() as usize, t.total_bits(), t.word_count());
                    ensure_eq!(d, (b, b / 32, b + b / 32, (b + b / 32) / 11), "figures of {what}({n})");
                    ensure_eq!(lib(|| t.to_string())?, format!("{} words ({b}bits)", (b + b / 32) / 11), "display of {what}({n})");
                    Ok(())
                }
                (w, g) => Err(format!("{what}({n}): {:?}, expected {w:?}", g.map(|t| t.entropy_bits()))),
            }
        };
        want(o::ent_of_words(n).map(|e| e * 8), lib(|| MnemonicType::for_word_count(n))?, "for_word_count")?;
        want(SIZES.iter().find(|s| **s * 8 == n).map(|_| n), lib(|| MnemonicType::for_key_size(n))?, "for_key_size")
    });
}

fn check_prefix(m: &mut Mon, l: usize, p: &str) -> R {
    let li = &lists()[l];
    let want: Vec<&str> = li.words.iter().copied().filter(|w| w.starts_with(p)).collect();
    let got = lib(|| li.lang.wordlist().get_words_by_prefix(p).to_vec())?;
    m.eval();
    m.seen(format!("p{l}{p}").as_bytes());
    if !want.is_empty() {
        m.count("prefixes with matches");
    }
    ensure!(got == want, "words by prefix {p:?} in {}: {:?}, expected {:?}", li.name, got, want);
    Ok(())
}
fn check_code(m: &mut Mon, c: &str) -> R {
    let low: String = c.chars().map(|x| x.to_ascii_lowercase()).collect();
    let want = match low.as_str() {
        "en" => Some(Language::English),
        "zh-cn" => Some(Language::ChineseSimplified),
        _ => None,
    };
    let got = lib(|| Language::from_language_code(c))?;
    m.eval();
    if want.is_some() {
        m.count("codes that name a language");
        m.seen(format!("c{c}").as_bytes());
    }
    ensure_eq!(got, want, "language of code {c:?}");
    Ok(())
}

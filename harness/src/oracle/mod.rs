//! Reference models, independent of the library and of the crates it uses.
pub mod b58;
pub mod bip32;
pub mod bip39;
pub mod hash;
pub mod nfkd;
pub mod secp;

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn unhex(s: &str) -> Option<Vec<u8>> {
    if s.len() % 2 != 0 {
        return None;
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(s.get(2 * i..2 * i + 2)?, 16).ok()).collect()
}
pub fn selftest() -> Result<(), String> {
    hash::selftest()?;
    secp::selftest()?;
    bip32::selftest()?;
    let e = unhex("066dca1a2bb7e8a1db2832148ce9933eea0f3ac9548d793112d9a95c9407efad").unwrap();
    let s = bip39::sentence(&e, 0);
    if s != "all hour make first leader extend hole alien behind guard gospel lava path output census museum junior mass reopen famous sing advance salt reform" {
        return Err("bip39 oracle".into());
    }
    if bip39::parse(&s, 0) != (bip39::Verdict::Ok { entropy: e, canonical: s.clone() }) {
        return Err("bip39 oracle parse".into());
    }
    if nfkd::nfkd("\u{1e9b}\u{323}\u{fdfa}\u{d55c}") != "s\u{323}\u{307}\u{635}\u{644}\u{649} \u{627}\u{644}\u{644}\u{647} \u{639}\u{644}\u{64a}\u{647} \u{648}\u{633}\u{644}\u{645}\u{1112}\u{1161}\u{11ab}" {
        return Err("nfkd oracle".into());
    }
    Ok(())
}

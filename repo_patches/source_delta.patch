From 4a6b964e13472699fe7d6d2577d48e0a68b7819c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:35 +0000
Subject: [PATCH 1/8] fix: compare the other key's bytes in
 ExtendedPrivateKey::ct_eq

---
 src/bip32/extended_key/extended_private_key.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bip32/extended_key/extended_private_key.rs b/src/bip32/extended_key/extended_private_key.rs
index 14e9dc5..80554d3 100644
--- a/src/bip32/extended_key/extended_private_key.rs
+++ b/src/bip32/extended_key/extended_private_key.rs
@@ -181,7 +181,7 @@ where
 {
     fn ct_eq(&self, other: &Self) -> Choice {
         let mut key_a = self.to_bytes();
-        let mut key_b = self.to_bytes();
+        let mut key_b = other.to_bytes();
 
         let result = key_a.ct_eq(&key_b)
             & self.attrs.depth.ct_eq(&other.attrs.depth)
-- 
2.43.0


From 6e41bbda6a3919cc975e6f0af72510adc830df9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:35 +0000
Subject: [PATCH 2/8] fix: return an error instead of panicking on an
 out-of-range derivation tweak

---
 src/bip32/private_key.rs | 2 +-
 src/bip32/public_key.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bip32/private_key.rs b/src/bip32/private_key.rs
index e012792..94be5b3 100644
--- a/src/bip32/private_key.rs
+++ b/src/bip32/private_key.rs
@@ -45,7 +45,7 @@ impl PrivateKey for libsecp256k1::SecretKey {
 
     fn derive_child(&self, other: PrivateKeyBytes) -> Result<Self> {
         let mut cpk = self.clone();
-        match cpk.tweak_add_assign(&libsecp256k1::SecretKey::parse(&other).unwrap()) {
+        match cpk.tweak_add_assign(&libsecp256k1::SecretKey::parse(&other)?) {
             Ok(_) => Ok(cpk),
             Err(_) => Err(Error::Crypto)
         }
diff --git a/src/bip32/public_key.rs b/src/bip32/public_key.rs
index 80c6163..310734a 100644
--- a/src/bip32/public_key.rs
+++ b/src/bip32/public_key.rs
@@ -48,7 +48,7 @@ impl PublicKey for libsecp256k1::PublicKey {
 
     fn derive_child(&self, other: PrivateKeyBytes) -> Result<Self> {
         let mut cpk = self.clone();
-        match cpk.tweak_add_assign(&libsecp256k1::SecretKey::parse(&other).unwrap()){
+        match cpk.tweak_add_assign(&libsecp256k1::SecretKey::parse(&other)?){
             Ok(_) => Ok(cpk),
             Err(_) => Err(Error::Crypto)
         }
-- 
2.43.0


From c1b6d35ad844cd71be8b26400cec5e8b187dec87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:35 +0000
Subject: [PATCH 3/8] fix: reject serialized master keys with a parent
 fingerprint or child number

---
 src/bip32/extended_key/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bip32/extended_key/mod.rs b/src/bip32/extended_key/mod.rs
index 999d373..03f3ecc 100644
--- a/src/bip32/extended_key/mod.rs
+++ b/src/bip32/extended_key/mod.rs
@@ -89,6 +89,11 @@ impl FromStr for ExtendedKey {
         let key_bytes = bytes[45..78].try_into()?;
         bytes.zeroize();
 
+        // A master key has neither a parent nor an index (BIP32 test vector 5).
+        if depth == 0 && (parent_fingerprint != [0u8; 4] || child_number != ChildNumber(0)) {
+            return Err(Error::Decode);
+        }
+
         let attrs = ExtendedKeyAttrs {
             depth,
             parent_fingerprint,
-- 
2.43.0


From 244be17a47676ec6ea8701a7f8e98fd296f96fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:35 +0000
Subject: [PATCH 4/8] fix: make Mnemonic::validate agree with
 Mnemonic::from_phrase

---
 src/bip39/mnemonic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bip39/mnemonic.rs b/src/bip39/mnemonic.rs
index f955f30..46f6cb7 100644
--- a/src/bip39/mnemonic.rs
+++ b/src/bip39/mnemonic.rs
@@ -175,7 +175,7 @@ impl Mnemonic {
     /// assert!(Mnemonic::validate(test_mnemonic, Language::English).is_ok());
     /// ```
     pub fn validate(phrase: &str, lang: Language) -> Result<(), Error> {
-        Mnemonic::phrase_to_entropy(phrase, lang)?;
+        Mnemonic::from_phrase(phrase, lang)?;
 
         Ok(())
     }
-- 
2.43.0


From 06eb37e0b9b92b9543cd4cca783c2ead0b666252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:35 +0000
Subject: [PATCH 5/8] fix: find words by prefix in unsorted word lists

---
 src/bip39/language.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bip39/language.rs b/src/bip39/language.rs
index 6e49c99..2989a46 100644
--- a/src/bip39/language.rs
+++ b/src/bip39/language.rs
@@ -26,9 +26,10 @@ impl WordList {
     }
 
     pub fn get_words_by_prefix(&self, prefix: &str) -> &[&'static str] {
-        let start = self.inner
-            .binary_search(&prefix)
-            .unwrap_or_else(|idx| idx);
+        // Not every word list is sorted, so the first match has to be searched linearly.
+        let start = self.inner.iter()
+            .position(|word| word.starts_with(prefix))
+            .unwrap_or(self.inner.len());
         let count = self.inner[start..].iter()
             .take_while(|word| word.starts_with(prefix))
             .count();
-- 
2.43.0


From 6e7c9f9478ae9d1c1c77633261b1c765bf2380af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:35 +0000
Subject: [PATCH 6/8] fix: reject a plus sign in a child number

---
 src/bip32/child_number.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bip32/child_number.rs b/src/bip32/child_number.rs
index 5b95f39..5bdc13b 100644
--- a/src/bip32/child_number.rs
+++ b/src/bip32/child_number.rs
@@ -85,6 +85,11 @@ impl FromStr for ChildNumber {
             None => (child, false),
         };
 
+        // `u32::from_str` would also accept a leading `+`.
+        if !child.bytes().all(|b| b.is_ascii_digit()) {
+            return Err(Error::ChildNumber);
+        }
+
         let index = child.parse().map_err(|_| Error::ChildNumber)?;
         ChildNumber::new(index, hardened)
     }
-- 
2.43.0


From c6adc63c761b7306d8542edb5bcd6a7d9ef8466f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:35 +0000
Subject: [PATCH 7/8] fix: draw mnemonic entropy from the OS so forked
 processes never share it

---
 src/bip39/crypto.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bip39/crypto.rs b/src/bip39/crypto.rs
index a32fe79..70736c3 100644
--- a/src/bip39/crypto.rs
+++ b/src/bip39/crypto.rs
@@ -6,7 +6,7 @@
 //!
 
 extern crate rand;
-use self::rand::{thread_rng, RngCore};
+use self::rand::{rngs::OsRng, RngCore};
 use hmac::Hmac;
 use sha2::Digest;
 
@@ -22,10 +22,11 @@ pub(crate) fn sha256_first_byte(input: &[u8]) -> u8 {
 /// Random byte generator, used to create new mnemonics
 ///
 pub(crate) fn gen_random_bytes(byte_length: usize) -> Vec<u8> {
-    let mut rng = thread_rng();
     let mut bytes = vec![0u8; byte_length];
 
-    rng.fill_bytes(&mut bytes);
+    // Straight from the OS: a userspace generator hands out its buffered bytes a second
+    // time in a forked child process.
+    OsRng.fill_bytes(&mut bytes);
 
     bytes
 }
-- 
2.43.0


From 46199a065d33f83c4f68cb6f52e12bbada18d09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:57 +0000
Subject: [PATCH 8/8] fix: count a phrase's words the way from_phrase splits
 them

---
 src/bip39/mnemonic_type.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bip39/mnemonic_type.rs b/src/bip39/mnemonic_type.rs
index e96dbbf..79d6a30 100644
--- a/src/bip39/mnemonic_type.rs
+++ b/src/bip39/mnemonic_type.rs
@@ -110,7 +110,7 @@ impl MnemonicType {
     ///
     /// [MnemonicType::entropy_bits()]: ./enum.MnemonicType.html#method.entropy_bits
     pub fn for_phrase(phrase: &str) -> Result<MnemonicType, Error> {
-        let word_count = phrase.split(" ").count();
+        let word_count = phrase.split_whitespace().count();
 
         Self::for_word_count(word_count)
     }
-- 
2.43.0


import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=hook)))
p("C01","Entropy encodes to exactly the BIP39 sentence",
 "For every entropy of 128, 160, 192, 224 or 256 bits and every available language, building a mnemonic from it yields exactly the BIP39 sentence: the official-list words selected by the entropy bits followed by the SHA-256 checksum bits, joined by single spaces. The mnemonic then reports exactly that entropy (as bytes and in every hex rendering, leading zeros kept), that language, and that sentence through every text rendering. Entropy of any other length is refused with an error.",
 ["inputs"],"every byte string as entropy, every language compiled in",
 "Tests encode about 25 fixed entropies, all English, all 16/24/32 bytes (none of 20 or 28); the claim is over 2^128..2^256 entropies, five sizes and both languages.",
 ["src/bip39/mnemonic.rs","src/bip39/util.rs","src/bip39/crypto.rs","src/bip39/mnemonic_type.rs","src/bip39/language.rs"],
 [("bit iterator 8->11 bits and checksum byte","src/bip39/mnemonic.rs from_entropy_unchecked; src/bip39/util.rs BitIter"),("entropy size check","src/bip39/mnemonic_type.rs for_key_size")],
 [("entropy/phrase/lang","the three fields that must agree","src/bip39/mnemonic.rs Mnemonic")],
 ["Mnemonic::from_entropy, phrase, entropy, language, {:x}/{:X}/{:#x}/{:#X}, Display, Debug, AsRef<str>, into_phrase, String::from"])
p("C02","Phrases are accepted exactly when BIP39-valid, and decode to their entropy",
 "A text is accepted as a mnemonic exactly when, split at whitespace with each word NFKD-normalised, it has 12, 15, 18, 21 or 24 words that are all in the chosen language's list and its checksum bits match; any other text is refused with an error naming a fault it really has (unknown word, word count with the right number, checksum). An accepted text yields exactly the entropy it encodes and the canonical single-spaced normalised sentence, so phrase and entropy round-trip. Validation gives the same verdict as parsing on every text, and the mnemonic size reported for a text is that of its number of whitespace-separated words, or an error when no size has that many.",
 ["inputs"],"every Unicode text, every language compiled in",
 "Tests parse about 30 valid English phrases and not one invalid phrase, whitespace variant or Chinese phrase; the accept/reject boundary (a wrong word loses funds) is never probed.",
 ["src/bip39/mnemonic.rs","src/bip39/util.rs","src/bip39/mnemonic_type.rs","src/bip39/language.rs"],
 [("word lookup, bit packing, checksum comparison","src/bip39/mnemonic.rs phrase_to_entropy; src/bip39/util.rs BitWriter, checksum"),("whitespace splitting and NFKD","src/bip39/mnemonic.rs from_phrase"),("word count check","src/bip39/mnemonic_type.rs for_word_count")],
 None,["Mnemonic::from_phrase, Mnemonic::validate, MnemonicType::for_phrase and error values"])
p("C03","Seeds equal BIP39 PBKDF2 of the normalised phrase and passphrase",
 "For every valid mnemonic and every passphrase, the seed is the 64-byte PBKDF2-HMAC-SHA512 with 2048 rounds of the mnemonic sentence under the salt \"mnemonic\" followed by the passphrase in Unicode NFKD, so canonically or compatibility-equivalent spellings of phrase or passphrase give the same seed and any other difference in passphrase gives a different one. The sentence enters as its UTF-8 bytes, except that simplified-Chinese sentences enter as their GB18030 bytes (this library's deliberate choice). Every byte and hex rendering of the seed shows those same 64 bytes.",
 ["inputs"],"every mnemonic (all sizes and languages) and every Unicode passphrase of any length",
 "Tests cover 24 English phrases with the passphrase TREZOR and two others; no empty, long (beyond a hash block), Chinese or recomposed input except one.",
 ["src/bip39/seed.rs","src/bip39/crypto.rs","src/bip39/mnemonic.rs"],
 [("NFKD of the salt, PBKDF2","src/bip39/seed.rs Seed::new; src/bip39/crypto.rs pbkdf2"),("sentence byte encoding","src/bip39/mnemonic.rs as_bytes")],
 None,["Seed::new, as_bytes, AsRef<[u8]>, {:x}/{:X}/{:#x}/{:#X}/{:?}, Mnemonic::as_bytes"])
p("C04","Generated mnemonics carry full, fresh OS entropy and fail closed",
 "Every generated mnemonic is a valid mnemonic of the requested size and language whose entropy carries as many independent unpredictable bits from the operating system's random source as its size promises. Generated mnemonics never repeat, whether generated in sequence, on different threads, in different processes, or on both sides of a fork. If the operating system's random source fails, no mnemonic is returned.",
 ["inputs","histories","schedules","fault_sequences"],"every size and language, any number of generations in any thread/process/fork arrangement, any failure of the OS random source",
 "Two tests generate one mnemonic each and check only that it parses back; randomness, forks and a failing random source are never examined.",
 ["src/bip39/mnemonic.rs","src/bip39/crypto.rs","src/bip39/mnemonic_type.rs"],
 [("random byte source","src/bip39/crypto.rs gen_random_bytes"),("size requested","src/bip39/mnemonic.rs Mnemonic::new; src/bip39/mnemonic_type.rs entropy_bits")],
 None,["Mnemonic::new and the random-source system calls of the process"])
p("C05","Word lists, word lookup, prefix search and language detection agree",
 "Each available language has exactly the official BIP39 list of 2048 distinct words in official order; looking up a word gives its index in that list, an index its word, and every text not in the list is unknown. Searching by prefix returns exactly the list's words that start with the prefix, in list order. Language codes (any ASCII case) name their language and nothing else does; detecting a phrase's language returns the one whose list holds its first word, and none when there is no such list or no word. The word-count, key-size, entropy-bit and checksum-bit figures of each mnemonic size agree with BIP39, and every other word count or key size is refused.",
 ["inputs"],"every word index, every text as word, prefix, code or phrase, every integer as size",
 "Tests sample three English prefixes, one language code and one detection; the Chinese list is compiled in but its tests are not.",
 ["src/bip39/language.rs","src/bip39/langs/english.txt","src/bip39/langs/chinese_simplified.txt","src/bip39/mnemonic_type.rs","src/bip39/util.rs"],
 [("embedded lists, lazy list and map","src/bip39/language.rs gen_wordlist, gen_wordmap"),("prefix search","src/bip39/language.rs get_words_by_prefix"),("size table","src/bip39/mnemonic_type.rs")],
 None,["Language::wordlist().get_word/get_words_by_prefix, Language::wordmap().get_bits, Language::from_language_code/from_phrase, MnemonicType::*"])
p("C06","Master key generation follows BIP32 for every seed",
 "For every seed of 16, 32, 64 or 128 bytes, the master extended private key has as key the left half and as chain code the right half of HMAC-SHA512 keyed with \"Bitcoin seed\" over the seed, with depth 0, zero parent fingerprint and child number 0, leading zero bytes preserved. A seed of any other length is refused with the seed-length error.",
 ["inputs"],"every byte string as seed, passed as slice, vector or seed object",
 "About 27 fixed seeds are tested; rejected lengths are not tested at all.",
 ["src/bip32/extended_key/extended_private_key.rs","src/bip32/private_key.rs"],
 [("HMAC over the seed and split","src/bip32/extended_key/extended_private_key.rs new"),("seed length check","src/bip32/extended_key/extended_private_key.rs new")],
 None,["XPrv::new, to_bytes, attrs, private_key"])
p("C07","Private child derivation follows BIP32 for every parent and index",
 "For every extended private key and every child number, the derived child private key, chain code, depth, parent fingerprint and child number are exactly those of BIP32 CKDpriv: hardened indices hash the zero-padded 32-byte private key, others the compressed public key, and the child key is the tweak plus the parent key modulo the curve order. Deriving below depth 255 is refused with the depth error and no key. Deriving leaves the parent unchanged.",
 ["inputs"],"every parent (key 1..n-1 including leading zeros, every chain code, depth, fingerprint, child number) and all 2^32 child numbers",
 "Seven fixed derivations are tested; keys with leading zeros, boundary keys, extreme indices and the depth limit are not.",
 ["src/bip32/extended_key/extended_private_key.rs","src/bip32/private_key.rs","src/bip32/public_key.rs","src/bip32/child_number.rs"],
 [("CKDpriv","src/bip32/extended_key/extended_private_key.rs derive_child"),("scalar tweak","src/bip32/private_key.rs derive_child"),("depth check","src/bip32/extended_key/extended_private_key.rs derive_child")],
 None,["XPrv::derive_child, attrs, to_bytes; PrivateKey::derive_child"])
p("C08","Public child derivation matches BIP32 and the private branch",
 "For every extended public key and every non-hardened child number, the derived child equals BIP32 CKDpub in key, chain code, depth, parent fingerprint and child number. Whenever the private parent is known, deriving the child privately and taking its public part gives the identical extended public key. Hardened child numbers are always refused with the child-number error, and depth 255 with the depth error.",
 ["inputs"],"every extended public key and all 2^32 child numbers",
 "One public derivation is tested; commutation with the private branch and the hardened refusal are not.",
 ["src/bip32/extended_key/extended_public_key.rs","src/bip32/public_key.rs"],
 [("CKDpub and hardened refusal","src/bip32/extended_key/extended_public_key.rs derive_child"),("point tweak","src/bip32/public_key.rs derive_child")],
 None,["XPub::derive_child, XPrv::public_key, attrs, to_bytes; PublicKey::derive_child"])
p("C09","Derivation paths and child numbers print and parse faithfully",
 "A text is accepted as a path exactly when it is \"m\" followed by zero or more \"/\"-separated components, each a decimal number below 2^31 in ASCII digits, optionally followed by one apostrophe that marks it hardened; it then denotes exactly those child numbers in order. Every path and child number prints to a text that parses back to itself, child numbers convert losslessly to and from their integer and 4-byte big-endian forms, and building one from an index of 2^31 or more is refused. Appending, extending, iterating, taking the parent and counting behave like the plain list of child numbers.",
 ["inputs","histories"],"every text, all 2^32 child numbers, every sequence of path operations",
 "Seven well-formed paths and one malformed child number are tested; no malformed path, overflow text or mutation sequence is.",
 ["src/bip32/derivation_path.rs","src/bip32/child_number.rs"],
 [("path parser and printer","src/bip32/derivation_path.rs"),("child number parser, flag arithmetic","src/bip32/child_number.rs")],
 None,["DerivationPath and ChildNumber public methods, FromStr, Display"])
p("C10","Deriving along a path equals deriving step by step",
 "For every seed or extended key and every path, deriving along the path gives exactly the key obtained by deriving its child numbers one at a time in order; splitting a path at any point and deriving the two parts in turn gives the same key, and the empty path gives the key itself. A path that cannot be followed to the end (too deep, or hardened on a public key) gives the error of the first step that fails and no key. Public-key path derivation equals the public part of private path derivation whenever the path has no hardened step.",
 ["inputs","histories"],"every starting key and seed, every path up to and beyond the depth limit, every split point",
 "Paths of at most five steps are tested from the root only; composition, public paths and failing paths are not.",
 ["src/bip32/extended_key/extended_private_key.rs","src/bip32/extended_key/extended_public_key.rs","src/bip32/derivation_path.rs"],
 [("fold over the path","src/bip32/extended_key/extended_private_key.rs new_from_path, derive_from_path; extended_public_key.rs derive_from_path")],
 None,["XPrv::new_from_path, XPrv::derive_from_path, XPub::derive_from_path"])
p("C11","Extended keys serialise to BIP32 Base58Check and round-trip",
 "Every extended key serialises to the Base58Check text of its 78-byte BIP32 form (version, depth, parent fingerprint, child number, chain code, key with leading zeros kept), identically through every text output, and with the standard private and public versions the text begins with the version's four letters. Parsing that text returns an equal key with every field, including the version, unchanged, and parsing then printing any accepted text reproduces it exactly. Version numbers and their letter forms convert into each other consistently.",
 ["inputs"],"every extended private and public key (all field values) and every standard or accepted version",
 "Two texts are round-tripped and about 30 printed; leading-zero keys, extreme depths and non-standard versions are not.",
 ["src/bip32/extended_key/mod.rs","src/bip32/extended_key/extended_private_key.rs","src/bip32/extended_key/extended_public_key.rs","src/bip32/prefix.rs"],
 [("78-byte layout","src/bip32/extended_key/mod.rs write_base58, from_str"),("version/letters mapping","src/bip32/prefix.rs")],
 None,["XPrv/XPub::to_string, to_extended_key, ExtendedKey Display/FromStr/write_base58, Prefix"])
p("C12","Import refuses every malformed or invalid extended key",
 "A text is imported as an extended private (public) key only if it is Base58Check of exactly 78 bytes with a matching checksum, its letters mark it private (public), a depth of zero comes with zero parent fingerprint and zero child number, and its key is a zero byte plus a number in 1..n-1 (respectively a valid compressed curve point). Every other text, including any corrupted, truncated, extended or re-labelled version of a valid one, is refused with an error and never yields a key. A private text is never imported as public nor a public one as private.",
 ["inputs"],"every text: all single- and multi-character corruptions, all payloads with a correct checksum, wrong lengths, wrong versions, keys out of range or off the curve",
 "No test feeds an invalid extended key at all.",
 ["src/bip32/extended_key/mod.rs","src/bip32/extended_key/extended_private_key.rs","src/bip32/extended_key/extended_public_key.rs","src/bip32/prefix.rs","src/bip32/private_key.rs","src/bip32/public_key.rs"],
 [("checksum, length, prefix checks","src/bip32/extended_key/mod.rs from_str"),("private/public and range checks","extended_private_key.rs / extended_public_key.rs TryFrom<ExtendedKey>; private_key.rs, public_key.rs from_bytes")],
 None,["str::parse::<XPrv>(), ::<XPub>(), ::<ExtendedKey>(); TryFrom<ExtendedKey>; PrivateKey/PublicKey::from_bytes"])
p("C13","Extended keys are equal exactly when all their fields are equal",
 "Two extended private keys compare equal, through either comparison the library offers, exactly when their private key, chain code, depth, parent fingerprint and child number are all the same; a difference in any single bit of any field makes them unequal. The same holds for extended public keys, however each key was obtained (derived, converted, cloned or parsed).",
 ["inputs","histories"],"every pair of extended keys, in particular pairs differing in one bit of one field and equal keys reached by different routes",
 "Tests only ever compare equal keys, so a comparison that ignores a field passes.",
 ["src/bip32/extended_key/extended_private_key.rs","src/bip32/extended_key/extended_public_key.rs","src/bip32/extended_key/attrs.rs"],
 [("constant-time comparison","src/bip32/extended_key/extended_private_key.rs ct_eq, PartialEq"),("derived comparison","src/bip32/extended_key/extended_public_key.rs")],
 None,["XPrv ==, ConstantTimeEq::ct_eq; XPub =="])
p("C14","Private keys and phrases do not leak through debug output, errors or I/O",
 "The debug rendering of an extended private key does not depend on its private key: keys that differ only there render identically. Error values and their messages never reveal any part of the phrase, passphrase, seed or key text that was rejected. No library operation writes anything to standard output, standard error, files, sockets or other processes.",
 ["inputs"],"every secret and every rejected input, every public operation",
 "No test looks at debug output of keys or at what an error message or the process's output contains.",
 ["src/bip32/extended_key/extended_private_key.rs","src/bip32/error.rs","src/bip39/error.rs","src/error.rs","src/bip39/mnemonic.rs","src/bip39/seed.rs"],
 [("redacting Debug","src/bip32/extended_key/extended_private_key.rs Debug"),("payload-free error kinds","src/bip32/error.rs, src/bip39/error.rs")],
 None,["{:?}/{:#?} of XPrv; Display/Debug of every error; the process's write-like system calls"])
p("C15","Secrets are wiped from memory when their owner is dropped",
 "When a mnemonic, a seed, a serialised private-key text, or a serialised extended-key object is dropped, by whatever route (scope end, replacement, clone, another thread, unwinding, consumption by another call), the memory that held its secret content (phrase and entropy, seed bytes, key text, key bytes) is all zero before it is released. Converting a mnemonic into its phrase string hands over the intact phrase and still wipes the entropy.",
 ["inputs","histories"],"every mnemonic, seed and exported key and every way of dropping it",
 "Tests never observe memory after a drop.",
 ["src/bip39/mnemonic.rs","src/bip39/seed.rs","src/bip32/extended_key/mod.rs","src/bip32/extended_key/extended_private_key.rs"],
 [("Zeroizing fields","src/bip39/mnemonic.rs Mnemonic; extended_private_key.rs to_string"),("Drop impls","src/bip39/seed.rs Drop; src/bip32/extended_key/mod.rs Drop")],
 None,["heap blocks at the moment they are released to the allocator"])
p("C16","No input makes the library panic, overflow, hang or corrupt memory",
 "Every public operation given any input (any text, byte string, number, path, key or combination) returns a value or an error: it does not panic, overflow, index out of bounds, corrupt memory or run away in memory use, which stays proportional to the input. The only exceptions are the two documented or inherent preconditions: an 11-bit word index must be below 2048, and a prefix built from unchecked parts must be four letters.",
 ["inputs"],"every argument of every public function, including megabyte-long and non-ASCII texts",
 "Tests feed almost only valid inputs, without sanitizers, and no long or hostile ones.",
 ["src/bip32/extended_key/mod.rs","src/bip32/prefix.rs","src/bip32/child_number.rs","src/bip32/derivation_path.rs","src/bip32/private_key.rs","src/bip32/public_key.rs","src/bip39/mnemonic.rs","src/bip39/util.rs","src/bip39/language.rs","src/lib.rs","src/crypto.rs"],
 [("error returns instead of unwraps","src/bip32/private_key.rs, public_key.rs derive_child; src/bip32/extended_key/mod.rs from_str"),("bit arithmetic","src/bip39/util.rs")],
 None,["return of every public function; AddressSanitizer and overflow/assertion checks; allocator counters"])
p("C17","Concurrent use is race-free and gives the sequential results",
 "Any number of threads may use the library at once, sharing mnemonics, seeds, keys and paths, including at the very first use in a process: every call returns what it would return alone, and there is no data race or deadlock.",
 ["schedules"],"every interleaving of any public operations on any number of threads, including concurrent first use",
 "The suite's tests share a process but check no concurrent result and run without a race detector; first use is raced by accident at most once.",
 ["src/bip39/language.rs","src/bip39/crypto.rs","src/bip39/mnemonic.rs","src/bip32/extended_key/extended_private_key.rs"],
 [("once-initialised word lists and maps","src/bip39/language.rs lazy"),("no other shared mutable state","whole crate")],
 [("WORDLIST_*/WORDMAP_*","process-wide lazily built tables","src/bip39/language.rs lazy")],
 ["results of calls on concurrent threads; ThreadSanitizer reports"])
p("C18","Signatures are valid, canonical, recoverable and deterministic",
 "For every private key and 32-byte digest, signing returns the RFC 6979 deterministic ECDSA signature over secp256k1: 64 bytes r then s with s in the lower half of the order, valid under the key's public key, and with the recovery id (0..3) that recovers exactly that public key. Different digests under one key never share a nonce. A message of any other length than 32 bytes is refused with an error.",
 ["inputs"],"every private key, every 32-byte digest, every other message length",
 "The signing function has no test at all.",
 ["src/lib.rs","src/error.rs"],
 [("sign and serialise","src/lib.rs ecdsa_sign")],
 None,["ecdsa_sign"])
p("C19","Public keys, fingerprints and RIPEMD-160 digests are correct for every input",
 "For every private key, the public key is the curve point of that scalar in 33-byte compressed form and carries the same chain code, depth, parent fingerprint and child number; the fingerprint of a key is the first four bytes of RIPEMD-160 of SHA-256 of that form. The RIPEMD-160 helper returns the 40 lower-case hex digits of the digest of any byte string. Conversions between extended and plain keys, and to and from key bytes, preserve the key.",
 ["inputs"],"every private key, every byte string",
 "Public keys appear in seven vectors; fingerprints only inside them; the RIPEMD-160 helper and the plain-key conversions are never tested.",
 ["src/crypto.rs","src/bip32/public_key.rs","src/bip32/private_key.rs","src/bip32/extended_key/extended_public_key.rs"],
 [("compressed serialisation, fingerprint","src/bip32/public_key.rs"),("hex digest","src/crypto.rs ripemd"),("From impls","src/bip32/private_key.rs, public_key.rs, extended_public_key.rs")],
 None,["XPrv::public_key, XPub::to_bytes/fingerprint, PublicKey/PrivateKey trait methods, crypto::ripemd"])
p("C20","Comparing private keys takes no secret-dependent branch or memory access",
 "Comparing two extended private keys executes the same instructions and touches the same addresses whatever their private key and chain code bytes are: no branch or memory address in the comparison depends on those secrets, so its timing does not reveal where two keys first differ.",
 ["inputs"],"every pair of extended private keys with every position of first difference",
 "A unit test sees only the boolean result, never the control flow that produced it.",
 ["src/bip32/extended_key/extended_private_key.rs"],
 [("ConstantTimeEq instead of ==","src/bip32/extended_key/extended_private_key.rs ct_eq, PartialEq")],
 None,["branches and addresses depending on secret bytes, as tracked by valgrind memcheck definedness"])
p("C21","Results depend only on the arguments, never on earlier calls",
 "Whatever sequence of library calls came before, in the same process, thread and on the same objects, successful, failing or panicking in caller code, each call returns what it would return in a fresh process, and no call changes an object passed to it by shared reference or any clone of an object. Cloning, dropping, converting and reusing mnemonics, seeds, keys and paths in any order never changes what the others yield.",
 ["histories"],"every finite sequence of public operations over a shared pool of objects, with failures interleaved",
 "Each test makes one short sequence of calls; none reuses objects across failures, clones and drops.",
 ["src/bip39/mnemonic.rs","src/bip39/seed.rs","src/bip39/language.rs","src/bip32/extended_key/extended_private_key.rs","src/bip32/extended_key/extended_public_key.rs","src/bip32/derivation_path.rs"],
 [("no caches or other mutable state besides the word tables","whole crate")],
 None,["results of every call in long random operation histories"])
p("C22","A failing key operation makes derivation fail cleanly at that step",
 "Extended keys work over any caller-supplied key type: it is handed exactly the BIP32 tweak and key bytes of each step, in order, and the fingerprint it gives for the parent key is the one the child records. If the key type refuses a step (as BIP32 requires for an out-of-range tweak or a zero key), creation, import, derivation and path derivation return that error, yield no key, do not retry with other data or continue past the failing step, and leave the parent usable. The built-in key type itself refuses tweaks of the curve order or more and sums that vanish, with an error and never a panic.",
 ["fault_sequences","inputs"],"every step of every path as the failing step, every error value, every out-of-range or cancelling tweak",
 "The failure branch has probability below 2^-127 with real keys, so no test can reach it; no test uses another key type.",
 ["src/bip32/extended_key/extended_private_key.rs","src/bip32/extended_key/extended_public_key.rs","src/bip32/private_key.rs","src/bip32/public_key.rs"],
 [("error propagation through derive_child and the path fold","src/bip32/extended_key/extended_private_key.rs, extended_public_key.rs"),("tweak range and zero checks","src/bip32/private_key.rs, src/bip32/public_key.rs derive_child")],
 None,["calls received by an instrumented key type; results of derivation over it; PrivateKey/PublicKey::derive_child on secp256k1 keys"])
p("C23","No call leaves memory, files or threads behind",
 "Once every value that a library call returned, or that was handed to it, has been dropped, the process holds no more heap memory, file descriptors or threads than before the call, apart from the word tables that are built once. This holds for every call, whether it succeeded, was refused, or unwound because the caller's own argument, key type, iterator or writer panicked, so memory use stays bounded however many calls a long-running service makes and however many threads come and go.",
 ["inputs","histories","fault_sequences"],"every public operation, every outcome, any number of calls and threads",
 "Tests run each call a handful of times and never look at what the process still holds afterwards.",
 ["src/bip39/mnemonic.rs","src/bip39/seed.rs","src/bip39/language.rs","src/bip32/extended_key/mod.rs","src/bip32/extended_key/extended_private_key.rs","src/bip32/derivation_path.rs"],
 [("every value owns its buffers; the only process-wide memory is the word tables","whole crate; src/bip39/language.rs lazy")],
 [("WORDLIST_*/WORDMAP_*","the once-built tables","src/bip39/language.rs lazy")],
 ["bytes held by the allocator, /proc/self/fd and /proc/self/task after each call or batch of calls"])
p("C24","A wallet restored from its backup is the same wallet",
 "For every wallet (any entropy size and language, any passphrase, any derivation path), restoring it from its phrase and passphrase in any equivalent spelling, with the language found by detection or by its code, in the same or another process, gives the same seed, the same extended keys and addresses' public keys at every path, and the same signatures as the wallet first made. So does continuing from an exported private key at any level under any standard version. A watch-only wallet made from an exported public key gives exactly the public keys of the private one along every non-hardened continuation, each child naming its parent's fingerprint, and the private wallet's signatures verify under them.",
 ["inputs","histories"],"every mnemonic, passphrase, path, export level and version, in any process",
 "Tests exercise each module on its own vectors; none takes a wallet through backup, restore, export, import, derivation and signing as one.",
 ["src/bip39/mnemonic.rs","src/bip39/seed.rs","src/bip39/language.rs","src/bip32/extended_key/extended_private_key.rs","src/bip32/extended_key/extended_public_key.rs","src/bip32/extended_key/mod.rs","src/bip32/derivation_path.rs","src/lib.rs"],
 [("phrase -> seed -> master -> path -> export -> import -> sign, end to end","whole crate")],
 None,["Mnemonic, Language, Seed, XPrv, XPub, ExtendedKey, DerivationPath, ecdsa_sign used together, in one and in two processes"])
p("C25","Equality and ordering of keys' parts are consistent",
 "Child numbers, prefixes, extended key attributes and extended public keys (over a key type that has an order) are totally ordered, and the order agrees with equality: two values compare equal exactly when all their fields are the same, comparing the other way round gives the reverse, the order is transitive, every comparison operator says the same, and child numbers order as their integers. So sorted lists and ordered sets of them neither lose nor duplicate entries.",
 ["inputs"],"every pair and triple of values",
 "Tests compare single pairs for equality and never use an order.",
 ["src/bip32/child_number.rs","src/bip32/prefix.rs","src/bip32/extended_key/attrs.rs","src/bip32/extended_key/extended_public_key.rs"],
 [("derived comparison traits","src/bip32/child_number.rs, prefix.rs, extended_key/attrs.rs, extended_key/extended_public_key.rs")],
 None,["==, cmp, partial_cmp, <, <=, >, >=, sort, BTreeSet"])
p("C26","Every refusal gives a reason that is true of the input refused",
 "When a call refuses its input, the error it returns names a fault the input has. BIP39: an unknown word, a wrong number of words (with that number), a wrong checksum, a wrong size (with that number of bits). BIP32: SeedLength only for a seed of wrong length, Depth only for a key already at depth 255, ChildNumber only for a hardened step from a public key or an index or component out of range or out of the grammar, Base58 only for text that is not Base58Check of a key's length, Decode only for a payload, version letters, master rule or path start that is wrong, Crypto only for a key of the wrong kind or value. Signing a digest of wrong length keeps the signer's error as its source. The text of each reason names it, with its number, and different reasons read differently. Where several faults are present, any one of them may be named.",
 ["inputs"],"every refused input, with any combination of faults",
 "Tests check six errors on six fixed inputs.",
 ["src/bip39/error.rs","src/bip32/error.rs","src/error.rs","src/bip39/mnemonic.rs","src/bip39/mnemonic_type.rs","src/bip32/child_number.rs","src/bip32/derivation_path.rs","src/bip32/extended_key/mod.rs"],
 [("error kinds and their display","src/bip39/error.rs, src/bip32/error.rs, src/error.rs"),("where refusals are made","src/bip39/mnemonic_type.rs, src/bip39/mnemonic.rs, src/bip32/child_number.rs, src/bip32/derivation_path.rs, src/bip32/extended_key/")],
 None,["the Err of every fallible call; Display and source of the errors"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))

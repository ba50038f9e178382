#!/usr/bin/env python3
"""Writes MANIFEST.json. Only properties listed in CHECKS are claimed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORACLE = "The reference model is this framework's own code (hashes, secp256k1, base58, BIP39, BIP32 written from the standards and self-tested against published vectors on every run); it and the sampled case space are what is trusted."
CHECKS = {
 "C01": ("runtime monitoring: every encoding compared online with an independent BIP39 model", "exploration", "Sampled entropies of every length class (all-zero/one, single bits, boundary words, random) over both compiled-in languages; every wrong length 0..80. Calls on look-alike arguments follow one another, to show anything remembered under too short a name."),
 "C02": ("runtime monitoring: acceptance verdicts and decodings compared with an independent BIP39 model", "exploration", "Valid sentences, all single-word substitutions of sampled sentences, respellings, whitespace and count faults, random text. Calls on look-alike arguments follow one another, to show anything remembered under too short a name."),
 "C03": ("runtime monitoring: seeds compared with an independent PBKDF2/NFKD model", "exploration", "Passphrases over every Unicode code point class with a golden NFKD table; 72 code points new in Unicode 15 are excluded. Calls on look-alike arguments follow one another, to show anything remembered under too short a name. Inputs whose results hold runs of zero or all-one bytes were found by long searches and are always run."),
 "C05": ("runtime monitoring: exhaustive sweep of words, indices and prefixes against the golden lists", "exploration", "All 2048 words, indices and every prefix of every word are enumerated; negative texts are sampled."),
 "C06": ("runtime monitoring: master keys compared with an independent HMAC-SHA512 model", "exploration", "Sampled seeds of each accepted length, every refused length 0..200. Calls on look-alike arguments follow one another, to show anything remembered under too short a name. Inputs whose results hold runs of zero or all-one bytes were found by long searches and are always run."),
 "C07": ("runtime monitoring: private derivations compared with an independent BIP32 model", "exploration", "Boundary and random keys, chain codes, depths 0..255 and indices. Calls on look-alike arguments follow one another, to show anything remembered under too short a name. Keys with equal fingerprints are among them. Inputs whose results hold runs of zero or all-one bytes were found by long searches and are always run."),
 "C08": ("runtime monitoring: public derivations compared with an independent BIP32 model and with the private branch", "exploration", "Boundary and random keys and points, depths 0..255 and indices. Calls on look-alike arguments follow one another, to show anything remembered under too short a name. Keys with equal fingerprints are among them. Inputs whose results hold runs of zero or all-one bytes were found by long searches and are always run."),
 "C09": ("runtime monitoring: path grammar, printing and list operations compared with a reference parser and list", "exploration", "All byte strings up to length 3 over the grammar's alphabet and more, mutated and random paths, boundary integers."),
 "C10": ("runtime monitoring: path derivation compared with stepwise derivation and the model, all split points", "exploration", "Sampled keys and paths including failing steps and depth overflow. Calls on look-alike arguments follow one another, to show anything remembered under too short a name. Inputs whose results hold runs of zero or all-one bytes were found by long searches and are always run."),
 "C11": ("runtime monitoring: serialised texts compared with an independent Base58Check model, round trips", "exploration", "Boundary and random fields, known and foreign versions. Calls on look-alike arguments follow one another, to show anything remembered under too short a name. Inputs whose results hold runs of zero or all-one bytes were found by long searches and are always run."),
 "C12": ("runtime monitoring: import verdicts compared with an independent BIP32 parser on mutated and forged texts", "exploration", "Every single-bit payload fault and every single-character fault of sampled texts; forged containers with valid checksums. Calls on look-alike arguments follow one another, to show anything remembered under too short a name. Inputs whose results hold runs of zero or all-one bytes were found by long searches and are always run."),
 "C13": ("runtime monitoring: comparison verdicts against field equality, every single-bit difference", "exploration", "Every single bit of every field of sampled keys, multi-field differences, several origins per key. Keys with equal fingerprints, sums or permuted bytes are compared."),
 "C04": ("runtime monitoring: the operating system's random source replaced by a recording, fault-injecting stand-in; online uniqueness and validity monitors across threads, processes and forks", "exploration", "Injected failures, short reads and interruptions at every stage of the getrandom / device fallback; rank and sensitivity of entropy over the served bytes; fresh OS randomness for the uniqueness monitors."),
 "C14": ("runtime monitoring: noninterference of renderings over twin secrets; system calls trapped by a seccomp filter in fresh processes", "exploration", "Twins share fault and position, differ in all content; about 100,000 calls in fresh processes under the filter."),
 "C15": ("runtime monitoring: instrumented allocator inspects watched secret buffers at the moment of release", "exploration", "24 drop routes over four kinds of owner plus in-place drops, in the optimised build without assertions; only owners' memory is judged, not transient copies."),
 "C16": ("runtime monitoring: hostile inputs under overflow checks, AddressSanitizer, an allocation monitor and a hang watchdog", "exploration", "Boundary-biased inputs up to about 1 MB for every public operation and every use of its result."),
 "C17": ("runtime monitoring: ThreadSanitizer and result comparison over racing first uses in fresh processes and shared-object stress", "exploration", "Schedules are those the stress produced (random offsets, 1 to all cores, 2 to 16 threads); distinct interleavings are counted. Single calls are hammered from 2 to 300 threads that are interrupted at random points."),
 "C18": ("runtime monitoring: signatures compared with an independent RFC 6979 model, verified and recovered", "exploration", "Boundary and random keys and digests; every other message length 0..200. Calls on look-alike arguments follow one another, to show anything remembered under too short a name. Inputs whose results hold runs of zero or all-one bytes were found by long searches and are always run."),
 "C19": ("runtime monitoring: public keys, fingerprints and digests compared with an independent model", "exploration", "Boundary and random scalars; message lengths over every RIPEMD block boundary. Inputs whose results hold runs of zero or all-one bytes were found by long searches and are always run."),
 "C20": ("runtime monitoring: valgrind memcheck taint tracking of secret bytes through every comparison, in three optimisation levels", "exploration", "Machine code of this compiler at opt-level 3, s and 0 without assertions; three key types."),
 "C21": ("runtime monitoring: random call histories with every object re-checked against the model; calls compared between warmed and fresh processes", "exploration", "Histories of mixed succeeding, failing and panicking calls over look-alike arguments, in one place in memory, while unwinding, at thread end, inside caller code, in forked children, and under made-up environment variables and clocks."),
 "C22": ("runtime monitoring: a recording, fault-injecting key type compared with the BIP32 protocol model", "exploration", "A refusal injected at every step of creation, import, derivation and path derivation; tweaks around the curve order for the built-in type."),
 "C23": ("runtime monitoring: instrumented allocator and /proc counters around every call, repeated calls and ever-new inputs", "exploration", "Every public operation and its refusals and unwindings; growth is judged over three doublings of the number of calls, so anything bounded by about 60 entries passes."),
 "C24": ("runtime monitoring: whole wallets made, restored, exported, imported and signed with, compared end to end with an independent model, across processes", "exploration", "Sampled wallets over all sizes, both languages, every kind of passphrase and path; restorations through phrase, private and public exports."),
 "C25": ("runtime monitoring: order laws judged on pools of look-alike values", "exploration", "Pools of 12 values, all pairs and triples; XPub itself has no order (its key type has none), so the generic type is ordered over a key type that has one."),
 "C26": ("runtime monitoring: each reported reason looked up among the faults an independent reference finds in the input", "exploration", "Inputs with faults in every layer, alone and together; where several apply any is accepted, so the precedence of reasons is not checked."),
}
checks = []
for i, (t, l, n) in sorted(CHECKS.items()):
    checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                   "technique": t, "level": l, "level_note": n + " " + ORACLE})
ids = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
na = [{"property": i, "reason": "check under construction"} for i in ids if i not in CHECKS]
m = {"version": 1, "setup_cmd": "./check.sh setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo are needed: every monitor observes the public API, the allocator, system calls or the instruction stream from outside."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(f"{V}/MANIFEST.json", "a").write("\n")

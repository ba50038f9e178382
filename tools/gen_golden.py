#!/usr/bin/env python3
"""Regenerates /verif/golden from sources independent of the library's own code paths.

english.txt / chinese_simplified.txt : the official BIP39 lists (contents pinned by the sha256 of the
    files published in bitcoin/bips); the bytes are taken from /repo only if they hash to that value.
gb18030.txt : GB18030 bytes (hex) of every Chinese word, by Python's codec.
nfkd.txt    : full compatibility decompositions and combining classes, by Python's unicodedata,
    without the code points assigned after Unicode 14 (the version the library's tables have).
"""
import hashlib, sys, unicodedata, os
OFF = {
 "english": "2f5eed53a4727b4bf8880d8f3f199efc90e58503646d9ff8eff3a2ed3b24dbda",
 "chinese_simplified": "5c5942792bd8340cb8b27cd592f1015edf56a8c5b26276ee18a482428e7c5726",
}
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "golden")
for n, h in OFF.items():
    dst = os.path.join(here, n + ".txt")
    src = dst if os.path.exists(dst) else "/repo/src/bip39/langs/%s.txt" % n
    b = open(src, "rb").read()
    assert hashlib.sha256(b).hexdigest() == h, (n, "not the official list")
    open(dst, "wb").write(b)
words = open(os.path.join(here, "chinese_simplified.txt"), encoding="utf-8").read().split()
with open(os.path.join(here, "gb18030.txt"), "w") as f:
    for w in words:
        f.write(w.encode("gb18030").hex() + "\n")
NEW = set(list(range(0x10EFD, 0x10F00)) + [0x11F41, 0x11F42] + list(range(0x1E030, 0x1E06E)) + [0x1E08F] + list(range(0x1E4EC, 0x1E4F0)))
with open(os.path.join(here, "nfkd.txt"), "w") as f:
    for cp in range(0x110000):
        if 0xD800 <= cp < 0xE000 or cp in NEW or 0xAC00 <= cp <= 0xD7A3:
            continue
        c = chr(cp)
        d = unicodedata.normalize("NFKD", c)
        ccc = unicodedata.combining(c)
        if d != c or ccc:
            f.write("%x %d %s\n" % (cp, ccc, " ".join("%x" % ord(x) for x in d) if d != c else "-"))

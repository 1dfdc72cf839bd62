"""Independent BIP-32 (private), BIP-39, NIP-06."""
import hashlib, hmac, os, unicodedata
from . import ec
WORDS = open(os.path.join(os.path.dirname(__file__), "bip39_english.txt")).read().split()
assert hashlib.sha256(("\n".join(WORDS) + "\n").encode()).hexdigest() == "2f5eed53a4727b4bf8880d8f3f199efc90e58503646d9ff8eff3a2ed3b24dbda"
IDX = {w: i for i, w in enumerate(WORDS)}
def mnemonic(ent):
    n = len(ent) * 8; cs = n // 32
    v = (int.from_bytes(ent, "big") << cs) | (hashlib.sha256(ent).digest()[0] >> (8 - cs)); n += cs
    return " ".join(WORDS[(v >> (n - 11 * (i + 1))) & 2047] for i in range(n // 11))
def mnemonic_entropy(m):
    w = m.split(" ")
    if len(w) not in (12, 24) or any(x not in IDX for x in w): return None
    v = 0
    for x in w: v = v << 11 | IDX[x]
    cs = len(w) * 11 // 33; ent = (v >> cs).to_bytes(len(w) * 11 * 32 // 33 // 8, "big")
    return ent if v & ((1 << cs) - 1) == hashlib.sha256(ent).digest()[0] >> (8 - cs) else None
def seed(m, p): return hashlib.pbkdf2_hmac("sha512", unicodedata.normalize("NFKD", m).encode(), ("mnemonic" + unicodedata.normalize("NFKD", p)).encode(), 2048)
def master(s):
    h = hmac.new(b"Bitcoin seed", s, hashlib.sha512).digest()
    return (h[:32], h[32:]) if ec.valid_priv(h[:32]) else None
def child(k, i):
    priv, cc = k
    data = (b"\0" + priv if i >> 31 else ec.compressed(priv)) + i.to_bytes(4, "big")
    h = hmac.new(cc, data, hashlib.sha512).digest(); t = ec.b2i(h[:32])
    if t >= ec.N: return None
    x = (t + ec.b2i(priv)) % ec.N
    return (ec.i2b(x), h[32:]) if x else None
def parse_path(p):
    """list of indices or None"""
    if p == "m": return []
    if not p.startswith("m/"): return None
    out = []
    for c in p[2:].split("/"):
        hard = c[-1:] in ("'", "h")
        if hard: c = c[:-1]
        if not c or any(x not in "0123456789" for x in c) or int(c) >= 2**31: return None
        out.append(int(c) | (2**31 if hard else 0))
    return out
def derive(k, idx):
    for i in idx:
        k = child(k, i)
        if k is None: return None
    return k

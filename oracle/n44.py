"""Independent NIP-44 v2 and NIP-04."""
import base64, hashlib, hmac, struct
from . import ec
from .n49 import chacha
def hm(k, m): return hmac.new(k, m, hashlib.sha256).digest()
def shared(priv, pub):
    """x of priv * lift_x(pub), or None"""
    P = ec.lift_x(ec.b2i(pub)); k = ec.b2i(priv)
    if P is None or not 0 < k < ec.N: return None
    return ec.i2b(ec.mul(P, k)[0])
def conv(priv, pub):
    x = shared(priv, pub); return None if x is None else hm(b"nip44-v2", x)
def keys(ck, nonce):
    o = t = b""
    for i in (1, 2, 3): t = hm(ck, t + nonce + bytes([i])); o += t
    return o[:32], o[32:44], o[44:76]
def padlen(n):
    if n <= 32: return 32
    p = 1 << ((n - 1).bit_length()); c = 32 if p <= 256 else p // 8
    return c * ((n - 1) // c + 1)
def pad(t): return struct.pack(">H", len(t)) + t + bytes(padlen(len(t)) - len(t))
def seal(ck, nonce, padded, ver=2):
    k, n, h = keys(ck, nonce); c = chacha(k, 0, n, padded); return bytes([ver]) + nonce + c + hm(h, nonce + c)
def b64(b): return base64.b64encode(b)
def encrypt(ck, nonce, t): return b64(seal(ck, nonce, pad(t)))
def decrypt(ck, s):
    """plaintext of a payload, or None when it must be refused"""
    try: p = base64.b64decode(s, validate=True)
    except Exception: return None
    if b64(p) != s or not 99 <= len(p) <= 65603 or p[0] != 2 or ck is None: return None
    nonce, c, m = p[1:33], p[33:-32], p[-32:]; k, n, h = keys(ck, nonce)
    if hm(h, nonce + c) != m: return None
    t = chacha(k, 0, n, c); l = t[0] << 8 | t[1]
    return t[2:2 + l] if l and len(t) == 2 + padlen(l) else None
# AES-256-CBC
def _tables():
    p = q = 1; S = [0] * 256
    while True:
        p ^= (p << 1) & 255 ^ (0x1b if p & 128 else 0)
        q ^= q << 1; q ^= q << 2; q ^= q << 4; q &= 255
        if q & 128: q ^= 9
        S[p] = ((q ^ ((q << 1 | q >> 7) & 255) ^ ((q << 2 | q >> 6) & 255) ^ ((q << 3 | q >> 5) & 255) ^ ((q << 4 | q >> 4) & 255)) ^ 99)
        if p == 1: break
    S[0] = 99; return S
SB = _tables(); IS = [0] * 256
for _i, _x in enumerate(SB): IS[_x] = _i
def _x2(a): return (a << 1) & 255 ^ (0x1b if a & 128 else 0)
def _mul(a, b):
    r = 0
    while b:
        if b & 1: r ^= a
        a = _x2(a); b >>= 1
    return r
M = {k: [_mul(i, k) for i in range(256)] for k in (2, 3, 9, 11, 13, 14)}
def _exp(key):
    w = [list(key[i:i + 4]) for i in range(0, 32, 4)]; rc = 1
    for i in range(8, 60):
        t = list(w[-1])
        if i % 8 == 0: t = [SB[x] for x in t[1:] + t[:1]]; t[0] ^= rc; rc = _x2(rc)
        elif i % 8 == 4: t = [SB[x] for x in t]
        w.append([a ^ b for a, b in zip(w[-8], t)])
    return [sum(w[i:i + 4], []) for i in range(0, 60, 4)]
def _enc(rk, b):
    s = [x ^ k for x, k in zip(b, rk[0])]
    for r in range(1, 15):
        s = [SB[s[(i + 4 * (i % 4)) % 16]] for i in range(16)]
        if r < 14:
            o = []
            for c in range(0, 16, 4):
                a = s[c:c + 4]; o += [M[2][a[i]] ^ M[3][a[(i + 1) % 4]] ^ a[(i + 2) % 4] ^ a[(i + 3) % 4] for i in range(4)]
            s = o
        s = [x ^ k for x, k in zip(s, rk[r])]
    return bytes(s)
def _dec(rk, b):
    s = [x ^ k for x, k in zip(b, rk[14])]
    for r in range(13, -1, -1):
        s = [IS[s[(i - 4 * (i % 4)) % 16]] for i in range(16)]
        s = [x ^ k for x, k in zip(s, rk[r])]
        if r:
            o = []
            for c in range(0, 16, 4):
                a = s[c:c + 4]; o += [M[14][a[i]] ^ M[11][a[(i + 1) % 4]] ^ M[13][a[(i + 2) % 4]] ^ M[9][a[(i + 3) % 4]] for i in range(4)]
            s = o
    return bytes(s)
def cbc_enc(key, iv, t):
    n = 16 - len(t) % 16; t += bytes([n]) * n; rk = _exp(key); o = b""
    for i in range(0, len(t), 16): iv = _enc(rk, bytes(a ^ b for a, b in zip(t[i:i + 16], iv))); o += iv
    return o
def cbc_dec(key, iv, c):
    if not c or len(c) % 16: return None
    rk = _exp(key); o = b""
    for i in range(0, len(c), 16): o += bytes(a ^ b for a, b in zip(_dec(rk, c[i:i + 16]), iv)); iv = c[i:i + 16]
    n = o[-1]
    return o[:-n] if 1 <= n <= 16 and o[-n:] == bytes([n]) * n else None
if __name__ == "__main__":
    import subprocess, os
    assert _enc(_exp(bytes(range(32))), bytes.fromhex("00112233445566778899aabbccddeeff")).hex() == "8ea2b7ca516745bfeafc49904b496089"
    assert cbc_dec(bytes(range(32)), b"i" * 16, cbc_enc(bytes(range(32)), b"i" * 16, b"hello" * 9)) == b"hello" * 9
    for a, b in ((16, 32), (32, 32), (33, 64), (37, 64), (45, 64), (49, 64), (64, 64), (65, 96), (100, 128), (111, 128), (200, 224), (250, 256), (320, 320), (383, 384), (384, 384), (400, 448), (500, 512), (512, 512), (515, 640), (700, 768), (800, 896), (900, 1024), (1020, 1024), (65536, 65536)): assert padlen(a) == b, (a, b, padlen(a))
    one = ec.i2b(1); two = ec.i2b(2)
    ck = conv(one, ec.pub(two)); assert ck.hex() == "c41c775356fd92eadc63ff5a0dc1da211b268cbea22316767095b2871ea1412d"
    assert encrypt(ck, ec.i2b(1), b"a").endswith(b"Bee0G5VSK0/9YypIObAtDKfYEAjD35uVkHyB0F4DwrcNaCXlCWZKaArsGrY6M9wnuTMxWfp1RTN9Xga8no+kF5Vsb")
    print("ok")

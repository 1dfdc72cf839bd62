"""BIP-173 and NIP-19."""
CH = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"
def polymod(v):
    g = [0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3]; c = 1
    for x in v:
        b = c >> 25; c = (c & 0x1ffffff) << 5 ^ x
        for i in range(5): c ^= g[i] if (b >> i) & 1 else 0
    return c
def hexp(h): return [ord(c) >> 5 for c in h] + [0] + [ord(c) & 31 for c in h]
def checksum(h, d):
    p = polymod(hexp(h) + d + [0] * 6) ^ 1
    return [(p >> 5 * (5 - i)) & 31 for i in range(6)]
def to5(b):
    acc = bits = 0; o = []
    for x in b:
        acc = (acc << 8 | x) & 0xfffff; bits += 8
        while bits >= 5: bits -= 5; o.append((acc >> bits) & 31)
    if bits: o.append((acc << (5 - bits)) & 31)
    return o
def from5(d):
    acc = bits = 0; o = bytearray()
    for x in d:
        acc = (acc << 5 | x) & 0xfffff; bits += 5
        if bits >= 8: bits -= 8; o.append((acc >> bits) & 255)
    if bits >= 5 or (acc & ((1 << bits) - 1)): return None
    return bytes(o)
def enc5(h, d): return h + "1" + "".join(CH[x] for x in d + checksum(h, d))
def encode(h, b): return enc5(h, to5(b))
def decode(s, limit=None):
    """bytes or str -> (hrp, payload bytes) or None; strict BIP-173 (without the 90 limit unless given)"""
    if isinstance(s, bytes):
        try: s = s.decode("ascii")
        except UnicodeDecodeError: return None
    if any(not 33 <= ord(c) <= 126 for c in s): return None
    if s.lower() != s and s.upper() != s: return None
    s = s.lower(); p = s.rfind("1")
    if p < 1 or p + 7 > len(s) or (limit and len(s) > limit): return None
    h, t = s[:p], s[p+1:]
    if any(c not in CH for c in t): return None
    d = [CH.index(c) for c in t]
    if polymod(hexp(h) + d) != 1: return None
    b = from5(d[:-6])
    return None if b is None else (h, b)
def tlv(items): return b"".join(bytes([t, len(v)]) + v for t, v in items)
def untlv(b):
    o = []; i = 0
    while i < len(b):
        if i + 2 > len(b) or i + 2 + b[i+1] > len(b): return None
        o.append((b[i], b[i+2:i+2+b[i+1]])); i += 2 + b[i+1]
    return o

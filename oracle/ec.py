"""Independent secp256k1 / BIP-340 / ECDH (pure Python)."""
import hashlib
P = 2**256 - 2**32 - 977
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
G = (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798,
     0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8)

def _dbl(p):
    X, Y, Z = p
    if not Y: return (0, 1, 0)
    S = 4 * X * Y * Y % P; M = 3 * X * X % P
    x = (M * M - 2 * S) % P
    return (x, (M * (S - x) - 8 * Y * Y * Y * Y) % P, 2 * Y * Z % P)
def _add(p, q):
    if not p[2]: return q
    if not q[2]: return p
    X1, Y1, Z1 = p; X2, Y2, Z2 = q
    z1 = Z1 * Z1 % P; z2 = Z2 * Z2 % P
    U1 = X1 * z2 % P; U2 = X2 * z1 % P; S1 = Y1 * z2 * Z2 % P; S2 = Y2 * z1 * Z1 % P
    if U1 == U2: return _dbl(p) if S1 == S2 else (0, 1, 0)
    H = (U2 - U1) % P; R = (S2 - S1) % P; HH = H * H % P; HHH = H * HH % P; V = U1 * HH % P
    x = (R * R - HHH - 2 * V) % P
    return (x, (R * (V - x) - S1 * HHH) % P, Z1 * Z2 * H % P)
def _aff(p):
    if not p[2]: return None
    zi = pow(p[2], -1, P); z2 = zi * zi % P
    return (p[0] * z2 % P, p[1] * z2 * zi % P)
_T = None
def _table():
    global _T
    if _T is None:
        _T = []; b = (G[0], G[1], 1)
        for i in range(64):
            row = [(0, 1, 0)]
            for j in range(15): row.append(_add(row[-1], b))
            _T.append(row)
            for _ in range(4): b = _dbl(b)
    return _T
def _gmul(k):
    r = (0, 1, 0); T = _table()
    for i in range(64):
        d = (k >> (4 * i)) & 15
        if d: r = _add(r, T[i][d])
    return r
def _mul(p, k):
    tb = [(0, 1, 0)]; q = (p[0], p[1], 1)
    for j in range(15): tb.append(_add(tb[-1], q))
    r = (0, 1, 0)
    for i in range(63, -1, -1):
        for _ in range(4): r = _dbl(r)
        d = (k >> (4 * i)) & 15
        if d: r = _add(r, tb[d])
    return r
def gmul(k): return _aff(_gmul(k % N))
def mul(p, k): return _aff(_mul(p, k % N))
def add(p, q):
    if p is None: return q
    if q is None: return p
    return _aff(_add((p[0], p[1], 1), (q[0], q[1], 1)))
def lift_x(x):
    if x >= P: return None
    c = (pow(x, 3, P) + 7) % P; y = pow(c, (P + 1) // 4, P)
    if y * y % P != c: return None
    return (x, y if y % 2 == 0 else P - y)
def i2b(i): return i.to_bytes(32, "big")
def b2i(b): return int.from_bytes(b, "big")
def valid_priv(b): return 1 <= b2i(b) < N
def pub(b): return i2b(gmul(b2i(b))[0])
def compressed(b):
    p = gmul(b2i(b)); return bytes([2 + (p[1] & 1)]) + i2b(p[0])
def tag(t, m):
    h = hashlib.sha256(t.encode()).digest(); return hashlib.sha256(h + h + m).digest()
def sign(priv, msg, aux):
    d0 = b2i(priv); Pt = gmul(d0); d = d0 if Pt[1] % 2 == 0 else N - d0
    t = d ^ b2i(tag("BIP0340/aux", aux))
    k0 = b2i(tag("BIP0340/nonce", i2b(t) + i2b(Pt[0]) + msg)) % N
    R = gmul(k0); k = k0 if R[1] % 2 == 0 else N - k0
    e = b2i(tag("BIP0340/challenge", i2b(R[0]) + i2b(Pt[0]) + msg)) % N
    return i2b(R[0]) + i2b((k + e * d) % N)
def verify(pk, msg, sig):
    Pt = lift_x(b2i(pk)); r = b2i(sig[:32]); s = b2i(sig[32:])
    if Pt is None or r >= P or s >= N: return False
    e = b2i(tag("BIP0340/challenge", sig[:32] + pk + msg)) % N
    R = _aff(_add(_gmul(s), _mul(Pt, (N - e) % N)))
    return R is not None and R[1] % 2 == 0 and R[0] == r
def ecdh_x(priv, pk):
    """x coordinate of priv * lift_x(pk); None when undefined"""
    Pt = lift_x(b2i(pk))
    if Pt is None or not valid_priv(priv): return None
    return i2b(mul(Pt, b2i(priv))[0])

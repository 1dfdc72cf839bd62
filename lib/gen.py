"""Workload generators: hostile strings, events, mutations."""
from oracle import ec, ev, b32
from .drv import hx, hl
HEX = b"0123456789abcdef"
UNI = ["é", "日本", "😀", "\u200d", "ﬁ", "\u0301", "ß", "\ufeff", "\u2028", "\U0010ffff", "\x80", "\u07ff", "\u0800", "\ud7ff", "\ue000", "\uffff", "\U00010000", "\U000fffff", "\U00100000"]
def rb(r, n): return r.randbytes(n)
def text(r, maxlen=40, hostile=True):
    """byte string without NUL"""
    n = r.choice([0, 1, 2, 3, r.randrange(maxlen + 1), r.randrange(maxlen + 1)]); o = bytearray()
    while len(o) < n:
        k = r.random()
        if k < .5 or not hostile: o.append(r.randrange(32, 127))
        elif k < .62: o.append(r.choice(b'"\\/\n\r\t\b\f'))
        elif k < .72: o.append(r.randrange(1, 32))
        elif k < .76: o.append(127)
        elif k < .92: o += r.choice(UNI).encode()
        else: o += r.choice([b'\\u0041', b'\\n', b'","', b'"]', b'],[', b'null', b'\\"', b'{"a":1}', b'//', b'%s%n'])
    return bytes(o)
def utf8(b):
    try: b.decode("utf-8"); return True
    except UnicodeDecodeError: return False
def hexid(r, n=32): return r.randbytes(n).hex().encode()
TAGN = [b"e", b"p", b"a", b"d", b"t", b"r", b"nonce", b"expiration", b"relay", b"E", b"-", b"alt", b"k", b"q"]
def tag(r):
    n = r.choice(TAGN) if r.random() < .7 else text(r, 12)
    t = [n]
    for _ in range(r.choice([0, 1, 1, 1, 2, 3, 5]) if r.random() < .97 else r.randrange(6, 60)):
        t.append(hexid(r) if r.random() < .3 else text(r, 30) if r.random() < .98 else text(r, 1500))
    return t
def tags(r, mx=8): return [tag(r) for _ in range(r.choice([0, 1, 2, 3, r.randrange(mx + 1)]) if not mx or r.random() < .98 else r.randrange(10, 130))]
KINDS = [0, 1, 3, 4, 5, 6, 7, 9734, 9735, 10000, 10002, 19999, 20000, 29999, 30000, 30023, 39999, 40000, 65535, 65534, 255, 256]
def kind(r): return r.choice(KINDS) if r.random() < .7 else r.randrange(65536)
TIMES = [0, 1, -1, 1700000000, 2**31 - 1, 2**31, 2**32 - 1, 2**32, -2**31, -2**31 - 1, 10**12, 10**15 - 1, 10**15, 10**15 + 1, 2**53 - 1, -(2**53 - 1), 123456789012345, 999999999999999]
def created(r): return r.choice(TIMES) if r.random() < .5 else r.choice([r.randrange(0, 2**31), r.randrange(2**40), r.randrange(-2**33, 2**33)])
class Event:
    __slots__ = ("pk", "created", "kind", "tags", "content", "id", "sig")
    def __init__(s, pk=b"\0" * 32, created=0, kind=1, tags=(), content=b"", id=b"\0" * 32, sig=b"\0" * 64):
        s.pk, s.created, s.kind, s.tags, s.content, s.id, s.sig = pk, created, kind, [list(t) for t in tags], content, id, sig
    def copy(s): return Event(s.pk, s.created, s.kind, s.tags, s.content, s.id, s.sig)
    def eid(s): return ev.eid(s.pk, s.created, s.kind, s.tags, s.content)
    def canon(s): return ev.canon(s.pk, s.created, s.kind, s.tags, s.content)
    def build(s, slot): return ["ev.build", slot, hx(s.pk), s.created, s.kind, hx(s.content)] + [hl(t) for t in s.tags]
    def setall(s, slot): return ["ev.set", slot, hx(s.pk), s.created, s.kind, hx(s.id), hx(s.sig)]
    def view(s): return dict(id=s.id.hex(), pubkey=s.pk.hex(), created_at=s.created, kind=s.kind, tags=[[v.hex() for v in t] for t in s.tags], content=s.content.hex(), sig=s.sig.hex())
    def key(s): return (s.pk, s.created, s.kind, tuple(tuple(t) for t in s.tags), s.content, s.id, s.sig)
    def load(s, d, slot): d.cmd(*s.build(slot)); d.cmd(*s.setall(slot))
def event(r, mx=8, clen=60): return Event(rb(r, 32), created(r), kind(r), tags(r, mx), text(r, clen), rb(r, 32), rb(r, 64))
def signed(r, priv, **kw):
    e = event(r); 
    for k, v in kw.items(): setattr(e, k, v)
    e.pk = ec.pub(priv); e.id = e.eid(); e.sig = ec.sign(priv, e.id, rb(r, 32)); return e
def priv(r): return ec.i2b(r.choice([1, 2, 3, ec.N - 1, ec.N - 2, ec.N // 2, r.randrange(1, 2**64)]) if r.random() < .2 else r.randrange(1, ec.N))
def mutate(r, b, alpha=None):
    """a nearby byte string without NUL"""
    b = bytearray(b)
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        k = r.randrange(6); i = r.randrange(len(b) + 1)
        c = r.choice(alpha) if alpha and r.random() < .7 else r.choice([r.randrange(1, 128), r.randrange(1, 256)])
        if k == 0 and b: b[i % len(b)] = c
        elif k == 1: b.insert(i, c)
        elif k == 2 and b: del b[i % len(b)]
        elif k == 3 and len(b) > 1: i %= len(b) - 1; b[i], b[i+1] = b[i+1], b[i]
        elif k == 4 and b: b[i:i] = b[max(0, i - r.randrange(1, 6)):i]
        elif k == 5 and b: del b[r.randrange(len(b)):]
    return bytes(b)

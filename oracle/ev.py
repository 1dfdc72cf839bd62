"""NIP-01 events: canonical serialization and ids."""
import hashlib, json
ESC = {0x08: b"\\b", 0x09: b"\\t", 0x0a: b"\\n", 0x0c: b"\\f", 0x0d: b"\\r", 0x22: b'\\"', 0x5c: b"\\\\"}
def jstr(b):
    o = bytearray(b'"')
    for c in b:
        if c in ESC: o += ESC[c]
        elif c < 32: o += b"\\u%04x" % c
        else: o.append(c)
    return bytes(o + b'"')
def canon(pk, created, kind, tags, content):
    return b'[0,"' + pk.hex().encode() + b'",%d,%d,[' % (created, kind) + b",".join(b"[" + b",".join(jstr(v) for v in t) + b"]" for t in tags) + b"]," + jstr(content) + b"]"
def eid(pk, created, kind, tags, content): return hashlib.sha256(canon(pk, created, kind, tags, content)).digest()

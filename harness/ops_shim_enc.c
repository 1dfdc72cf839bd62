/* NIP-04 and NIP-44 (only where noscrypt, or its stand-in, is linked) */
#include "driver.h"
OP("nip44.enc") {
    nostr_privkey k; nostr_key p; size_t l = 0; a_fix(v, 0, k.data, 32); a_fix(v, 1, p.data, 32); uint8_t *t = a_buf(v, 2, &l); char *c = NULL; int r; UNUSED;
    LIB(r = nostr_nip44_encrypt(&k, &p, (const char*)t, l, &c)); o_ret(r); if (!r) { o_str("c", c); LIB(free(c)); }
}
OP("nip44.dec") {
    nostr_privkey k; nostr_key p; a_fix(v, 0, k.data, 32); a_fix(v, 1, p.data, 32); char *c = a_str(v, 2), *t = NULL; size_t l = 0; int r; UNUSED;
    LIB(r = nostr_nip44_decrypt(&k, &p, c, &t, &l)); o_ret(r); if (!r) { o_hex("t", t, l); o_int("nul", t[l] == 0); LIB(free(t)); } else o_int("left", t != NULL);
}
OP("nip04.enc") {
    nostr_privkey k; nostr_key p; a_fix(v, 0, k.data, 32); a_fix(v, 1, p.data, 32); char *t = a_str(v, 2), *c = NULL; int r; UNUSED;
    LIB(r = nostr_nip04_encrypt(&k, &p, t, &c)); o_ret(r); if (!r) { o_str("c", c); LIB(free(c)); }
}
OP("nip04.dec") {
    nostr_privkey k; nostr_key p; a_fix(v, 0, k.data, 32); a_fix(v, 1, p.data, 32); char *c = a_str(v, 2), *t = NULL; int r; UNUSED;
    LIB(r = nostr_nip04_decrypt(&k, &p, c, &t)); o_ret(r); if (!r) { o_str("t", t); LIB(free(t)); } else o_int("left", t != NULL);
}
/* Every length from .. to in steps: the length of what was written, and whether it reads back; -1 and -2 for errors */
OP("nip.sweep") {
    int how = (int)a_int(v, 0); nostr_privkey k; nostr_key p; a_fix(v, 1, k.data, 32); a_fix(v, 2, p.data, 32); size_t from = (size_t)a_int(v, 3), to = (size_t)a_int(v, 4), step = (size_t)a_int(v, 5); UNUSED;
    size_t u = 0; char *out = malloc((to - from) / step * 24 + 64); if (!out) die("sweep"); *out = 0;
    for (size_t l = from; l <= to; l += step) {
        char *t = malloc(l + 1), *c = NULL, *b = NULL; size_t bl = 0; long w; if (!t) die("sweep"); for (size_t i = 0; i < l; i++) t[i] = (char)(1 + (i * 31 + l) % 255); t[l] = 0;
        int r; LIB(r = how == 4 ? nostr_nip04_encrypt(&k, &p, t, &c) : nostr_nip44_encrypt(&k, &p, t, l, &c));
        if (r) w = -1; else { w = (long)strlen(c); LIB(r = how == 4 ? nostr_nip04_decrypt(&k, &p, c, &b) : nostr_nip44_decrypt(&k, &p, c, &b, &bl)); if (r || (how == 4 ? strlen(b) : bl) != l || memcmp(b, t, l)) w = -2; }
        u += (size_t)sprintf(out + u, "%ld ", w); free(t); LIB(free(c); free(b));
    }
    o_str("w", out); free(out);
}

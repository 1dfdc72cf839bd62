/* libFuzzer target: the input is a driver script (lines of operations); the mutator edits the arguments of operations
 * inside their decoded form and never the operations' structure, so every input is a legitimate use of the interface. */
#include <stddef.h>
size_t LLVMFuzzerMutate(uint8_t *d, size_t n, size_t max);
static unsigned long long fz_inputs, fz_lines, fz_skipped; 
static void fz_report(void) { fprintf(stderr, "FUZZ-OBSERVED inputs=%llu operations=%llu refused=%llu\n", fz_inputs, fz_lines, fz_skipped); }
int LLVMFuzzerInitialize(int *argc, char ***argv) { (void)argc; (void)argv; cJSON_Hooks h = { vf_malloc, vf_free }; cJSON_InitHooks(&h); vf_det = 1; tolerant = 1; nostr_init(); atexit(fz_report); return 0; }
int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n) {
  static char *volatile buf; static volatile size_t pos; static volatile size_t end; buf = malloc(n + 1); memcpy(buf, d, n); buf[n] = 0; end = n; pos = 0; volatile int lines = 0;
  fz_inputs++;
  while (pos < end && lines < 120) {
    char *l = buf + pos; char *e = memchr(l, '\n', end - pos); size_t len = e ? (size_t)(e - l) : end - pos; pos += len + 1; l[len] = 0; if (memchr(l, 0, len)) break;
    while (*l == ' ') { l++; len--; }
    if (!*l || *l == '#') continue;
    if (!spec_allows(l)) { fz_skipped++; continue; }
    lines++; fz_lines++;
    if (setjmp(die_jb) == 0) run_line(l, 1); else fz_skipped++;
    line_end();
  }
  reset_all(); vf_rng_mode = vf_rng_fail_all = vf_rng_special = 0; vf_fake_time = 0; vf_time_step = 0; vf_jitter = 0; free(ob); ob = NULL; on = oc = 0; free(buf); buf = NULL;
  return 0;
}
/* ---- mutation ---- */
#pragma clang attribute push(__attribute__((no_sanitize("undefined", "coverage"))), apply_to = function)
static uint64_t ms; static unsigned mr(unsigned k) { ms ^= ms << 13; ms ^= ms >> 7; ms ^= ms << 17; return k ? (unsigned)((ms >> 11) % k) : 0; }
typedef struct { unsigned char *p; size_t n, cap; } bs;
static void bgrow(bs *b, size_t n) { if (n >= b->cap) { b->cap = n * 2 + 64; b->p = realloc(b->p, b->cap); } }
static void bput(bs *b, const void *p, size_t n) { bgrow(b, b->n + n); if (!n) return; memcpy(b->p + b->n, p, n); b->n += n; }
static void bins(bs *b, size_t at, const void *p, size_t n) { bgrow(b, b->n + n); if (!n) return; memmove(b->p + at + n, b->p + at, b->n - at); memcpy(b->p + at, p, n); b->n += n; }
static void bdel(bs *b, size_t at, size_t n) { memmove(b->p + at, b->p + at + n, b->n - at - n); b->n -= n; }
static const char *DICT[] = { "\\u0000", "\\ud800", "\\ud83d\\ude00", "\\\"", "\\", "\"", "[", "]", "{", "}", "[[[[[[[[[[[[[[[[", "null", "true", "1e999", "-1", "-0", "1e5", "0.5", "18446744073709551615", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "4294967296", "2147483647", "2147483648", "65535", "65536", "9007199254740993",
  "\"id\":", "\"kind\":", "\"tags\":", "\"content\":", "\"pubkey\":", "\"sig\":", "\"created_at\":", "\"#e\":", "\"ids\":", "\"authors\":", "\"limit\":", "\"search\":", "\"EVENT\"", "\"REQ\"", "\"CLOSE\"", "\"AUTH\"", "\"COUNT\"", "\"names\":", "\"relays\":", "nostr:", "npub1", "note1", "nevent1", "naddr1", "nprofile1", "ncryptsec1", "lnbc", "lnurl1", "kind=", "created_at<", "created_at>", "&",
  "m/", "/", "'", "h", "44'", "@", ".", ":", "_", "%", " ", "\t", "\n", "\r", "\x7f", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xff", "\xc0\x80", "\xed\xa0\x80", "wss://", "https://", "#", "?", "root", "reply", "mention", "expiration", "delegation", "0", "abandon ", "10n", "30023:", "," };
static const unsigned LENS[] = { 0, 1, 2, 7, 8, 15, 16, 17, 31, 32, 33, 50, 60, 63, 64, 65, 66, 83, 89, 90, 91, 100, 110, 127, 128, 129, 130, 140, 200, 240, 253, 254, 255, 256, 257, 258, 260, 300, 400, 480, 500, 510, 511, 512, 513, 520, 600, 900, 1000, 1020, 1022, 1023, 1024, 1025, 1030, 1500, 2000, 2046, 2047, 2048, 2049, 3000, 4094, 4095, 4096, 4097, 4200, 5000, 8190, 8191, 8192, 8193, 10000, 16384, 20000, 32768, 65534, 65535, 65536, 65537 };
static const char *NUMS[] = { "0", "1", "-1", "7", "255", "256", "32767", "32768", "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9007199254740992", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "1e3", "1e400", "00", "99999999999999999999999999999999999999999999999999999999999999999999999999" };
static const char *B32 = "qpzry9x8gf2tvdw0s3jn54khce6mua7l";
static uint32_t b32poly(uint32_t c, int v) { uint32_t t = c >> 25; c = ((c & 0x1ffffff) << 5) ^ v; static const uint32_t G[5] = { 0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3 }; for (int i = 0; i < 5; i++) if ((t >> i) & 1) c ^= G[i]; return c; }
static void mut_bytes(bs *b, int depth);
/* rewrite the payload of a bech32 string inside b, with a correct checksum */
static int mut_bech32(bs *b) {
  size_t best[16], nb = 0; for (size_t i = 1; i + 8 < b->n && nb < 16; i++) if (b->p[i] == '1') { size_t j = i + 1; while (j < b->n && strchr(B32, b->p[j]) && b->p[j]) j++; if (j - i > 8) best[nb++] = i; }
  if (!nb) return 0; size_t one = best[mr(nb)], s = one; while (s > 0 && ((b->p[s-1] >= 'a' && b->p[s-1] <= 'z') || (b->p[s-1] >= '0' && b->p[s-1] <= '9'))) s--;
  if (s == one) return 0; size_t e = one + 1; while (e < b->n && b->p[e] && strchr(B32, b->p[e])) e++;
  size_t nv = e - one - 1 - 6; bs by = { 0 }; unsigned acc = 0, bits = 0; bs raw = { 0 };
  for (size_t i = 0; i < nv; i++) { unsigned char x = (unsigned char)(strchr(B32, b->p[one + 1 + i]) - B32); bput(&raw, &x, 1); acc = ((acc << 5) | x) & 0xfff; bits += 5; if (bits >= 8) { bits -= 8; unsigned char y = acc >> bits; bput(&by, &y, 1); } }
  bs hrp = { 0 }; bput(&hrp, b->p + s, one - s); int how = mr(10);
  if (how < 6) { /* bytes: TLV aware */
    if (mr(2) && by.n > 4) { size_t o = 0; size_t st[64], ns = 0; while (o + 2 <= by.n && ns < 64) { st[ns++] = o; o += 2 + by.p[o + 1]; } size_t q = st[mr(ns)]; 
      switch (mr(5)) { case 0: by.p[q] = mr(3) ? mr(6) : mr(256); break; case 1: by.p[q + 1] = mr(3) ? by.p[q + 1] + (mr(2) ? 1 : -1) : mr(256); break;
        case 2: { unsigned char t[257]; t[0] = mr(5); t[1] = mr(2) ? mr(256) : 32; for (int i = 0; i < t[1]; i++) t[2 + i] = 'a' + mr(26); bins(&by, q, t, 2 + t[1]); break; }
        case 3: { size_t l = by.n - q; if (l > 2 + (size_t)by.p[q + 1]) l = 2 + by.p[q + 1]; unsigned char t[300]; if (l > 300) l = 300; memcpy(t, by.p + q, l); int c = 1 + mr(20); while (c--) bins(&by, q, t, l); break; }
        default: { size_t l = by.n - q; if (l > 2 + (size_t)by.p[q + 1]) l = 2 + by.p[q + 1]; bdel(&by, q, l); } } }
    else mut_bytes(&by, 1);
    raw.n = 0; acc = bits = 0; for (size_t i = 0; i < by.n; i++) { acc = ((acc << 8) | by.p[i]) & 0xfffff; bits += 8; while (bits >= 5) { bits -= 5; unsigned char x = (acc >> bits) & 31; bput(&raw, &x, 1); } }
    if (bits) { unsigned char x = (acc << (5 - bits)) & 31; if (!mr(6)) x ^= 1; bput(&raw, &x, 1); } }
  else if (how < 8) { if (raw.n) { if (mr(2)) raw.p[mr(raw.n)] = mr(32); else if (mr(2)) raw.n -= 1 + mr(raw.n < 4 ? raw.n : 4); else { unsigned char x[3] = { mr(32), mr(32), 0 }; bput(&raw, x, 1 + mr(3)); } } }
  else if (how == 8) { static const char *H[] = { "npub", "nsec", "note", "nprofile", "nevent", "naddr", "nrelay", "ncryptsec", "lnurl", "lnbc1u", "n", "abcdefghijklmnopqrstuvwxyz" }; const char *h = H[mr(12)]; hrp.n = 0; bput(&hrp, h, strlen(h)); }
  uint32_t c = 1; for (size_t i = 0; i < hrp.n; i++) c = b32poly(c, hrp.p[i] >> 5); c = b32poly(c, 0); for (size_t i = 0; i < hrp.n; i++) c = b32poly(c, hrp.p[i] & 31);
  for (size_t i = 0; i < raw.n; i++) c = b32poly(c, raw.p[i]); for (int i = 0; i < 6; i++) c = b32poly(c, 0); c ^= mr(12) ? 1 : 0x2bc830a3;
  bs o = { 0 }; bput(&o, hrp.p, hrp.n); bput(&o, "1", 1); for (size_t i = 0; i < raw.n; i++) bput(&o, B32 + raw.p[i], 1); for (int i = 0; i < 6; i++) bput(&o, B32 + ((c >> (5 * (5 - i))) & 31), 1);
  if (!mr(10)) for (size_t i = 0; i < o.n; i++) if (o.p[i] >= 'a' && o.p[i] <= 'z') o.p[i] -= 32;
  bdel(b, s, e - s); bins(b, s, o.p, o.n); free(o.p); free(hrp.p); free(raw.p); free(by.p); return 1; }
static void mut_bytes(bs *b, int depth) {
  bgrow(b, b->n + 256);
  switch (mr(12)) {
    case 0: case 1: case 2: { size_t m = b->n + 64; bgrow(b, m); b->n = LLVMFuzzerMutate(b->p, b->n, m); break; }
    case 3: { unsigned L = LENS[mr(sizeof LENS / sizeof *LENS)]; if (L > 9000 && mr(4)) L = LENS[mr(50)]; if (L <= b->n) { if (mr(2)) b->n = L; else if (b->n) bdel(b, mr(L + 1), b->n - L); break; }
        size_t add = L - b->n, at = b->n ? mr(b->n + 1) : 0; unsigned char c = mr(2) && b->n ? b->p[at ? at - 1 : 0] : (unsigned char)"a0[{\"\\,/ 1\xc3"[mr(11)]; unsigned char *t = malloc(add + 1); memset(t, c, add); bins(b, at, t, add); free(t); break; }
    case 4: { if (b->n) b->n = mr(b->n); break; }
    case 5: { if (b->n < 2) break; size_t at = mr(b->n), l = 1 + mr(b->n - at), times = 1 + (mr(4) ? 0 : mr(40)); if (l * times > 20000) times = 1; unsigned char *t = malloc(l); memcpy(t, b->p + at, l); size_t to = mr(2) ? at : mr(b->n); while (times--) bins(b, to, t, l); free(t); break; }
    case 6: case 7: { const char *t = DICT[mr(sizeof DICT / sizeof *DICT)]; size_t at = b->n ? mr(b->n + 1) : 0, l = strlen(t); if (mr(3) == 0 && at + l <= b->n) memcpy(b->p + at, t, l); else bins(b, at, t, l); break; }
    case 8: { size_t c = 0; for (size_t i = 0; i < b->n; i++) if (b->p[i] >= '0' && b->p[i] <= '9' && (!i || b->p[i-1] < '0' || b->p[i-1] > '9')) c++; if (!c) break; size_t w = mr(c); 
        for (size_t i = 0; i < b->n; i++) if (b->p[i] >= '0' && b->p[i] <= '9' && (!i || b->p[i-1] < '0' || b->p[i-1] > '9') && !w--) { size_t j = i; while (j < b->n && b->p[j] >= '0' && b->p[j] <= '9') j++; const char *t = NUMS[mr(sizeof NUMS / sizeof *NUMS)]; bdel(b, i, j - i); bins(b, i, t, strlen(t)); break; } break; }
    case 9: { /* a quoted string: change its length */ size_t q[64], nq = 0; for (size_t i = 0; i < b->n && nq < 64; i++) if (b->p[i] == '"') q[nq++] = i; if (nq < 2) break; size_t k = mr(nq - 1), s = q[k] + 1, l = q[k + 1] - s; unsigned L = LENS[mr(sizeof LENS / sizeof *LENS)]; if (L > 5000 && mr(5)) L %= 300;
        if (L < l) bdel(b, s + L, l - L); else { size_t add = L - l; unsigned char *t = malloc(add + 1); for (size_t i = 0; i < add; i++) t[i] = l ? b->p[s + i % l] : 'a'; bins(b, s + l, t, add); free(t); } break; }
    default: if (!depth && mut_bech32(b)) break; if (b->n) { b->p[mr(b->n)] ^= 1u << mr(8); } }
}
static int hexv(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; }
static int dec_tok(const char *s, size_t n, bs *o) { o->n = 0; bgrow(o, n); if (n & 1) return 0; for (size_t i = 0; i < n; i += 2) { int a = hexv(s[i]), c = hexv(s[i+1]); if (a < 0 || c < 0) return 0; o->p[o->n++] = a * 16 + c; } return 1; }
static void put_hex(bs *o, const unsigned char *p, size_t n) { static const char H[] = "0123456789abcdef"; bgrow(o, o->n + 2 * n); for (size_t i = 0; i < n; i++) { o->p[o->n++] = H[p[i] >> 4]; o->p[o->n++] = H[p[i] & 15]; } }
typedef struct { size_t s, n; char cls; } tk;
static size_t toks(const char *d, size_t n, tk *t, size_t max) { /* mutable tokens of a script */
  size_t c = 0, p = 0;
  while (p < n) { size_t e = p; while (e < n && d[e] != '\n') e++; size_t a = p; while (a < e && d[a] == ' ') a++; size_t b = a; while (b < e && d[b] != ' ') b++;
    const char *sp = spec_of(d + a, b - a); if (sp) { if (*sp == '!') sp++; size_t k = 0, sl = strlen(sp); while (b < e) { size_t x = b + 1, y = x; while (y < e && d[y] != ' ') y++; char cls = sp[k < sl ? k : sl - 1]; k++; 
        if (cls == 'f' && !(y > x && d[x] == 'x')) cls = 'k';
        if ((cls == 's' || cls == 'l') && !(y > x && (d[x] == 'x'))) cls = (cls == 'l' && y == x + 1 && d[x] == '_') ? 'l' : 'k';
        if (cls == 'z' && !(y > x && d[x] >= '0' && d[x] <= '9')) cls = 'k'; if (cls == 'i' && !(y > x && ((d[x] >= '0' && d[x] <= '9') || (d[x] == '-' && y > x + 1)))) cls = 'k';
        if (cls != 'k' && c < max) { t[c].s = x; t[c].n = y - x; t[c].cls = cls; c++; } b = y; } }
    p = e + 1; }
  return c; }
size_t LLVMFuzzerCustomMutator(uint8_t *d, size_t n, size_t max, unsigned seed) {
  ms = seed * 0x9E3779B97F4A7C15ull + 0x1234567; for (int i = 0; i < 4; i++) mr(2);
  static tk T[512]; bs cur = { 0 }; bput(&cur, d, n); int rounds = 1 + (mr(3) ? 0 : mr(4));
  while (rounds--) {
    size_t c = toks((char *)cur.p, cur.n, T, 512); if (!c) break; tk *t = &T[mr(c)];
    if (mr(3)) for (int q = 0; q < 4 && t->cls != 's' && t->cls != 'l'; q++) t = &T[mr(c)];
    bs o = { 0 }, x = { 0 }; const char *s = (char *)cur.p + t->s; size_t l = t->n;
    if (t->cls == 's' || t->cls == 'f') { if (!dec_tok(s + 1, l - 1, &x)) { free(x.p); continue; } size_t l0 = x.n; int cp = c > 1 && !mr(14);
        if (cp) { tk *u = &T[mr(c)]; if (u->cls == 's' || u->cls == 'f') { bs z = { 0 }; if (dec_tok((char *)cur.p + u->s + 1, u->n - 1, &z)) { x.n = 0; bput(&x, z.p, z.n); } free(z.p); } } else mut_bytes(&x, 0);
        if (t->cls == 'f') { while (x.n < l0) bput(&x, "\0", 1); x.n = l0; if (l0 == 2 || l0 == 3) ; }
        bput(&o, "x", 1); put_hex(&o, x.p, x.n); }
    else if (t->cls == 'l') { /* pick an element */ 
        if (*s == '_') { const char *r = mr(2) ? "x61" : "x,"; bput(&o, r, strlen(r)); } else {
        size_t ne = 1; for (size_t i = 0; i < l; i++) ne += s[i] == ','; size_t w = mr(ne); int how = mr(6); size_t a = 1; bput(&o, "x", 1);
        for (size_t k = 0; k < ne; k++) { size_t b = a; while (b < l && s[b] != ',') b++; if (k) bput(&o, ",", 1);
          if (k == w && how < 4 && !(b == a + 1 && s[a] == '.') && dec_tok(s + a, b - a, &x)) { mut_bytes(&x, 0); put_hex(&o, x.p, x.n); } else bput(&o, s + a, b - a);
          if (k == w && how == 4) { int times = mr(4) ? 1 : mr(120); while (times--) { bput(&o, ",", 1); bput(&o, s + a, b - a); } }
          if (k == w && how == 5 && ne > 1) { o.n -= b - a; if (k) o.n--; else { /* drop first with its comma */ a = b + 1; size_t b2 = a; while (b2 < l && s[b2] != ',') b2++; k++; bput(&o, s + a, b2 - a); b = b2; } }
          a = b + 1; } } }
    else { char nb[40]; char ib[32] = ""; memcpy(ib, s, l < 31 ? l : 31); long long v = strtoll(ib, NULL, 10); if (t->cls == 'z') { switch (mr(5)) { case 0: v = mr(2) ? v + 1 : v - 1; break; case 1: v = LENS[mr(sizeof LENS / sizeof *LENS)]; break; case 2: v = mr(300); break; case 3: v = v / 2 + mr(3); break; default: v = mr(5); } if (v < 0) v = 0; if (v > 200000) v = 200000; }
        else { if (mr(2)) { v = strtoll(NUMS[mr(20)], NULL, 10); } else v += mr(2) ? 1 : mr(100) - 50; } snprintf(nb, sizeof nb, "%lld", v); bput(&o, nb, strlen(nb)); }
    size_t at = t->s; bdel(&cur, at, l); bins(&cur, at, o.p, o.n); free(o.p); free(x.p); if (cur.n > max) break; }
  if (cur.n > max) { free(cur.p); return n; }
  memcpy(d, cur.p, cur.n); n = cur.n; free(cur.p); return n; }
/* a token of the second input replaces one of the same class in the first */
size_t LLVMFuzzerCustomCrossOver(const uint8_t *a, size_t an, const uint8_t *b, size_t bn, uint8_t *o, size_t max, unsigned seed) {
  ms = seed * 0x9E3779B97F4A7C15ull + 77; for (int i = 0; i < 4; i++) mr(2);
  static tk T[512], U[512]; size_t c = toks((char *)a, an, T, 512), e = toks((char *)b, bn, U, 512); if (!c || !e) return 0;
  for (int q = 0; q < 20; q++) { tk *t = &T[mr(c)], *u = &U[mr(e)]; if (t->cls != u->cls || (t->cls == 'f' && t->n != u->n)) continue; if (t->cls == 'i' || t->cls == 'z') continue; if (an - t->n + u->n > max) continue;
    memcpy(o, a, t->s); memcpy(o + t->s, b + u->s, u->n); memcpy(o + t->s + u->n, a + t->s + t->n, an - t->s - t->n); return an - t->n + u->n; }
  return 0; }
#pragma clang attribute pop

#include "driver.h"
OP("n5.parse") { (void)n; size_t a = a_int(v, 1), b = a_int(v, 2); char *nm = b_out(a), *dm = b_out(b); int r; LIB(r = nostr_nip05_parse(a_str(v, 0), nm, a, dm, b)); o_ret(r);
  if (!r) { o_hex("name", nm, strnlen(nm, a)); o_hex("domain", dm, strnlen(dm, b)); } }
OP("n5.url") { (void)n; size_t a = a_int(v, 2); char *u = b_out(a); int r; LIB(r = nostr_nip05_build_url(a_str(v, 0), a_str(v, 1), u, a)); o_ret(r); if (!r) o_hex("url", u, strnlen(u, a)); }
static void rel(int r, char **rl, size_t c) { if (r) { o_int("dangling", rl != NULL); return; } o_strs("relays", rl, c); nostr_nip05_free_relays(rl, c); }
OP("n5.resp") { (void)n; size_t a = a_int(v, 2); char *pk = b_out(a); char **rl = (char **)1; size_t c = 77; int m = a_int(v, 3), r;
  LIB(r = nostr_nip05_parse_response(a_str(v, 0), a_str(v, 1), pk, a, m & 1 ? &rl : NULL, m & 2 ? &c : NULL)); o_ret(r); if (!r) o_hex("pk", pk, strnlen(pk, a));
  if (m == 3) { if (r && rl == (char **)1) rl = NULL; rel(r, rl, c); } else if ((m & 1) && rl != (char **)1) { o_int("lone", rl != NULL); } }
static VFT struct { char *want; uint8_t *body; size_t len; int mode, calls; char url[2048]; void *ud; } H;
static nostr_error_t cb(const char *url, char **resp, size_t *len, void *ud) { H.calls++; H.ud = ud; snprintf(H.url, sizeof H.url, "%s", url);
  *resp = NULL; *len = 0; if (H.mode == 1) return NOSTR_ERR_CONNECTION; if (H.mode == 2) return NOSTR_OK;
  char *b = malloc(H.len); if (H.len) memcpy(b, H.body, H.len); *resp = b; *len = H.len; if (H.mode == 3) return NOSTR_ERR_TIMEOUT; return NOSTR_OK; }
/* response body exact-size, without terminator; ownership passes to the library */
OP("n5.verify") { (void)n; memset(&H, 0, sizeof H); H.body = a_buf(v, 2, &H.len); H.mode = a_int(v, 3); int m = a_int(v, 4), r; char **rl = (char **)1; size_t c = 77; int x;
  LIB(r = nostr_nip05_verify(a_str(v, 0), a_str(v, 1), cb, &x, m & 1 ? &rl : NULL, m & 2 ? &c : NULL)); o_ret(r); o_int("calls", H.calls); o_str("url", H.url); o_int("ud", !H.calls || H.ud == &x);
  if (m == 3) { if (r && rl == (char **)1) rl = NULL; rel(r, rl, c); } else if ((m & 1) && rl != (char **)1) o_int("lone", rl != NULL); }

#include "driver.h"
static void put(char **v, int i, int r, nostr_event *e) { long s = a_int(v, i); if (!r) { if (EV[s]) nostr_event_destroy(EV[s]); EV[s] = e; o_event("e", e); } else o_int("dangling", e != NULL && e != (nostr_event *)1); }
OP("zap.create") { (void)n; nostr_event *e = (nostr_event *)1; nostr_key k; if (!a_null(v, 2)) a_fix(v, 2, k.data, 32); char **l; int c = a_list(v, 5, &l), r; if (c == 0 && a_int(v, 6) > 0) c = 0;
  LIB(r = nostr_zap_create_request(&e, a_u64(v, 1), a_null(v, 2) ? NULL : &k, a_str(v, 3), a_str(v, 4), (const char **)l, c)); o_ret(r); put(v, 0, r, e); }
OP("zap.lnurl") { (void)n; int r; LIB(r = nostr_zap_validate_lnurl(a_str(v, 0), NULL, NULL)); o_ret(r); }
/* mask: 1 amount, 2 bolt11, 4 preimage, 8 request; outputs start as sentinels */
OP("zap.parse") { (void)n; int m = a_int(v, 1), r; uint64_t am = 0xdeadbeef; char *b = NULL; char *pi = b_out(65); nostr_event *q = NULL; pi[0] = 0;
  LIB(r = nostr_zap_parse_receipt(ev(v, 0), m & 1 ? &am : NULL, m & 2 ? &b : NULL, m & 4 ? pi : NULL, m & 8 ? &q : NULL)); o_ret(r);
  if (!r) { o_u64("amount", m & 1 ? am : 0); o_str("bolt11", b); o_hex("preimage", pi, strnlen(pi, 65)); o_event("req", q); free(b); if (q) nostr_event_destroy(q); }
  else { o_int("dangling", b != NULL || q != NULL); } }
OP("zap.verify") { (void)n; int r; LIB(r = nostr_zap_verify(ev(v, 0), ev(v, 1), a_str(v, 2))); o_ret(r); }

/* relay-side protocol core: kinds, replacement, expiry, timestamps, addresses, deletion requests */
#include "driver.h"
static VFT nostr_deletion_request_t *DR[8];
static void drfree(int i) { if (DR[i]) { LIB(nostr_deletion_free(DR[i])); free(DR[i]); DR[i] = NULL; } }
static void reset_dr(void) { for (int i = 0; i < 8; i++) drfree(i); }
RESET_HOOK(reset_dr)
/* class and the four predicates, one character per kind: r/R e/E a/A p/P; '?' if they disagree */
OP("rp.kinds") { (void)n; long lo = a_int(v, 0), hi = a_int(v, 1); char *s = d_alloc(hi - lo + 1);
  for (long k = lo; k < hi; k++) { nostr_kind_type_t t; bool a, b, c, e; LIB({ t = nostr_kind_get_type((int32_t)k); a = nostr_kind_is_regular((int32_t)k); b = nostr_kind_is_replaceable((int32_t)k); c = nostr_kind_is_ephemeral((int32_t)k); e = nostr_kind_is_addressable((int32_t)k); });
    char x = t == NOSTR_KIND_REGULAR ? 'r' : t == NOSTR_KIND_REPLACEABLE ? 'p' : t == NOSTR_KIND_EPHEMERAL ? 'e' : t == NOSTR_KIND_ADDRESSABLE ? 'a' : '?';
    if (a + b + c + e != 1 || (a && x != 'r') || (b && x != 'p') || (c && x != 'e') || (e && x != 'a')) x = '?';
    s[k - lo] = x; }
  s[hi - lo] = 0; o_str("s", s); }
OP("rp.cmp") { (void)n; int a, b; LIB({ a = nostr_event_compare_replaceable(ev(v, 0), ev(v, 1)); b = nostr_event_compare_addressable(ev(v, 0), ev(v, 1)); }); o_int("a", (a > 0) - (a < 0)); o_int("b", (b > 0) - (b < 0)); }
/* the whole comparison matrix of events 0..n-1, row by row: '<' '=' '>' , '?' if the two functions disagree */
OP("rp.matrix") { (void)n; long m = a_int(v, 0); char *s = d_alloc(m * m + 1); size_t p = 0;
  for (long i = 0; i < m; i++) for (long j = 0; j < m; j++) { int a, b; LIB({ a = nostr_event_compare_replaceable(EV[i], EV[j]); b = nostr_event_compare_addressable(EV[i], EV[j]); });
    a = (a > 0) - (a < 0); b = (b > 0) - (b < 0); s[p++] = a != b ? '?' : a < 0 ? '<' : a > 0 ? '>' : '='; }
  s[p] = 0; o_str("s", s); }
OP("rp.exp") { (void)n; nostr_event *e = ev(v, 0); int64_t x; bool a, b; const char *dt; LIB({ x = nostr_event_get_expiration(e); a = nostr_event_is_expired(e, a_int(v, 1)); b = nostr_event_is_expired_now(e); dt = nostr_event_get_d_tag(e); });
  o_int("exp", x); o_int("at", a); o_int("now", b); o_str("d", dt); }
OP("rp.ts") { (void)n; bool a; int64_t t; LIB({ a = nostr_validate_timestamp(a_int(v, 0), a_int(v, 1)); t = nostr_timestamp_now(); }); o_int("ok", a); o_int("now", t); }
OP("rp.addr") { (void)n; bool a; char *s = a_str(v, 0); LIB(a = nostr_validate_address(s)); o_int("ok", a); }
OP("rp.del") { (void)n; int i = a_int(v, 0) & 7; drfree(i); nostr_deletion_request_t *q = malloc(sizeof *q); memset(q, 0x5a, sizeof *q); int r; LIB(r = nostr_deletion_parse(ev(v, 1), q)); o_ret(r);
  if (r) { free(q); return; } DR[i] = q;
  o_str("pk", q->pubkey); o_str("reason", q->reason); o_arr("ids"); for (size_t k = 0; k < q->event_ids_count; k++) o_str(NULL, q->event_ids[k]); o_aend(); o_arr("addrs"); for (size_t k = 0; k < q->addresses_count; k++) o_str(NULL, q->addresses[k]); o_aend(); }
OP("rp.auth") { (void)n; nostr_deletion_request_t *q = DR[a_int(v, 0) & 7]; nostr_event *e = ev(v, 1); bool a, b; LIB({ a = nostr_deletion_authorized(q, e); b = nostr_deletion_authorized_address(q, e); }); o_int("id", a); o_int("addr", b); o_int("isdel", nostr_event_is_deletion(e)); }
OP("rp.delfree") { (void)n; int i = a_int(v, 0) & 7; nostr_deletion_request_t *q = DR[i]; if (!q) return; LIB({ nostr_deletion_free(q); nostr_deletion_free(q); nostr_deletion_free(NULL); }); o_int("clean", !q->event_ids && !q->addresses && !q->reason && !q->event_ids_count && !q->addresses_count); free(q); DR[i] = NULL; }
/* full validation with the message formatted into every buffer size up to the given one */
OP("rp.full") { (void)n; nostr_event *e = ev(v, 0); nostr_validation_result_t vr; memset(&vr, 0x5a, sizeof vr); int r; LIB(r = nostr_event_validate_full(e, a_int(v, 1), &vr)); o_ret(r); o_int("valid", vr.valid); o_int("code", vr.error_code);
  o_str("field", vr.error_field); o_str("msg", vr.error_message); size_t sz = a_int(v, 2); char *b = b_out(sz); size_t l; LIB(l = nostr_validation_error_format(&vr, b, sz)); o_int("len", l); if (l) { size_t m = strnlen(b, sz); o_int("nul", m < sz); o_hex("fmt", b, m); } }

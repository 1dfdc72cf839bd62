#include "driver.h"
extern void o_filter(const char *k, const nostr_filter_t *f);
/* cm.parse text mode(1: C string with length 0; 2: dirty output struct) ; result is read through accessors and struct, then freed twice */
OP("cm.parse") { (void)n; int m = a_int(v, 1), r; nostr_client_msg_t x; memset(&x, m & 2 ? 0xA5 : 0, sizeof x); size_t l;
  if ((m & 1) || !strcmp(v[0], "x")) { char *s = a_str(v, 0); LIB(r = nostr_client_msg_parse(s, 0, &x)); } else { uint8_t *s = a_buf(v, 0, &l); LIB(r = nostr_client_msg_parse((char *)s, l, &x)); }
  o_ret(r); int ty = nostr_client_msg_get_type(&x); o_int("type", ty); const nostr_event *e = nostr_client_msg_get_event(&x); if (e) o_event("event", e);
  const char *s = nostr_client_msg_get_subscription_id(&x); if (s) o_str("sub", s); size_t c = 77; const nostr_filter_t *f = nostr_client_msg_get_filters(&x, &c); o_int("nf", c);
  if (f) { o_arr("filters"); for (size_t i = 0; i < c; i++) o_filter(NULL, &f[i]); o_aend(); }
  LIB({ nostr_client_msg_free(&x); nostr_client_msg_free(&x); }); }
/* rm.ser type bufsize args... : constructors then serialization into an exact buffer */
OP("rm.ser") { (void)n; int t = a_int(v, 0), r; size_t b = a_int(v, 1); nostr_relay_msg_t m; memset(&m, 0xA5, sizeof m); char *buf = b_out(b); size_t len = 424242;
  LIB(switch (t) {
    case 0: nostr_relay_msg_event(&m, a_str(v, 2), ev(v, 3)); break;
    case 1: nostr_relay_msg_ok(&m, a_str(v, 2), a_int(v, 3), a_str(v, 4)); break;
    case 2: nostr_relay_msg_eose(&m, a_str(v, 2)); break;
    case 3: nostr_relay_msg_closed(&m, a_str(v, 2), a_str(v, 3)); break;
    case 4: nostr_relay_msg_notice(&m, a_str(v, 2)); break;
    case 5: nostr_relay_msg_auth(&m, a_str(v, 2)); break;
    case 6: nostr_relay_msg_count(&m, a_str(v, 2), a_int(v, 3), a_int(v, 4)); break;
    default: memset(&m, 0, sizeof m); m.type = (nostr_relay_msg_type_t)t; });
  o_int("type", m.type); LIB(r = nostr_relay_msg_serialize(&m, buf, b, &len)); o_ret(r); o_int("len", len);
  if (!r) { o_hex("out", buf, strnlen(buf, b)); o_int("nul", strnlen(buf, b) < b); int z = 1; for (size_t i = len + 1; i < b; i++) z &= (unsigned char)buf[i] == 0xA5; o_int("untouched", z); char *b2 = b_out(b); int r2; LIB(r2 = nostr_relay_msg_serialize(&m, b2, b, NULL)); o_int("nolen", !r2 && !memcmp(buf, b2, len + 1)); } }
OP("rm.null") { (void)n; (void)v; nostr_relay_msg_t m; memset(&m, 0, sizeof m); m.type = NOSTR_RELAY_MSG_EOSE; char b[64]; size_t l; int bad = 0; nostr_client_msg_t x; LIB({
  bad |= nostr_relay_msg_serialize(NULL, b, 64, &l) == 0; bad |= (nostr_relay_msg_serialize(&m, NULL, 64, &l) == 0) << 1; bad |= (nostr_relay_msg_serialize(&m, b, 0, &l) == 0) << 2;
  bad |= (nostr_client_msg_parse(NULL, 3, &x) == 0) << 3; bad |= (nostr_client_msg_parse("[]", 2, NULL) == 0) << 4; nostr_client_msg_free(NULL);
  nostr_relay_msg_event(NULL, "x", NULL); nostr_relay_msg_ok(NULL, "x", 1, "y"); nostr_relay_msg_eose(NULL, "x"); nostr_relay_msg_closed(NULL, "x", "y"); nostr_relay_msg_notice(NULL, "y"); nostr_relay_msg_auth(NULL, "x"); nostr_relay_msg_count(NULL, "x", 1, 1); });
  o_ret(bad); }

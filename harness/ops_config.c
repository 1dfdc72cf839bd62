#include "driver.h"
/* cfg values: 13 integers in struct order */
static void a_cfg(char **v, int i, nostr_config *c) {
  c->nip44_min_plaintext_size = (uint32_t)a_u64(v, i); c->nip44_max_plaintext_size = (uint32_t)a_u64(v, i + 1); c->max_sessions = (uint32_t)a_u64(v, i + 2); c->session_timeout_secs = (uint32_t)a_u64(v, i + 3);
  c->max_permissions = (uint32_t)a_u64(v, i + 4); c->max_content_size = (uint32_t)a_u64(v, i + 5); c->max_tags = (uint32_t)a_u64(v, i + 6); c->max_tag_values = (uint32_t)a_u64(v, i + 7);
  c->relay_connect_timeout_ms = (uint32_t)a_u64(v, i + 8); c->relay_response_timeout_ms = (uint32_t)a_u64(v, i + 9); c->encryption_default_nip = (int)a_int(v, i + 10); c->secure_memory_lock = (int)a_int(v, i + 11); c->debug_mode = (int)a_int(v, i + 12); }
static void o_cfg(const char *k, const nostr_config *c) {
  o_arr(k); if (c) { o_u64(NULL, c->nip44_min_plaintext_size); o_u64(NULL, c->nip44_max_plaintext_size); o_u64(NULL, c->max_sessions); o_u64(NULL, c->session_timeout_secs); o_u64(NULL, c->max_permissions); o_u64(NULL, c->max_content_size); o_u64(NULL, c->max_tags); o_u64(NULL, c->max_tag_values);
    o_u64(NULL, c->relay_connect_timeout_ms); o_u64(NULL, c->relay_response_timeout_ms); o_int(NULL, c->encryption_default_nip); o_int(NULL, c->secure_memory_lock); o_int(NULL, c->debug_mode); } o_aend(); }
OP("cfg.defaults") { UNUSED; nostr_config *c = b_out(sizeof *c); int r; LIB(r = nostr_config_get_defaults(c)); o_ret(r); o_cfg("c", c); }
OP("cfg.validate") { (void)n; nostr_config c; a_cfg(v, 0, &c); int r; LIB(r = nostr_config_validate(&c)); o_ret(r); }
OP("cfg.current") { UNUSED; const nostr_config *c; LIB(c = nostr_config_get_current()); o_cfg("c", c); }
OP("cfg.init") { (void)n; int r; if (a_null(v, 0)) { LIB(r = nostr_init_with_config(NULL)); } else { nostr_config c; a_cfg(v, 0, &c); LIB(r = nostr_init_with_config(&c)); memset(&c, 0xee, sizeof c); } o_ret(r); }
/* callback log and behaviour: mode 0 none, 1 log, 2 log + read current, 3 log + set another callback, 4 log + nested update (once), 5 log + clear callback */
static struct { nostr_config o, nw, cur; int have_cur; void *ud; int r; } clog_[64]; static int nclog; static int cmode; static nostr_config nested; static int nested_done;
static void cb(const nostr_config *o, const nostr_config *nw, void *ud);
static void cb2(const nostr_config *o, const nostr_config *nw, void *ud) { cb(o, nw, ud); }
static void cb(const nostr_config *o, const nostr_config *nw, void *ud) {
  if (nclog >= 64) return; int i = nclog++;
  clog_[i].o = *o; clog_[i].nw = *nw; clog_[i].ud = ud; clog_[i].have_cur = 0; clog_[i].r = -1;
  if (cmode >= 2) { const nostr_config *c = nostr_config_get_current(); if (c) { clog_[i].cur = *c; clog_[i].have_cur = 1; } }
  if (cmode == 3) nostr_config_set_callback(cb2, (void *)0x22);
  if (cmode == 4 && !nested_done) { nested_done = 1; clog_[i].r = nostr_config_update(&nested); }
  if (cmode == 5) nostr_config_set_callback(NULL, NULL);
}
OP("cfg.cb") { cmode = (int)a_int(v, 0); nested_done = 0; if (n > 1) a_cfg(v, 1, &nested); int r; LIB(r = nostr_config_set_callback(cmode ? cb : NULL, (void *)0x11)); o_ret(r); }
OP("cfg.update") { (void)n; int r; nclog = 0; if (a_null(v, 0)) { LIB(r = nostr_config_update(NULL)); } else if (v[0][0] == 'c') { LIB(r = nostr_config_update(nostr_config_get_current())); } else { nostr_config c; a_cfg(v, 0, &c); LIB(r = nostr_config_update(&c)); memset(&c, 0xee, sizeof c); } o_ret(r);
  o_arr("log"); for (int i = 0; i < nclog; i++) { o_obj(NULL); o_cfg("o", &clog_[i].o); o_cfg("n", &clog_[i].nw); o_int("ud", (long)clog_[i].ud); o_int("nr", clog_[i].r); o_cfg("cur", clog_[i].have_cur ? &clog_[i].cur : NULL); o_end(); } o_aend(); }
/* cfg.env base13 NAME value ... : set the environment (value "-" unsets) and load it over base */
OP("cfg.env") { nostr_config *c = b_out(sizeof *c); a_cfg(v, 0, c); for (int i = 13; i + 1 < n; i += 2) { char *k = a_str(v, i), *x = a_str(v, i + 1); if (x) setenv(k, x, 1); else unsetenv(k); } int r; LIB(r = nostr_config_load_env(c)); o_ret(r); o_cfg("c", c); for (int i = 13; i + 1 < n; i += 2) unsetenv(a_str(v, i)); }
OP("cfg.setenv") { (void)n; char *k = a_str(v, 0), *x = a_str(v, 1); if (x) setenv(k, x, 1); else unsetenv(k); }
OP("feat") { (void)n; int nip = (int)a_int(v, 0); int r; LIB(r = nostr_feature_nip_supported(nip)); o_ret(r); }
OP("feat.list") { UNUSED; const char *s; LIB(s = nostr_feature_list_enabled()); o_str("s", s); }
OP("errstr") { (void)n; o_str("s", nostr_error_string((nostr_error_t)a_int(v, 0))); o_str("rs", nostr_relay_error_string((nostr_relay_error_t)a_int(v, 0))); }
OP("feat.info") { UNUSED; int a, b, c, d; const char *s; LIB({ a = nostr_feature_relay_available(); b = nostr_feature_hd_keys_available(); c = nostr_feature_json_enhanced_available(); d = nostr_feature_relay_protocol_available(); s = nostr_feature_crypto_backend_info(); });
  o_int("relay", a); o_int("hd", b); o_int("json", c); o_int("rp", d); o_str("backend", s); LIB(s = nostr_version()); o_str("version", s); }

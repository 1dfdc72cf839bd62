/* relay information documents: one document built by steps, serialized, freed */
#include "driver.h"
static VFT nostr_relay_info_t *I; static VFT char *own[4096]; static VFT size_t nown;
static char *keepstr(char **v, int i) { char *s = a_str(v, i); if (!s) return NULL; size_t l = strlen(s) + 1; char *c = malloc(l); memcpy(c, s, l); if (nown >= 4096) die("too many strings"); return own[nown++] = c; }
static char *libstr(char **v, int i) { char *s = a_str(v, i); if (!s) return NULL; size_t l = strlen(s) + 1; char *c = malloc(l); memcpy(c, s, l); return c; }
static void strs_free(void) { while (nown) free(own[--nown]); }
static void ri_reset(void) { if (I) { LIB(nostr_relay_info_free(I)); free(I); I = NULL; } strs_free(); }
RESET_HOOK(ri_reset)
static int32_t *ints(char **v, int i, size_t *n) { size_t l; uint8_t *b = a_buf(v, i, &l); *n = l / 4; if (!b) return NULL; int32_t *p = malloc(l); memcpy(p, b, l); return p; }
OP("ri.new") { UNUSED; ri_reset(); I = malloc(sizeof *I); memset(I, 0x5a, sizeof *I); LIB(nostr_relay_info_init(I)); }
OP("ri.str") { (void)n; const char **f[] = { &I->name, &I->description, &I->banner, &I->icon, &I->pubkey, &I->self_pubkey, &I->contact, &I->software, &I->version, &I->privacy_policy, &I->terms_of_service, &I->posting_policy, &I->payments_url }; *f[a_int(v, 0)] = keepstr(v, 1); }
static void limset(nostr_relay_limitation_t *L, int k, long long x) { int32_t *f[] = { &L->max_message_length, &L->max_subscriptions, &L->max_filters, &L->max_limit, &L->max_subid_length, &L->max_event_tags, &L->max_content_length, &L->min_pow_difficulty, &L->default_limit };
  if (k < 9) *f[k] = (int32_t)x; else if (k == 9) L->auth_required = x; else if (k == 10) L->payment_required = x; else if (k == 11) L->restricted_writes = x; else if (k == 12) L->created_at_lower_limit = x; else L->created_at_upper_limit = x; }
OP("ri.lim") { (void)n; limset(&I->limitation, a_int(v, 0), a_int(v, 1)); }
OP("ri.nips") { (void)n; size_t c; int32_t *p = ints(v, 0, &c); if (!a_null(v, 1)) c = a_int(v, 1); int r; LIB(r = nostr_relay_info_set_nips(I, p, c)); o_ret(r); if (p) memset(p, 0xdd, c * 4); free(p); }
OP("ri.nips_alias") { (void)n; size_t off = a_int(v, 0), c = a_int(v, 1); int r; LIB(r = nostr_relay_info_set_nips(I, I->supported_nips + off, c)); o_ret(r); }
OP("ri.addnip") { int r = 0; for (int i = 0; i < n && !r; i++) LIB(r = nostr_relay_info_add_nip(I, (int32_t)a_int(v, i))); o_ret(r); }
OP("ri.ret") { (void)n; I->retention = realloc(I->retention, (I->retention_count + 1) * sizeof *I->retention); nostr_relay_retention_t *x = &I->retention[I->retention_count++]; memset(x, 0, sizeof *x); x->kinds = ints(v, 0, &x->kinds_count); x->time = a_int(v, 1); x->count = (int32_t)a_int(v, 2); }
OP("ri.list") { (void)n; int w = a_int(v, 0); const char ***f[] = { &I->relay_countries, &I->language_tags, &I->tags }; size_t *c[] = { &I->relay_countries_count, &I->language_tags_count, &I->tags_count };
  *f[w] = realloc((void *)*f[w], (*c[w] + 1) * sizeof(char *)); (*f[w])[(*c[w])++] = keepstr(v, 1); }
OP("ri.fee") { (void)n; int w = a_int(v, 0); nostr_relay_fee_t **f[] = { &I->fees.admission, &I->fees.subscription, &I->fees.publication }; size_t *c[] = { &I->fees.admission_count, &I->fees.subscription_count, &I->fees.publication_count };
  *f[w] = realloc(*f[w], (*c[w] + 1) * sizeof **f[w]); nostr_relay_fee_t *x = &(*f[w])[(*c[w])++]; memset(x, 0, sizeof *x); x->amount = a_u64(v, 1); x->unit = libstr(v, 2); x->period = (uint32_t)a_u64(v, 3); x->kinds = ints(v, 4, &x->kinds_count); }
static void ser(int lim, char **v) { size_t sz = a_int(v, 0), out = 0x5a5a; char *b = b_out(sz); int r; size_t *po = a_int(v, 1) ? &out : NULL; if (lim) { LIB(r = nostr_relay_limitation_serialize(&I->limitation, b, sz, po)); } else { LIB(r = nostr_relay_info_serialize(I, b, sz, po)); }
  o_ret(r); if (po) o_int("len", out); if (!r) { size_t m = strnlen(b, sz); o_int("nul", m < sz); o_hex("s", b, m); } }
OP("ri.ser") { (void)n; ser(0, v); }
OP("ri.limser") { (void)n; ser(1, v); }
OP("ri.nipsget") { UNUSED; o_int("n", I->supported_nips_count); o_arr("v"); for (size_t i = 0; i < I->supported_nips_count; i++) o_int(NULL, I->supported_nips[i]); o_aend(); }
OP("ri.free") { UNUSED; LIB({ nostr_relay_info_free(I); nostr_relay_info_free(I); nostr_relay_info_free(NULL); }); static const nostr_relay_info_t zero; o_int("zero", memcmp(I, &zero, sizeof zero) == 0 || (I->supported_nips == NULL && !I->fees.admission && !I->retention)); }
OP("ri.null") { UNUSED; char b[8]; size_t l = 0; int bad = 0; LIB({ nostr_relay_info_init(NULL); nostr_relay_limitation_init(NULL); bad += nostr_relay_info_serialize(NULL, b, 8, &l) == 0; bad += nostr_relay_limitation_serialize(NULL, b, 8, &l) == 0; bad += nostr_relay_info_set_nips(NULL, NULL, 0) == 0; bad += nostr_relay_info_add_nip(NULL, 1) == 0; });
  nostr_relay_info_t t; nostr_relay_info_init(&t); LIB({ bad += nostr_relay_info_serialize(&t, NULL, 8, &l) == 0; bad += nostr_relay_info_serialize(&t, b, 0, &l) == 0; bad += nostr_relay_limitation_serialize(&t.limitation, NULL, 8, &l) == 0; bad += nostr_relay_limitation_serialize(&t.limitation, b, 0, &l) == 0; }); nostr_relay_info_free(&t); o_ret(bad); }

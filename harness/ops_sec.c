#include "driver.h"
/* secrets: several at once, what destruction leaves, and a canary for the monitors */
OP("vf.secrets") { (void)n; vf_secret_clear(); for (int i = 0; i < n; i++) { size_t l; uint8_t *b = a_buf(v, i, &l); vf_secret_add(b, l); memset(b, 0, l); } }
OP("kp.life") { (void)n; nostr_keypair *k = b_out(sizeof *k); int r = -1, r2 = 0; const char *t = v[0];
  if (!strcmp(t, "generate")) LIB(r = nostr_keypair_generate(k));
  else if (!strcmp(t, "init")) LIB(r = nostr_keypair_init(k));
  else if (!strcmp(t, "fromhex")) { char *s = a_str(v, 1); LIB(r = nostr_keypair_from_private_hex(k, s)); }
  else if (!strcmp(t, "frompriv")) { nostr_privkey *p = b_out(32); a_fix(v, 1, p->data, 32); LIB(r = nostr_keypair_from_private_key(k, p)); }
  else if (!strcmp(t, "inplace")) { a_fix(v, 1, k->privkey.data, 32); LIB(r = nostr_keypair_from_private_key(k, &k->privkey)); }
  else if (!strcmp(t, "hd")) { nostr_hd_key *h = b_out(sizeof *h); size_t l; uint8_t *b = a_buf(v, 1, &l); LIB(r = nostr_hd_key_from_seed(b, l, h)); if (!r) LIB(r = nostr_hd_key_to_keypair(h, k)); }
  else if (!strcmp(t, "mnemonic")) { char *s = a_str(v, 1); LIB(r = nostr_mnemonic_to_keypair(s, NULL, 3, k)); }
  else die("kind");
  o_ret(r); o_hex("before", k, sizeof *k);
  int reps = (int)a_int(v, 2); for (int i = 0; i < reps; i++) LIB(nostr_keypair_destroy(k));
  o_hex("after", k, sizeof *k); LIB(r2 = nostr_keypair_private_key(k) != NULL); o_int("usable", r2); }
#ifdef VF_SEC
static unsigned char canary_static[64];
__attribute__((noinline)) static void canary_stack(const uint8_t *b, size_t l) { volatile unsigned char x[64]; for (size_t i = 0; i < l && i < 64; i++) x[i] = b[i]; }
OP("sec.canary") { (void)n; size_t l; uint8_t *b = a_buf(v, 1, &l); const char *t = v[0]; if (l > 64) l = 64;
  if (!strcmp(t, "stack")) LIB(canary_stack(b, l));
  else if (!strcmp(t, "heap")) LIB({ unsigned char *p = malloc(l); memcpy(p, b, l); __asm__ volatile("" :: "r"(p) : "memory"); free(p); });
  else if (!strcmp(t, "realloc")) LIB({ unsigned char *p = malloc(l); memcpy(p, b, l); __asm__ volatile("" :: "r"(p) : "memory"); p = realloc(p, 4096); __asm__ volatile("" :: "r"(p) : "memory"); explicit_bzero(p, 4096); free(p); });
  else if (!strcmp(t, "static")) { LIB(memcpy(canary_static, b, l)); explicit_bzero(canary_static, 64); }
  else LIB((void)0); }
#endif

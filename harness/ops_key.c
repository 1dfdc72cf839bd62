#include "driver.h"
#define MAYBE(T, x, i) T x##_, *x = NULL; if (!a_null(v, i)) { a_fix(v, i, x##_.data, 32); x = &x##_; }
/* hex codecs */
OP("hex.decode") { (void)n; char *s = a_str(v, 0); size_t m = a_int(v, 1); uint8_t *o = b_out(m); int r; LIB(r = nostr_hex_decode(s, o, m)); o_ret(r); o_hex("o", o, m); }
OP("hex.encode") { (void)n; size_t l; uint8_t *b = a_buf(v, 0, &l); char *o = b_out(2 * l + 1); LIB(nostr_hex_encode(b, l, o)); o_hex("o", o, 2 * l + 1); }
OP("hex.to_bytes") { (void)n; size_t l; char *s = (char *)a_buf(v, 0, &l); size_t m = a_int(v, 1); uint8_t *o = b_out(m); int r; LIB(r = nostr_hex_to_bytes(s, l, o, m)); o_ret(r); o_hex("o", o, m); }
OP("hex.from_bytes") { (void)n; size_t l; uint8_t *b = a_buf(v, 0, &l); char *o = b_out(2 * l + 1); LIB(nostr_bytes_to_hex(b, l, o)); o_hex("o", o, 2 * l + 1); }
OP("key.fromhex") { (void)n; char *s = a_str(v, 0); nostr_key *k = b_out(sizeof *k); int r; LIB(r = nostr_key_from_hex(s, k)); o_ret(r); o_hex("o", k->data, 32); }
OP("key.tohex") { (void)n; nostr_key k; a_fix(v, 0, k.data, 32); size_t m = a_int(v, 1); char *o = b_out(m); int r; LIB(r = nostr_key_to_hex(&k, o, m)); o_ret(r); o_hex("o", o, m); }
OP("priv.fromhex") { (void)n; char *s = a_str(v, 0); nostr_privkey *k = b_out(sizeof *k); int r; LIB(r = nostr_privkey_from_hex(s, k)); o_ret(r); o_hex("o", k->data, 32); }
OP("priv.tohex") { (void)n; nostr_privkey k; a_fix(v, 0, k.data, 32); size_t m = a_int(v, 1); char *o = b_out(m); int r; LIB(r = nostr_privkey_to_hex(&k, o, m)); o_ret(r); o_hex("o", o, m); }
OP("valid.hex") { (void)n; char *s = a_str(v, 0); bool a, b, c; LIB({ a = nostr_validate_hex64(s); b = nostr_validate_hex_prefix(s); c = nostr_validate_subscription_id(s); }); o_int("hex64", a); o_int("prefix", b); o_int("subid", c); }
/* key pairs */
static void kp_out(nostr_keypair *k) { o_hex("priv", k->privkey.data, 32); o_hex("pub", k->pubkey.data, 32); o_int("init", k->initialized); }
OP("key.generate") { UNUSED; nostr_privkey *p = b_out(32); nostr_key *q = b_out(32); int r; LIB(r = nostr_key_generate(p, q)); o_ret(r); o_hex("priv", p->data, 32); o_hex("pub", q->data, 32); }
OP("kp.generate") { UNUSED; nostr_keypair *k = b_out(sizeof *k); int r; LIB(r = nostr_keypair_generate(k)); o_ret(r); kp_out(k); }
OP("kp.init") { UNUSED; nostr_keypair *k = b_out(sizeof *k); int r; LIB(r = nostr_keypair_init(k)); o_ret(r); kp_out(k); }
OP("kp.fromhex") { (void)n; char *s = a_str(v, 0); nostr_keypair *k = b_out(sizeof *k); int r; LIB(r = nostr_keypair_from_private_hex(k, s)); o_ret(r); kp_out(k); }
OP("kp.frompriv") { (void)n; nostr_privkey p; a_fix(v, 0, p.data, 32); nostr_keypair *k = b_out(sizeof *k); int r; LIB(r = nostr_keypair_from_private_key(k, &p)); o_ret(r); kp_out(k); }
OP("kp.validate") { (void)n; nostr_keypair k; memset(&k, 0, sizeof k); a_fix(v, 0, k.privkey.data, 32); a_fix(v, 1, k.pubkey.data, 32); k.initialized = (int)a_int(v, 2); int r; LIB(r = nostr_keypair_validate(&k)); o_ret(r); }
OP("kp.export") { (void)n; nostr_keypair k; memset(&k, 0, sizeof k); a_fix(v, 0, k.privkey.data, 32); a_fix(v, 1, k.pubkey.data, 32); k.initialized = (int)a_int(v, 2); size_t m = a_int(v, 3); char *a = b_out(m), *b = b_out(m); int r; LIB(r = nostr_keypair_export_private_hex(&k, a, m)); o_ret(r); o_hex("priv", a, m); LIB(r = nostr_keypair_export_public_hex(&k, b, m)); o_int("r2", r); o_hex("pub", b, m);
  const nostr_key *q = nostr_keypair_public_key(&k); const nostr_privkey *p = nostr_keypair_private_key(&k); o_hex("gpub", q ? q->data : NULL, 32); o_hex("gpriv", p ? p->data : NULL, 32); }
OP("kp.destroy") { (void)n; nostr_keypair *k = b_out(sizeof *k); nostr_privkey p; a_fix(v, 0, p.data, 32); int r; LIB(r = nostr_keypair_from_private_key(k, &p)); o_ret(r); LIB(nostr_keypair_destroy(k)); o_hex("mem", k, sizeof *k); }
OP("wipe.at") { (void)n; size_t l; uint8_t *b = a_buf(v, 0, &l); size_t off = a_int(v, 1), m = a_int(v, 2); LIB(secure_wipe(b + off, m)); o_hex("mem", b, l); }
OP("uri.freemem") { (void)n; char *s = a_str(v, 0); nostr_uri *u = b_out(sizeof *u); int r; LIB(r = nostr_uri_parse(s, u)); o_ret(r); if (!r) { LIB(nostr_uri_free(u)); o_hex("mem", u, 96); } }
OP("wipe") { (void)n; size_t l; uint8_t *b = a_buf(v, 0, &l); LIB(secure_wipe(b, l)); o_hex("mem", b, l); }
/* a pair already in use (or never initialized) built again: priv, how (0 key, 1 hex, 2 generate, 3 key taken from the pair itself), input, initialized before */
OP("kp.again") { (void)n; nostr_keypair *k = b_out(sizeof *k); nostr_privkey p, q; a_fix(v, 0, p.data, 32); int how = (int)a_int(v, 1), r = 0; if (a_int(v, 3)) LIB(r = nostr_keypair_from_private_key(k, &p)); if (r) die("kp.again");
  if (how == 0) { a_fix(v, 2, q.data, 32); LIB(r = nostr_keypair_from_private_key(k, &q)); } else if (how == 1) { char *s = a_str(v, 2); LIB(r = nostr_keypair_from_private_hex(k, s)); } else if (how == 2) LIB(r = nostr_keypair_generate(k)); else LIB(r = nostr_keypair_from_private_key(k, &k->privkey));
  o_ret(r); kp_out(k); int u; LIB(u = nostr_keypair_validate(k)); o_int("valid", u == 0); secure_wipe(p.data, 32); secure_wipe(q.data, 32); }
OP("ctmemcmp") { (void)n; size_t l, m; uint8_t *a = a_buf(v, 0, &l), *b = a_buf(v, 1, &m); int r; LIB(r = nostr_constant_time_memcmp(a, b, l < m ? l : m)); o_int("z", r == 0); }
OP("key.ecdh") { (void)n; nostr_privkey p; nostr_key q; a_fix(v, 0, p.data, 32); a_fix(v, 1, q.data, 32); uint8_t *o = b_out(32); int r; LIB(r = nostr_key_ecdh(&p, &q, o)); o_ret(r); o_hex("o", o, 32); }
OP("rng") { (void)n; size_t m = a_int(v, 0); uint8_t *o = b_out(m); int r; LIB(r = nostr_random_bytes(o, m)); o_ret(r); o_hex("o", o, m); }
OP("init") { UNUSED; int r; LIB(r = nostr_init()); o_ret(r); }
OP("cleanup") { UNUSED; LIB(nostr_cleanup()); }
/* bech32 */
OP("b32.key") { (void)n; nostr_key k; a_fix(v, 0, k.data, 32); char *p = a_str(v, 1); size_t m = a_int(v, 2); char *o = b_out(m); int r; LIB(r = nostr_key_to_bech32(&k, p, o, m)); o_ret(r); if (!r) { size_t l = strnlen(o, m); o_int("nul", l < m); o_hex("o", o, l); } }
OP("b32.priv") { (void)n; nostr_privkey k; a_fix(v, 0, k.data, 32); size_t m = a_int(v, 1); char *o = b_out(m); int r; LIB(r = nostr_privkey_to_bech32(&k, o, m)); o_ret(r); if (!r) { size_t l = strnlen(o, m); o_int("nul", l < m); o_hex("o", o, l); } }
OP("b32.note") { (void)n; uint8_t k[32]; a_fix(v, 0, k, 32); size_t m = a_int(v, 1); char *o = b_out(m); int r; LIB(r = nostr_event_id_to_bech32(k, o, m)); o_ret(r); if (!r) { size_t l = strnlen(o, m); o_int("nul", l < m); o_hex("o", o, l); } }
OP("b32.dkey") { (void)n; char *s = a_str(v, 0); nostr_key *k = b_out(32); int r; LIB(r = nostr_key_from_bech32(s, k)); o_ret(r); o_hex("o", k->data, 32); }
OP("b32.dpriv") { (void)n; char *s = a_str(v, 0); nostr_privkey *k = b_out(32); int r; LIB(r = nostr_privkey_from_bech32(s, k)); o_ret(r); o_hex("o", k->data, 32); }
OP("b32.dnote") { (void)n; char *s = a_str(v, 0); uint8_t *k = b_out(32); int r; LIB(r = nostr_event_id_from_bech32(s, k)); o_ret(r); o_hex("o", k, 32); }
/* nip19 / nip21 */
static void o_relays(char *const *r, size_t c) { o_strs("relays", r, c); }
static void o_profile(nostr_nprofile *p) { o_str("t", "nprofile"); o_hex("pk", p->pubkey.data, 32); o_relays(p->relays, p->relay_count); }
static void o_nevent(nostr_nevent *p) { o_str("t", "nevent"); o_hex("id", p->id, 32); o_relays(p->relays, p->relay_count); o_int("ha", p->has_author); if (p->has_author) o_hex("author", p->author.data, 32); o_int("hk", p->has_kind); if (p->has_kind) o_u64("kind", p->kind); }
static void o_naddr(nostr_naddr *p) { o_str("t", "naddr"); o_str("ident", p->identifier); o_hex("pk", p->pubkey.data, 32); o_u64("kind", p->kind); o_relays(p->relays, p->relay_count); }
static void o_nrelay(nostr_nrelay *p) { o_str("t", "nrelay"); o_str("url", p->url); }
static int build_profile(char **v, int i, nostr_nprofile *p) { memset(p, 0, sizeof *p); a_fix(v, i, p->pubkey.data, 32); char **l; int k = a_list(v, i + 1, &l); for (int j = 0; j < k && j < 16; j++) p->relays[j] = l[j]; p->relay_count = k; return i + 2; }
static int build_nevent(char **v, int i, nostr_nevent *p) { memset(p, 0, sizeof *p); a_fix(v, i, p->id, 32); char **l; int k = a_list(v, i + 1, &l); for (int j = 0; j < k && j < 16; j++) p->relays[j] = l[j]; p->relay_count = k; if (!a_null(v, i + 2)) { a_fix(v, i + 2, p->author.data, 32); p->has_author = 1; } if (!a_null(v, i + 3)) { p->kind = (uint32_t)a_u64(v, i + 3); p->has_kind = 1; } return i + 4; }
static int build_naddr(char **v, int i, nostr_naddr *p) { memset(p, 0, sizeof *p); char *s = a_str(v, i); if (strlen(s) < 256) strcpy(p->identifier, s); else { memset(p->identifier, 'x', 256); } a_fix(v, i + 1, p->pubkey.data, 32); p->kind = (uint32_t)a_u64(v, i + 2); char **l; int k = a_list(v, i + 3, &l); for (int j = 0; j < k && j < 16; j++) p->relays[j] = l[j]; p->relay_count = k; return i + 4; }
static int build_nrelay(char **v, int i, nostr_nrelay *p) { memset(p, 0, sizeof *p); char *s = a_str(v, i); if (strlen(s) < 256) strcpy(p->url, s); else memset(p->url, 'x', 256); return i + 1; }
#define OUTB(r) o_ret(r); if (!r) { size_t l_ = strnlen(o, m); o_int("nul", l_ < m); o_hex("o", o, l_); }
OP("n19.enc") { (void)n; char *t = v[0]; int i = 2; size_t m = a_int(v, 1); char *o = b_out(m); int r = 0;
  if (!strcmp(t, "nprofile")) { nostr_nprofile p; build_profile(v, i, &p); LIB(r = nostr_nprofile_encode(&p, o, m)); }
  else if (!strcmp(t, "nevent")) { nostr_nevent p; build_nevent(v, i, &p); LIB(r = nostr_nevent_encode(&p, o, m)); }
  else if (!strcmp(t, "naddr")) { nostr_naddr p; build_naddr(v, i, &p); LIB(r = nostr_naddr_encode(&p, o, m)); }
  else if (!strcmp(t, "nrelay")) { nostr_nrelay p; build_nrelay(v, i, &p); LIB(r = nostr_nrelay_encode(&p, o, m)); }
  else die("type"); OUTB(r) }
OP("uri.enc") { (void)n; char *t = v[0]; int i = 2; size_t m = a_int(v, 1); char *o = b_out(m); int r = 0; nostr_uri u; memset(&u, 0, sizeof u);
  if (!strcmp(t, "npub")) { u.type = NOSTR_URI_NPUB; a_fix(v, i, u.data.npub.data, 32); }
  else if (!strcmp(t, "nsec")) { u.type = NOSTR_URI_NSEC; a_fix(v, i, u.data.nsec.data, 32); }
  else if (!strcmp(t, "note")) { u.type = NOSTR_URI_NOTE; a_fix(v, i, u.data.note, 32); }
  else if (!strcmp(t, "nprofile")) { u.type = NOSTR_URI_NPROFILE; build_profile(v, i, &u.data.nprofile); }
  else if (!strcmp(t, "nevent")) { u.type = NOSTR_URI_NEVENT; build_nevent(v, i, &u.data.nevent); }
  else if (!strcmp(t, "naddr")) { u.type = NOSTR_URI_NADDR; build_naddr(v, i, &u.data.naddr); }
  else if (!strcmp(t, "nrelay")) { u.type = NOSTR_URI_NRELAY; build_nrelay(v, i, &u.data.nrelay); }
  else die("type"); LIB(r = nostr_uri_encode(&u, o, m)); OUTB(r) }
OP("n19.dec") { (void)n; char *t = v[0]; char *s = a_str(v, 1); int r = 0;
  if (!strcmp(t, "nprofile")) { nostr_nprofile *p = b_out(sizeof *p); LIB(r = nostr_nprofile_decode(s, p)); o_ret(r); if (!r) { o_profile(p); LIB(nostr_nprofile_free(p)); } }
  else if (!strcmp(t, "nevent")) { nostr_nevent *p = b_out(sizeof *p); LIB(r = nostr_nevent_decode(s, p)); o_ret(r); if (!r) { o_nevent(p); LIB(nostr_nevent_free(p)); } }
  else if (!strcmp(t, "naddr")) { nostr_naddr *p = b_out(sizeof *p); LIB(r = nostr_naddr_decode(s, p)); o_ret(r); if (!r) { o_naddr(p); LIB(nostr_naddr_free(p)); } }
  else if (!strcmp(t, "nrelay")) { nostr_nrelay *p = b_out(sizeof *p); LIB(r = nostr_nrelay_decode(s, p)); o_ret(r); if (!r) o_nrelay(p); }
  else die("type"); }
OP("uri.parse") { (void)n; char *s = a_str(v, 0); nostr_uri *u = b_out(sizeof *u); int r; LIB(r = nostr_uri_parse(s, u)); o_ret(r); if (r) return;
  switch (u->type) {
    case NOSTR_URI_NPUB: o_str("t", "npub"); o_hex("k", u->data.npub.data, 32); break;
    case NOSTR_URI_NSEC: o_str("t", "nsec"); o_hex("k", u->data.nsec.data, 32); break;
    case NOSTR_URI_NOTE: o_str("t", "note"); o_hex("k", u->data.note, 32); break;
    case NOSTR_URI_NPROFILE: o_profile(&u->data.nprofile); break;
    case NOSTR_URI_NEVENT: o_nevent(&u->data.nevent); break;
    case NOSTR_URI_NADDR: o_naddr(&u->data.naddr); break;
    case NOSTR_URI_NRELAY: o_nrelay(&u->data.nrelay); break; }
  LIB(nostr_uri_free(u)); LIB(nostr_uri_free(u)); }
/* HD */
static void o_hd(nostr_hd_key *k) { o_hex("priv", k->privkey.data, 32); o_hex("pub", k->pubkey.data, 32); o_hex("cc", k->chain_code, 32); }
static void a_hd(char **v, int i, nostr_hd_key *k) { a_fix(v, i, k->privkey.data, 32); a_fix(v, i + 1, k->pubkey.data, 32); a_fix(v, i + 2, k->chain_code, 32); }
OP("hd.seed") { (void)n; size_t l; uint8_t *s = a_buf(v, 0, &l); nostr_hd_key *k = b_out(sizeof *k); int r; LIB(r = nostr_hd_key_from_seed(s, l, k)); o_ret(r); o_hd(k); }
OP("hd.derive") { (void)n; nostr_hd_key p; a_hd(v, 0, &p); nostr_hd_key *c = b_out(sizeof *c); int r; LIB(r = nostr_hd_key_derive(&p, (uint32_t)a_u64(v, 3), c)); o_ret(r); o_hd(c); }
OP("hd.derive_inplace") { (void)n; nostr_hd_key *p = b_out(sizeof *p); a_hd(v, 0, p); int r; LIB(r = nostr_hd_key_derive(p, (uint32_t)a_u64(v, 3), p)); o_ret(r); o_hd(p); }
OP("hd.path") { (void)n; nostr_hd_key p; a_hd(v, 0, &p); char *s = a_str(v, 3); nostr_hd_key *c = b_out(sizeof *c); int r; LIB(r = nostr_hd_key_derive_path(&p, s, c)); o_ret(r); o_hd(c); }
OP("hd.kp") { (void)n; nostr_hd_key p; a_hd(v, 0, &p); nostr_keypair *k = b_out(sizeof *k); int r; LIB(r = nostr_hd_key_to_keypair(&p, k)); o_ret(r); kp_out(k); }
OP("mn.gen") { (void)n; int wc = (int)a_int(v, 0); size_t m = a_int(v, 1); char *o = b_out(m); int r; LIB(r = nostr_mnemonic_generate(wc, o, m)); o_ret(r); o_hex("o", o, m); if (!r) { size_t l = strnlen(o, m); o_int("nul", l < m); } }
OP("mn.validate") { (void)n; char *s = a_str(v, 0); int r; LIB(r = nostr_mnemonic_validate(s)); o_ret(r); }
OP("mn.seed") { (void)n; char *s = a_str(v, 0), *p = a_str(v, 1); uint8_t *o = b_out(64); int r; LIB(r = nostr_mnemonic_to_seed(s, p, o)); o_ret(r); o_hex("o", o, 64); }
OP("mn.kp") { (void)n; char *s = a_str(v, 0), *p = a_str(v, 1); nostr_keypair *k = b_out(sizeof *k); int r; LIB(r = nostr_mnemonic_to_keypair(s, p, (uint32_t)a_u64(v, 2), k)); o_ret(r); kp_out(k); }
/* NIP-49 */
OP("n49.enc") { (void)n; nostr_privkey k; a_fix(v, 0, k.data, 32); char *p = a_str(v, 1); size_t m = a_int(v, 3); char *o = b_out(m); int r; LIB(r = nostr_ncryptsec_encrypt(&k, p, (uint8_t)a_int(v, 2), o, m)); o_ret(r); if (!r) { size_t l = strnlen(o, m); o_int("nul", l < m); o_hex("o", o, l); } }
OP("n49.dec") { (void)n; char *s = a_str(v, 0), *p = a_str(v, 1); nostr_privkey *k = b_out(32); int r; LIB(r = nostr_ncryptsec_decrypt(s, p, k)); o_ret(r); o_hex("o", k->data, 32); }
OP("n49.val") { (void)n; char *s = a_str(v, 0); int r; LIB(r = nostr_ncryptsec_validate(s)); o_ret(r); }

/* Every public function with some of its pointer arguments missing: the rest are valid, inputs are watched for changes, outputs are
 * poisoned. "null.call NAME MASK" reports the verdict, changed inputs and what became of the outputs. One entry per function. */
#include "driver.h"
#if defined(VF_ASAN) && !defined(VF_FUZZ) && !defined(VF_PAR)
#include <malloc.h>
#include <time.h>
#ifdef VF_NOJSON
#undef NOSTR_FEATURE_RELAY
#endif
typedef struct { int bit; unsigned char *p, *old; size_t n; int out; } watch;
static watch W[16]; static int nW; static struct { void (*f)(void *); void *p; } D[256]; static int nD;
static void later(void (*f)(void *), void *p) { if (nD >= 256) die("null: cleanups"); D[nD].f = f; D[nD++].p = p; }
static void *T_(void *p) { later(free, p); return p; }
static void *wt(int b, void *p, size_t n, int out) { if (!p) die("null: cannot build argument %d", b); if (!n) n = malloc_usable_size(p); watch w = { b, p, malloc(n), n, out }; memcpy(w.old, p, n); W[nW++] = w; return p; }
static void *fresh(const void *p, size_t n) { void *q = T_(malloc(n)); memcpy(q, p, n); return q; }
static void *poison(size_t n) { void *q = T_(malloc(n)); memset(q, 0xA5, n); return q; }
/* variants: 1 = numbers are zero, 2 = strings are empty, 4 = events are blank, 8 = other objects are empty */
static unsigned var;
#define L(x) (var & 2 ? 0 : (x))
#define Z(x) (var & 1 ? 0 : (x))
#define MISS(b) (m >> (b) & 1)
#define IN(b, s, n) (MISS(b) ? NULL : wt(b, fresh(s, n), n, 0))
#define STR(b, s) (MISS(b) ? NULL : str_(b, s))
static char *str_(int b, const char *s) { if (var & 2) s = ""; return wt(b, fresh(s, strlen(s) + 1), strlen(s) + 1, 0); }
#define OUT(b, n) (MISS(b) ? NULL : wt(b, poison(n), n, 1))
#define OBJ(b, e) (MISS(b) ? NULL : wt(b, (void *)(e), 0, 0))
#define FN(b, f) (MISS(b) ? NULL : (f))
#define UD(b) (MISS(b) ? NULL : (void *)&ud)
static int ud;
/* keys and ids, made once */
static struct kk { char priv[65], pub[65]; nostr_privkey *k; nostr_key *p; } K1, K2; static unsigned char ID[32], SEED[32]; static int32_t NIPS[4] = { 1, 9, 11, 40 };
static void hexs(const void *p, size_t n, char *o) { for (size_t i = 0; i < n; i++) sprintf(o + 2 * i, "%02x", ((const unsigned char *)p)[i]); }
static const char *hxs(const char *s, const void *p) { if (s) return s; char *o = T_(malloc(65)); hexs(p, 32, o); return o; }
#define HX(x) _Generic((x), unsigned char *: hxs(NULL, (const void *)(x)), char *: hxs((const char *)(x), NULL))
static void mkkey(struct kk *k, unsigned char c) { k->k = calloc(1, sizeof *k->k); k->p = calloc(1, sizeof *k->p); memset(k->k->data, c, 32); nostr_keypair q; if (nostr_keypair_from_private_key(&q, k->k)) die("null: key"); *k->p = q.pubkey; hexs(k->k, 32, k->priv); hexs(k->p, 32, k->pub); nostr_keypair_destroy(&q); }
static void setup(void) { if (K1.k) return; mkkey(&K1, 0x11); mkkey(&K2, 0x22); memset(ID, 0xab, 32); memset(SEED, 0x5e, 32); }
static void teardown(void) { free(K1.k); free(K1.p); free(K2.k); free(K2.p); K1.k = K2.k = NULL; }
RESET_HOOK(teardown)
/* events */
static void ed(void *e) { nostr_event_destroy(e); }
static nostr_event *made(nostr_event *e) { if (!e) die("null: event"); later(ed, e); return e; }
static void tg(nostr_event *e, const char *a, const char *b, const char *c, const char *d) { const char *t[] = { a, b, c, d }; int n = d ? 4 : c ? 3 : b ? 2 : 1; if (nostr_event_add_tag(e, t, (size_t)n)) die("null: tag"); }
static char *addr(void) { char *s = T_(malloc(120)); sprintf(s, "30023:%s:d1", K1.pub); return s; }
static const char *tmps(char *s) { return T_(s); }
static nostr_event *mk(int kind) {
  nostr_event *e = NULL; if (nostr_event_create(&e)) die("null: event"); const struct kk *who = &K1; e->kind = (uint16_t)kind; e->created_at = 1700000000; nostr_event_set_content(e, "hello");
  switch (kind) {
  case 9735: { nostr_event *q = mk(9734); char *j = NULL; if (nostr_event_to_json(q, &j)) { nostr_event_destroy(e); e = q; break; } tg(e, "p", K1.pub, NULL, NULL); tg(e, "bolt11", "lnbc10u1x", NULL, NULL); tg(e, "description", j, NULL, NULL); tg(e, "preimage", HX(ID), NULL, NULL); free(j); nostr_event_destroy(q); nostr_event_set_content(e, ""); break; }
  case 9734: tg(e, "p", K1.pub, NULL, NULL); tg(e, "amount", "1000000", NULL, NULL); tg(e, "relays", "wss://r.example", NULL, NULL); break;
  case 9013: e->kind = 1; tg(e, "nonce", "1", "0", NULL); break;
  case 9010: e->kind = 1; tg(e, "e", HX(ID), "wss://r.example", "root"); tg(e, "p", K2.pub, NULL, NULL); break;
  case 7: tg(e, "e", HX(ID), NULL, NULL); tg(e, "p", K2.pub, NULL, NULL); nostr_event_set_content(e, "+"); break;
  case 6: tg(e, "e", HX(ID), "wss://r.example", NULL); tg(e, "p", K2.pub, NULL, NULL); nostr_event_set_content(e, ""); break;
  case 5: tg(e, "e", HX(ID), NULL, NULL); tg(e, "a", addr(), NULL, NULL); break;
  case 9005: e->kind = 1; break;
  case 9040: e->kind = 1; tg(e, "expiration", "1600000000", NULL, NULL); break;
  case 10002: tg(e, "r", "wss://r.example", NULL, NULL); break;
  case 10000: tg(e, "p", K2.pub, NULL, NULL); nostr_event_set_content(e, ""); break;
  case 30023: tg(e, "d", "d1", NULL, NULL); break;
  case 30024: e->kind = 30023; tg(e, "d", "d1", NULL, NULL); e->created_at++; break;
  case 2026: case 9026: e->kind = 1; who = &K2; e->pubkey = *K2.p; if (kind == 9026) { nostr_delegation g; memset(&g, 0, sizeof g); if (nostr_delegation_create(K1.k, K2.p, "kind=1&created_at<1800000000", &g) || nostr_event_add_delegation(e, &g)) die("null: delegation"); nostr_delegation_free(&g); } break;
  case 14: case 1: tg(e, "e", HX(ID), NULL, NULL); tg(e, "p", K2.pub, NULL, NULL); break;
#ifdef NOSTR_FEATURE_NIP44
  case 13: { nostr_event *r = mk(14), *s = NULL; if (nostr_nip59_create_seal(&s, r, K1.k, K2.p)) die("null: seal"); nostr_event_destroy(r); nostr_event_destroy(e); return s; }
  case 1059: { nostr_event *s = NULL; if (nostr_nip17_send_dm(&s, "dm", K1.k, K2.p, NULL, NULL, 1700000000)) die("null: dm"); nostr_event_destroy(e); return s; }
  case 13194: nostr_event_set_content(e, "pay_invoice get_balance notifications"); tg(e, "encryption", "nip44_v2 nip04", NULL, NULL); tg(e, "notifications", "payment_received", NULL, NULL); break;
  case 24133: case 23195: case 23197: { const char *t = kind == 24133 ? "{\"id\":\"1\",\"method\":\"ping\",\"params\":[\"x\"]}" : kind == 23195 ? "{\"result_type\":\"pay_invoice\",\"result\":{\"preimage\":\"x\"},\"error\":{\"code\":\"OTHER\",\"message\":\"m\"}}" : "{\"notification_type\":\"payment_received\",\"notification\":{\"a\":1}}";
    char *c = NULL; if (nostr_nip44_encrypt(K1.k, K2.p, t, strlen(t), &c)) die("null: cipher"); nostr_event_set_content(e, c); free(c); tg(e, "p", K2.pub, NULL, NULL); tg(e, "encryption", "nip44_v2", NULL, NULL); break; }
#endif
  }
  nostr_event_sign(e, who->k); if (kind == 9005) memcpy(e->id, ID, 32); if (kind == 14) memset(e->sig, 0, sizeof e->sig); return e;
}
static nostr_event *WE[16]; static unsigned long long WH[16]; static int nWE;
static unsigned long long eh(const nostr_event *e) { unsigned long long h = 1469598103934665603u;
#define HB(p, n) do { const unsigned char *b_ = (const void *)(p); for (size_t i_ = 0; i_ < (n); i_++) h = (h ^ b_[i_]) * 1099511628211u; } while (0)
  HB(e->id, 32); HB(e->pubkey.data, 32); HB(&e->created_at, 8); HB(&e->kind, 2); HB(e->sig, 64); if (e->content) HB(e->content, strlen(e->content) + 1); for (size_t i = 0; i < e->tags_count; i++) for (size_t j = 0; j < e->tags[i].count; j++) HB(e->tags[i].values[j], strlen(e->tags[i].values[j]) + 1 + (j + 1 == e->tags[i].count));
  return h; }
static nostr_event *blank(void) { nostr_event *e = NULL; if (nostr_event_create(&e)) die("null: event"); return e; }
static nostr_event *evt(int b, int kind) { nostr_event *e = made(var & 4 ? blank() : mk(kind)); wt(b, e, sizeof *e, 0); WE[nWE] = e; WH[nWE++] = eh(e); return e; }
#define EVT(b, k) (MISS(b) ? NULL : evt(b, k))
static char *evjson(int k) { nostr_event *e = mk(k); char *j = NULL; if (nostr_event_to_json(e, &j)) j = strdup("{}"); nostr_event_destroy(e); return T_(j); }
/* other objects */
static void dls(void *p) { nostr_list_free(p); } static void drl(void *p) { nostr_relay_list_free(p); } static void dkp(void *p) { nostr_keypair_destroy(p); free(p); }
#ifdef NOSTR_FEATURE_NIP44
#define PRIV 1
#else
#define PRIV 0
#endif
static nostr_list *ls(int priv) { nostr_list *l = NULL; if (nostr_list_create(&l, 30000) || nostr_list_set_d_tag(l, "d1") || nostr_list_set_title(l, "t") || nostr_list_set_description(l, "x") || nostr_list_set_image(l, "i") || nostr_list_add_pubkey(l, K2.pub, "wss://r.example", "bob", false) || nostr_list_add_hashtag(l, "t", priv)) die("null: list"); return l; }
static nostr_list *mkls(int priv) { nostr_list *l = NULL; if (var & 8) { if (nostr_list_create(&l, 10000)) die("null: list"); } else l = ls(priv); later(dls, l); return l; }
static nostr_relay_list *rl(void) { nostr_relay_list *l = NULL; if (nostr_relay_list_create(&l) || nostr_relay_list_add(l, "wss://a.example", true, false) || nostr_relay_list_add(l, "wss://b.example", false, true)) die("null: relays"); return l; }
static nostr_relay_list *mkrl(void) { nostr_relay_list *l = NULL; if (var & 8) { if (nostr_relay_list_create(&l)) die("null: relays"); } else l = rl(); later(drl, l); return l; }
static nostr_keypair *kp(void) { nostr_keypair *k = calloc(1, sizeof *k); if (nostr_keypair_from_private_key(k, K1.k)) die("null: pair"); return k; }
static nostr_keypair *mkkp(void) { nostr_keypair *k = kp(); later(dkp, k); return k; }
#define KP(b) OBJ(b, mkkp())
#define OUTKP(b) (MISS(b) ? NULL : mkkp())
#define EVOWN(b) (MISS(b) ? NULL : mk(1))
#define CONF(b) (MISS(b) ? NULL : conf(b))
static nostr_config *conf(int b) { nostr_config *c = T_(malloc(sizeof *c)); nostr_config_get_defaults(c); return wt(b, c, sizeof *c, 0); }
#define CONFI(b) ((void)nostr_init_with_config(NULL), CONF(b))
#define HD(b) (MISS(b) ? NULL : hd(b))
static nostr_hd_key *hd(int b) { nostr_hd_key *k = T_(calloc(1, sizeof *k)); if (nostr_hd_key_from_seed(SEED, 32, k)) die("null: hd"); return wt(b, k, sizeof *k, 0); }
#define IT(b) (MISS(b) ? NULL : iter(b))
static nostr_tag_iterator_t *iter(int b) { nostr_tag_iterator_t *i = T_(malloc(sizeof *i)); nostr_tag_iterator_init(i, made(mk(1))); return wt(b, i, sizeof *i, 0); }
#define FJSON "{\"kinds\":[1],\"#e\":[\"" EID "\"],\"#p\":[\"" EID "\"],\"ids\":[\"" EID "\"],\"authors\":[\"" EID "\"],\"search\":\"hel\",\"since\":1,\"until\":2000000000,\"limit\":3}"
#define EID "abababababababababababababababababababababababababababababababab"
static void dflt(void *p) { nostr_filter_free(p); free(p); }
static nostr_filter_t *flt(int full) { nostr_filter_t *f = calloc(1, sizeof *f); if (full && nostr_filter_parse(FJSON, strlen(FJSON), f)) { memset(f, 0, sizeof *f); f->kinds = malloc(4); f->kinds[0] = 1; f->kinds_count = 1; } return f; }
static nostr_filter_t *mflt(int full) {
  if (full > 1 && !(var & 8)) { const char *t = full == 2 ? "{\"kinds\":[1],\"#e\":[\"" EID "\"]}" : "{\"kinds\":[1],\"search\":\"hel\"}"; nostr_filter_t *f = calloc(1, sizeof *f); if (!nostr_filter_parse(t, strlen(t), f)) { later(dflt, f); return f; } free(f); }
  if (var & 8) full = 0;
  nostr_filter_t *f = flt(full); later(dflt, f); return f; }
#define FLT(b, full) OBJ(b, mflt(full))
#define FLTOWN(b) (MISS(b) ? NULL : T_(flt(1)))
#define TAG(b) (MISS(b) ? NULL : wt(b, made(mk(1))->tags, sizeof(nostr_tag), 0))
static const char *SVA[5] = { "e", "00", "c", "d", NULL }, *RLA[2] = { "wss://a.example", "wss://b.example" };
#define SV(b) (void *)IN(b, SVA, sizeof SVA)
#define RELS(b) (void *)IN(b, RLA, sizeof RLA)
static const char *TLVA[1] = { "{\"type\":1,\"value\":\"00\"}" };
#define TLV(b) (void *)IN(b, TLVA, sizeof TLVA)
#define BUFI(b, s, n) IN(b, s, n)
static const uint64_t U64A[4] = { 1000, 1, 1, 1 }; static const uint32_t U32A[4] = { 1, 1, 1, 1 }; static const time_t TTA[1] = { 1700000000 };
#define U64(b) IN(b, U64A, sizeof U64A)
#define U32(b) IN(b, U32A, sizeof U32A)
#define TT(b) IN(b, TTA, sizeof TTA)
static char *npub(void) { char *s = T_(malloc(100)); nostr_key_to_bech32(K2.p, "npub", s, 100); return s; }
static char *nsec(void) { char *s = T_(malloc(100)); nostr_privkey_to_bech32(K1.k, s, 100); return s; }
static char *note(void) { char *s = T_(malloc(100)); nostr_event_id_to_bech32(ID, s, 100); return s; }
static char *lnurl(void) { static const char u[] = "lnurl1dp68gurn8ghj7aewv4uxzmtsd3jj7tnhv4kxctttdehhwm30d3h82unvwqhkymmzekrqtu"; return fresh(u, sizeof u); }
static char *uris(void) { char *s = T_(malloc(120)); sprintf(s, "nostr:%s", npub()); return s; }
static void fnp(nostr_nprofile *x) { memset(x, 0, sizeof *x); x->pubkey = *K2.p; x->relays[0] = strdup("wss://r.example"); x->relay_count = 1; }
static void fne(nostr_nevent *x) { memset(x, 0, sizeof *x); memcpy(x->id, ID, 32); x->author = *K2.p; x->has_author = 1; x->kind = 1; x->has_kind = 1; x->relays[0] = strdup("wss://r.example"); x->relay_count = 1; }
static void fna(nostr_naddr *x) { memset(x, 0, sizeof *x); strcpy(x->identifier, "d1"); x->pubkey = *K2.p; x->kind = 30023; x->relays[0] = strdup("wss://r.example"); x->relay_count = 1; }
static void dnp(void *p) { nostr_nprofile_free(p); free(p); } static void dne(void *p) { nostr_nevent_free(p); free(p); } static void dna(void *p) { nostr_naddr_free(p); free(p); } static void duri(void *p) { nostr_uri_free(p); free(p); }
static void *mnp(void) { nostr_nprofile *x = malloc(sizeof *x); fnp(x); return x; } static void *mne(void) { nostr_nevent *x = malloc(sizeof *x); fne(x); return x; } static void *mna(void) { nostr_naddr *x = malloc(sizeof *x); fna(x); return x; }
static void *muri(void) { nostr_uri *u = calloc(1, sizeof *u); u->type = NOSTR_URI_NPROFILE; fnp(&u->data.nprofile); return u; }
static void *lt(void (*f)(void *), void *p) { later(f, p); return p; }
#define NPRO(b) OBJ(b, lt(dnp, mnp()))
#define NEV(b) OBJ(b, lt(dne, mne()))
#define NAD(b) OBJ(b, lt(dna, mna()))
#define URI(b) OBJ(b, lt(duri, muri()))
#define NPROOWN(b) (MISS(b) ? NULL : T_(mnp()))
#define NEVOWN(b) (MISS(b) ? NULL : T_(mne()))
#define NADOWN(b) (MISS(b) ? NULL : T_(mna()))
#define URIOWN(b) (MISS(b) ? NULL : T_(muri()))
static nostr_nrelay NR = { "wss://r.example" };
#define NREL(b) IN(b, &NR, sizeof NR)
static char *nprof(void) { nostr_nprofile *x = lt(dnp, mnp()); char *s = poison(2000); if (nostr_nprofile_encode(x, s, 2000)) die("null: nprofile"); return s; }
static char *nevnt(void) { nostr_nevent *x = lt(dne, mne()); char *s = poison(2000); if (nostr_nevent_encode(x, s, 2000)) die("null: nevent"); return s; }
static char *naddrs(void) { nostr_naddr *x = lt(dna, mna()); char *s = poison(2000); if (nostr_naddr_encode(x, s, 2000)) die("null: naddr"); return s; }
static char *nrel(void) { char *s = poison(2000); if (nostr_nrelay_encode(&NR, s, 2000)) die("null: nrelay"); return s; }
static char *n5doc(void) { char *s = T_(malloc(600)); sprintf(s, "{\"names\":{\"bob\":\"%s\"},\"relays\":{\"%s\":[\"wss://r.example\"]}}", K2.pub, K2.pub); return s; }
static char *ncs; static void freencs(void) { free(ncs); ncs = NULL; }
RESET_HOOK(freencs)
static char *ncrypt(void) { if (!ncs) { ncs = malloc(300); if (nostr_ncryptsec_encrypt(K1.k, "pw", 16, ncs, 300)) die("null: ncryptsec"); } return ncs; }
static void ddel(void *p) { nostr_delegation_free(p); free(p); }
static void *mdel(void) { nostr_delegation *g = calloc(1, sizeof *g); if (nostr_delegation_create(K1.k, K2.p, "kind=1&created_at<1800000000", g)) die("null: delegation"); return g; }
#define DEL(b) OBJ(b, lt(ddel, mdel()))
#define DELOWN(b) (MISS(b) ? NULL : T_(mdel()))
#define RMSG(b) (MISS(b) ? NULL : rmsg(b))
static void *rmsg(int b) { nostr_relay_msg_t *x = T_(calloc(1, sizeof *x)); nostr_relay_msg_notice(x, "hi"); return wt(b, x, sizeof *x, 0); }
static void dcm(void *p) { nostr_client_msg_free(p); free(p); }
#define CJSON "[\"REQ\",\"s1\",{\"kinds\":[1]}]"
static void *cm(void) { nostr_client_msg_t *c = calloc(1, sizeof *c); if (nostr_client_msg_parse(CJSON, strlen(CJSON), c)) { c->type = NOSTR_CLIENT_MSG_CLOSE; strcpy(c->data.close.subscription_id, "s1"); } return c; }
#define CMSG(b) OBJ(b, lt(dcm, cm()))
static void *cme(void) { nostr_client_msg_t *c = calloc(1, sizeof *c); c->type = NOSTR_CLIENT_MSG_EVENT; c->data.event.event = mk(1); return c; }
#define CMSGE(b) OBJ(b, lt(dcm, cme()))
#define CMSGOWN(b) (MISS(b) ? NULL : T_(cm()))
#define VRES(b) (MISS(b) ? NULL : vres(b))
static void *vres(int b) { nostr_validation_result_t *x = T_(calloc(1, sizeof *x)); x->error_code = NOSTR_RELAY_ERR_INVALID_ID; strcpy(x->error_message, "bad"); strcpy(x->error_field, "id"); return wt(b, x, sizeof *x, 0); }
static void dinfo(void *p) { nostr_relay_info_free(p); free(p); }
static void *inf(int full) { nostr_relay_info_t *x = calloc(1, sizeof *x); nostr_relay_info_init(x); if (full && nostr_relay_info_set_nips(x, NIPS, 4)) die("null: info"); return x; }
#define INFO(b, full) OBJ(b, lt(dinfo, inf(full)))
#define INFOWN(b) (MISS(b) ? NULL : T_(inf(1)))
#define LIM(b) (MISS(b) ? NULL : lim(b))
static void *lim(int b) { nostr_relay_limitation_t *x = T_(calloc(1, sizeof *x)); nostr_relay_limitation_init(x); return wt(b, x, sizeof *x, 0); }
static void ddrq(void *p) { nostr_deletion_free(p); free(p); }
static void *drq(void) { nostr_deletion_request_t *x = calloc(1, sizeof *x); nostr_event *e = mk(5); if (nostr_deletion_parse(e, x)) die("null: deletion"); nostr_event_destroy(e); return x; }
#define DRQ(b) OBJ(b, lt(ddrq, drq()))
#define DRQOWN(b) (MISS(b) ? NULL : T_(drq()))
#define LSOWN(b) (MISS(b) ? NULL : ls(0))
#define RLOWN(b) (MISS(b) ? NULL : rl())
#define STRSOWN(b) (MISS(b) ? NULL : strs2())
static char **strs2(void) { char **a = malloc(2 * sizeof *a); a[0] = a[1] = NULL; if (!(var & 1)) { a[0] = strdup("a"); a[1] = strdup("b"); } return a; }
#define FREEOWN(b) (MISS(b) ? NULL : malloc(7))
/* outputs that own memory once the call succeeded */
static struct { int kind; void *p; int bit; } OW[16]; static int nOW;
static void *own(int b, size_t n, int kind) { void *p = wt(b, poison(n), n, 1); OW[nOW].kind = kind; OW[nOW].bit = b; OW[nOW++].p = p; return p; }
#define OWN(b, n, k) (MISS(b) ? NULL : own(b, n, k))
#define OEV(b) OWN(b, sizeof(void *), 'e')
#define OSTR(b) OWN(b, sizeof(void *), 's')
#define OSTRS(b) OWN(b, sizeof(void *), 'S')
#define ORL(b) OWN(b, sizeof(void *), 'r')
#define OLS(b) OWN(b, sizeof(void *), 'l')
#define ORELAY(b) OWN(b, sizeof(void *), 'R')
#define ONWC(b) OWN(b, sizeof(void *), 'n')
#define OSESS(b) OWN(b, sizeof(void *), 'i')
#define OURI(b) OWN(b, sizeof(nostr_uri), 'u')
#define ONPRO(b) OWN(b, sizeof(nostr_nprofile), 'p')
#define ONEV(b) OWN(b, sizeof(nostr_nevent), 'v')
#define ONAD(b) OWN(b, sizeof(nostr_naddr), 'a')
#define ODEL(b) OWN(b, sizeof(nostr_delegation), 'd')
#define OFLT(b) OWN(b, sizeof(nostr_filter_t), 'f')
#define OCMSG(b) OWN(b, sizeof(nostr_client_msg_t), 'c')
#define ODRQ(b) OWN(b, sizeof(nostr_deletion_request_t), 'q')
#define ON46(b) OWN(b, sizeof(nostr_nip46_request_t), '4')
#ifdef NOSTR_FEATURE_NIP44
static char *nwuri(void) { char *s = T_(malloc(300)); sprintf(s, "nostr+walletconnect://%s?relay=wss%%3A%%2F%%2Fr.example&secret=%s", K2.pub, K1.priv); return s; }
static void dnw(void *p) { nostr_nip47_free_connection(p); }
static void *nw(void) { struct nwc_connection *c = NULL; if (nostr_nip47_parse_connection_uri(nwuri(), &c)) die("null: nwc"); return c; }
static void *mknwc(int w) { (void)w; return lt(dnw, nw()); }
#define NWOWN(b) (MISS(b) ? NULL : nw())
static void dsess(void *p) { nostr_nip47_session_destroy(p); free(p); }
static char *session(void) { char *id = NULL; nostr_nip47_session_init(); if (nostr_nip47_session_create(nwuri(), &id)) die("null: session"); if (nostr_nip47_session_add_permission(id, "pay_invoice", 100000, 0)) die("null: permission"); return lt(dsess, id); }
static char *c44(void) { char *c = NULL; if (nostr_nip44_encrypt(K1.k, K2.p, "hi", 2, &c)) die("null: 44"); return T_(c); }
static char *c04(void) { char *c = NULL; if (nostr_nip04_encrypt(K1.k, K2.p, "hi", &c)) die("null: 04"); return T_(c); }
static void d46r(void *p) { nostr_nip46_response_free(p); free(p); }
static void *n46r(void) { nostr_nip46_response_t *x = calloc(1, sizeof *x); strcpy(x->id, "1"); x->result = strdup("pong"); return x; }
#define N46R(b) OBJ(b, lt(d46r, n46r()))
#define N46ROWN(b) (MISS(b) ? NULL : T_(n46r()))
static void *n46q(void) { nostr_nip46_request_t *x = calloc(1, sizeof *x); x->params = strdup("[]"); return x; }
#define N46OWN(b) (MISS(b) ? NULL : T_(n46q()))
#define INFOJSON "{\"alias\":\"a\",\"color\":\"c\",\"pubkey\":\"p\",\"network\":\"n\",\"block_height\":5,\"methods\":[\"x\",\"y\"]}"
#endif
#ifdef NOSTR_FEATURE_RELAY
static void drel(void *p) { nostr_relay_destroy(p); }
static void *mkrelay(void) { nostr_relay *r = NULL; if (nostr_relay_create(&r, "ws://127.0.0.1:1")) die("null: relay"); return lt(drel, r); }
#include "lws_stub.h"
static void cb1(nostr_relay *r, nostr_relay_state s, void *u) { (void)r; (void)s; (void)u; } static void cb2(const nostr_event *e, void *u) { (void)e; (void)u; } static void cb3(const char *t, const char *d, void *u) { (void)t; (void)d; (void)u; }
static void *rcon(void) { nostr_relay *r = mkrelay(); if (nostr_relay_connect(r, cb1, NULL) || stub_inject(stub_last_context(), ACT_ESTABLISHED, NULL, 0, 5000)) die("null: connection"); return r; }
#define RCON(b) (MISS(b) ? NULL : rcon())
#endif
static void cbc(const nostr_config *c, const nostr_config *d, void *u) { (void)c; (void)d; (void)u; } static bool cbs(const char *q, const nostr_event *e, void *u) { (void)q; (void)e; (void)u; return true; }
static nostr_error_t cbh(const char *url, char **r, size_t *n, void *u) { (void)url; (void)u; *r = malloc(600); char *d = n5doc(); strcpy(*r, d); *n = strlen(d); return NOSTR_OK; }
static void give_back(int ok) {
  for (int i = 0; i < nOW; i++) { void *p = OW[i].p, *q = *(void **)p; if (!ok || *(unsigned char *)p == 0xA5 && ((unsigned char *)p)[7] == 0xA5) continue; switch (OW[i].kind) {
    case 'e': nostr_event_destroy(q); break; case 's': free(q); break; case 'r': nostr_relay_list_free(q); break; case 'l': nostr_list_free(q); break;
    case 'S': { size_t n = 0; for (int j = 0; j < nW; j++) if (W[j].bit == OW[i].bit + 1) n = *(size_t *)W[j].p; char **a = q; if (a) for (size_t j = 0; j < n; j++) free(a[j]); free(a); break; }
#ifdef NOSTR_FEATURE_RELAY
    case 'R': nostr_relay_destroy(q); break;
#endif
#ifdef NOSTR_FEATURE_NIP44
    case 'n': nostr_nip47_free_connection(q); break; case 'i': nostr_nip47_session_destroy(q); free(q); break; case '4': nostr_nip46_request_free(p); break;
#endif
    case 'u': nostr_uri_free(p); break; case 'p': nostr_nprofile_free(p); break; case 'v': nostr_nevent_free(p); break; case 'a': nostr_naddr_free(p); break; case 'd': nostr_delegation_free(p); break;
    case 'f': nostr_filter_free(p); break; case 'c': nostr_client_msg_free(p); break; case 'q': nostr_deletion_free(p); break; } }
  while (nD) { nD--; D[nD].f(D[nD].p); } nOW = 0;
}
static long long nr; static int nkind, nok;      /* kind: 0 number, 1 pointer, 2 nothing */
#define R(c) nr = (long long)(c); nkind = 0; nok = 1
#define RE(c) nr = (long long)(c); nkind = 0; nok = nr == 0
#define RB(c) nr = (c); nkind = 0; nok = nr == 1
#define P(c) nr = (c) != NULL; nkind = 1; nok = (int)nr
#define V nr = 0; nkind = 2; nok = 1
#define B(c) do { void *q_ = (void *)(c); nr = q_ != NULL; nkind = 1; nok = (int)nr; if (q_) later(nostr_free, q_); } while (0)
static struct { const char *name; int k; void (*f)(unsigned); } NT[400]; static int nNT;
#define F(NM, KK, ...) static void nf_##NM(unsigned m) __VA_ARGS__ \
  __attribute__((constructor)) static void nc_##NM(void) { NT[nNT].name = &(#NM)[2]; NT[nNT].k = KK; NT[nNT++].f = nf_##NM; }
F(n_init_with_config, 1, { RE(nostr_init_with_config(CONF(0))); })
F(n_config_get_defaults, 1, { RE(nostr_config_get_defaults(OUT(0,sizeof(nostr_config)))); })
F(n_config_validate, 1, { RE(nostr_config_validate(CONF(0))); })
F(n_config_set_callback, 2, { RE(nostr_config_set_callback(FN(0,cbc), UD(1))); })
F(n_config_update, 1, { RE(nostr_config_update(CONFI(0))); })
F(n_key_generate, 2, { RE(nostr_key_generate(OUT(0,sizeof(nostr_privkey)), OUT(1,sizeof(nostr_key)))); })
F(n_keypair_init, 1, { RE(nostr_keypair_init(OUT(0,sizeof(nostr_keypair)))); })
F(n_keypair_generate, 1, { RE(nostr_keypair_generate(OUT(0,sizeof(nostr_keypair)))); })
F(n_keypair_from_private_hex, 2, { RE(nostr_keypair_from_private_hex(OUT(0,sizeof(nostr_keypair)), STR(1,HX(K1.priv)))); })
F(n_keypair_from_private_key, 2, { RE(nostr_keypair_from_private_key(OUT(0,sizeof(nostr_keypair)), IN(1,K1.k,sizeof(nostr_privkey)))); })
F(n_keypair_export_private_hex, 2, { RE(nostr_keypair_export_private_hex(KP(0), OUT(1,8192), Z(8192))); })
F(n_keypair_export_public_hex, 2, { RE(nostr_keypair_export_public_hex(KP(0), OUT(1,8192), Z(8192))); })
F(n_keypair_validate, 1, { RE(nostr_keypair_validate(KP(0))); })
F(n_keypair_public_key, 1, { P(nostr_keypair_public_key(KP(0))); })
F(n_keypair_private_key, 1, { P(nostr_keypair_private_key(KP(0))); })
F(n_keypair_destroy, 1, { nostr_keypair_destroy(OUTKP(0)); V; })
F(n_key_from_hex, 2, { RE(nostr_key_from_hex(STR(0,HX(K2.pub)), OUT(1,sizeof(nostr_key)))); })
F(n_key_to_hex, 2, { RE(nostr_key_to_hex(IN(0,K2.p,sizeof(nostr_key)), OUT(1,8192), Z(8192))); })
F(n_privkey_from_hex, 2, { RE(nostr_privkey_from_hex(STR(0,HX(K1.priv)), OUT(1,sizeof(nostr_privkey)))); })
F(n_privkey_to_hex, 2, { RE(nostr_privkey_to_hex(IN(0,K1.k,sizeof(nostr_privkey)), OUT(1,8192), Z(65))); })
F(n_key_ecdh, 3, { RE(nostr_key_ecdh(IN(0,K1.k,sizeof(nostr_privkey)), IN(1,K2.p,sizeof(nostr_key)), OUT(2,8192))); })
F(n_hd_key_from_seed, 2, { RE(nostr_hd_key_from_seed(IN(0,SEED,32), Z(32), OUT(1,sizeof(nostr_hd_key)))); })
F(n_hd_key_derive, 2, { RE(nostr_hd_key_derive(HD(0), Z(1), OUT(1,sizeof(nostr_hd_key)))); })
F(n_hd_key_derive_path, 3, { RE(nostr_hd_key_derive_path(HD(0), STR(1,"m/44'/1237'/0'/0/0"), OUT(2,sizeof(nostr_hd_key)))); })
F(n_hd_key_to_keypair, 2, { RE(nostr_hd_key_to_keypair(HD(0), OUT(1,sizeof(nostr_keypair)))); })
F(n_mnemonic_generate, 1, { RE(nostr_mnemonic_generate(Z(12), OUT(0,8192), Z(8192))); })
F(n_mnemonic_validate, 1, { RE(nostr_mnemonic_validate(STR(0,"abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about"))); })
F(n_mnemonic_to_seed, 3, { RE(nostr_mnemonic_to_seed(STR(0,"abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about"), STR(1,"pw"), OUT(2,8192))); })
F(n_mnemonic_to_keypair, 3, { RE(nostr_mnemonic_to_keypair(STR(0,"abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about"), STR(1,"pw"), Z(1), OUT(2,sizeof(nostr_keypair)))); })
F(n_key_to_bech32, 3, { RE(nostr_key_to_bech32(IN(0,K2.p,sizeof(nostr_key)), STR(1,"npub"), OUT(2,8192), Z(8192))); })
F(n_key_from_bech32, 2, { RE(nostr_key_from_bech32(STR(0,npub()), OUT(1,sizeof(nostr_key)))); })
F(n_privkey_to_bech32, 2, { RE(nostr_privkey_to_bech32(IN(0,K1.k,sizeof(nostr_privkey)), OUT(1,8192), Z(8192))); })
F(n_privkey_from_bech32, 2, { RE(nostr_privkey_from_bech32(STR(0,nsec()), OUT(1,sizeof(nostr_privkey)))); })
F(n_event_id_to_bech32, 2, { RE(nostr_event_id_to_bech32(IN(0,ID,32), OUT(1,8192), Z(8192))); })
F(n_event_id_from_bech32, 2, { RE(nostr_event_id_from_bech32(STR(0,note()), OUT(1,8192))); })
F(n_event_create, 1, { RE(nostr_event_create(OEV(0))); })
F(n_event_destroy, 1, { nostr_event_destroy(EVOWN(0)); V; })
F(n_event_set_content, 2, { RE(nostr_event_set_content(EVT(0,1), STR(1,"text"))); })
F(n_event_add_tag, 2, { RE(nostr_event_add_tag(EVT(0,1), SV(1), Z(2))); })
F(n_event_compute_id, 1, { RE(nostr_event_compute_id(EVT(0,1))); })
F(n_event_sign, 2, { RE(nostr_event_sign(EVT(0,1), IN(1,K1.k,sizeof(nostr_privkey)))); })
F(n_event_verify, 1, { RE(nostr_event_verify(EVT(0,1))); })
F(n_event_to_json, 2, { RE(nostr_event_to_json(EVT(0,1), OSTR(1))); })
F(n_event_from_json, 2, { RE(nostr_event_from_json(STR(0,evjson(1)), OEV(1))); })
F(n_hex_decode, 2, { R(nostr_hex_decode(STR(0,"abcdef01"), OUT(1,8192), Z(4))); })
F(n_hex_encode, 2, { nostr_hex_encode(IN(0,ID,32), Z(32), OUT(1,8192)); V; })
F(n_zap_create_request, 5, { RE(nostr_zap_create_request(OEV(0), Z(1000), IN(1,K2.p,sizeof(nostr_key)), STR(2,lnurl()), STR(3,"text"), RELS(4), Z(2))); })
F(n_zap_validate_lnurl, 3, { RE(nostr_zap_validate_lnurl(STR(0,lnurl()), OUT(1,8192), OUT(2,sizeof(_Bool)))); })
F(n_zap_parse_receipt, 5, { RE(nostr_zap_parse_receipt(EVT(0,9735), OUT(1,sizeof(uint64_t)), OSTR(2), OUT(3,8192), OEV(4))); })
F(n_zap_verify, 3, { RE(nostr_zap_verify(EVT(0,9735), EVT(1,9734), STR(2,HX(K1.pub)))); })
F(n_nip13_calculate_difficulty, 1, { R(nostr_nip13_calculate_difficulty(IN(0,ID,32))); })
F(n_nip13_mine_event, 1, { RE(nostr_nip13_mine_event(EVT(0,1), Z(1), Z(1000))); })
F(n_nip13_verify_pow, 1, { RE(nostr_nip13_verify_pow(EVT(0,9013), Z(1))); })
F(n_nip13_add_nonce_tag, 1, { RE(nostr_nip13_add_nonce_tag(EVT(0,1), Z(1000), Z(1))); })
F(n_nip13_mine_event_threaded, 1, { RE(nostr_nip13_mine_event_threaded(EVT(0,1), Z(1), Z(2), Z(1000))); })
F(n_event_get_root_id, 3, { RE(nostr_event_get_root_id(EVT(0,9010), OUT(1,8192), Z(8192), OUT(2,8192), Z(8192))); })
F(n_event_get_reply_id, 3, { RE(nostr_event_get_reply_id(EVT(0,9010), OUT(1,8192), Z(8192), OUT(2,8192), Z(8192))); })
F(n_event_add_reply_tags, 7, { RE(nostr_event_add_reply_tags(EVT(0,1), STR(1,HX(ID)), STR(2,"wss://r.example"), STR(3,HX(K2.pub)), STR(4,HX(ID)), STR(5,"wss://r.example"), STR(6,HX(K2.pub)))); })
F(n_event_add_mention_tag, 3, { RE(nostr_event_add_mention_tag(EVT(0,1), STR(1,HX(K2.pub)), STR(2,"wss://r.example"))); })
F(n_event_is_reply, 2, { RE(nostr_event_is_reply(EVT(0,1), OUT(1,sizeof(int)))); })
F(n_reaction_create, 5, { RE(nostr_reaction_create(OEV(0), STR(1,"+"), STR(2,HX(ID)), STR(3,HX(K2.pub)), STR(4,"wss://r.example"), Z(1))); })
F(n_reaction_parse, 5, { RE(nostr_reaction_parse(EVT(0,7), OUT(1,8192), Z(8192), OUT(2,8192), Z(8192), OUT(3,8192), Z(8192), OUT(4,sizeof(uint16_t)))); })
F(n_reaction_is_like, 2, { RE(nostr_reaction_is_like(EVT(0,7), OUT(1,sizeof(int)))); })
F(n_reaction_is_dislike, 2, { RE(nostr_reaction_is_dislike(EVT(0,7), OUT(1,sizeof(int)))); })
F(n_repost_create, 6, { RE(nostr_repost_create(OEV(0), STR(1,HX(ID)), STR(2,HX(K2.pub)), STR(3,"wss://r.example"), Z(30023), STR(4,"d1"), STR(5,evjson(1)))); })
F(n_repost_parse, 5, { RE(nostr_repost_parse(EVT(0,6), OUT(1,8192), Z(8192), OUT(2,8192), Z(8192), OUT(3,8192), Z(8192), OUT(4,sizeof(uint16_t)))); })
F(n_quote_tags_from_content, 1, { RE(nostr_quote_tags_from_content(EVT(0,1))); })
F(n_uri_parse, 2, { RE(nostr_uri_parse(STR(0,uris()), OURI(1))); })
F(n_uri_encode, 2, { RE(nostr_uri_encode(URI(0), OUT(1,8192), Z(8192))); })
F(n_uri_free, 1, { nostr_uri_free(URIOWN(0)); V; })
F(n_nprofile_encode, 2, { RE(nostr_nprofile_encode(NPRO(0), OUT(1,8192), Z(8192))); })
F(n_nprofile_decode, 2, { RE(nostr_nprofile_decode(STR(0,nprof()), ONPRO(1))); })
F(n_nprofile_free, 1, { nostr_nprofile_free(NPROOWN(0)); V; })
F(n_nevent_encode, 2, { RE(nostr_nevent_encode(NEV(0), OUT(1,8192), Z(8192))); })
F(n_nevent_decode, 2, { RE(nostr_nevent_decode(STR(0,nevnt()), ONEV(1))); })
F(n_nevent_free, 1, { nostr_nevent_free(NEVOWN(0)); V; })
F(n_naddr_encode, 2, { RE(nostr_naddr_encode(NAD(0), OUT(1,8192), Z(8192))); })
F(n_naddr_decode, 2, { RE(nostr_naddr_decode(STR(0,naddrs()), ONAD(1))); })
F(n_naddr_free, 1, { nostr_naddr_free(NADOWN(0)); V; })
F(n_nrelay_encode, 2, { RE(nostr_nrelay_encode(NREL(0), OUT(1,8192), Z(8192))); })
F(n_nrelay_decode, 2, { RE(nostr_nrelay_decode(STR(0,nrel()), OUT(1,sizeof(nostr_nrelay)))); })
F(n_ncryptsec_encrypt, 3, { RE(nostr_ncryptsec_encrypt(IN(0,K1.k,sizeof(nostr_privkey)), STR(1,"pw"), Z(16), OUT(2,8192), Z(8192))); })
F(n_ncryptsec_decrypt, 3, { RE(nostr_ncryptsec_decrypt(STR(0,ncrypt()), STR(1,"pw"), OUT(2,sizeof(nostr_privkey)))); })
F(n_ncryptsec_validate, 1, { RE(nostr_ncryptsec_validate(STR(0,ncrypt()))); })
F(n_relay_list_create, 1, { RE(nostr_relay_list_create(ORL(0))); })
F(n_relay_list_free, 1, { nostr_relay_list_free(RLOWN(0)); V; })
F(n_relay_list_add, 2, { RE(nostr_relay_list_add(OBJ(0,mkrl()), STR(1,"wss://r.example"), Z(1), Z(1))); })
F(n_relay_list_to_event, 2, { RE(nostr_relay_list_to_event(OBJ(0,mkrl()), OEV(1))); })
F(n_relay_list_from_event, 2, { RE(nostr_relay_list_from_event(EVT(0,10002), ORL(1))); })
F(n_relay_list_count, 1, { R(nostr_relay_list_count(OBJ(0,mkrl()))); })
F(n_relay_list_get, 1, { P(nostr_relay_list_get(OBJ(0,mkrl()), Z(0))); })
F(n_relay_list_get_read_relays, 3, { RE(nostr_relay_list_get_read_relays(OBJ(0,mkrl()), OSTRS(1), OUT(2,sizeof(size_t)))); })
F(n_relay_list_get_write_relays, 3, { RE(nostr_relay_list_get_write_relays(OBJ(0,mkrl()), OSTRS(1), OUT(2,sizeof(size_t)))); })
F(n_relay_list_free_urls, 1, { nostr_relay_list_free_urls(STRSOWN(0), Z(2)); V; })
F(n_nip05_parse, 3, { RE(nostr_nip05_parse(STR(0,"bob@d.example"), OUT(1,8192), Z(8192), OUT(2,8192), Z(8192))); })
F(n_nip05_build_url, 3, { RE(nostr_nip05_build_url(STR(0,"bob"), STR(1,"d.example"), OUT(2,8192), Z(8192))); })
F(n_nip05_parse_response, 5, { RE(nostr_nip05_parse_response(STR(0,n5doc()), STR(1,"bob"), OUT(2,8192), Z(8192), OSTRS(3), OUT(4,sizeof(size_t)))); })
F(n_nip05_free_relays, 1, { nostr_nip05_free_relays(STRSOWN(0), Z(2)); V; })
F(n_nip05_verify, 6, { RE(nostr_nip05_verify(STR(0,"bob@d.example"), STR(1,HX(K2.pub)), FN(2,cbh), UD(3), OSTRS(4), OUT(5,sizeof(size_t)))); })
F(n_delegation_create, 4, { RE(nostr_delegation_create(IN(0,K1.k,sizeof(nostr_privkey)), IN(1,K2.p,sizeof(nostr_key)), STR(2,"kind=1&created_at<1800000000"), ODEL(3))); })
F(n_delegation_verify, 2, { RE(nostr_delegation_verify(DEL(0), IN(1,K2.p,sizeof(nostr_key)))); })
F(n_delegation_check_conditions, 1, { RE(nostr_delegation_check_conditions(DEL(0), Z(1), Z(1700000000))); })
F(n_event_add_delegation, 2, { RE(nostr_event_add_delegation(EVT(0,2026), DEL(1))); })
F(n_event_get_delegation, 2, { RE(nostr_event_get_delegation(EVT(0,9026), ODEL(1))); })
F(n_event_verify_delegation, 1, { RE(nostr_event_verify_delegation(EVT(0,9026))); })
F(n_delegation_free, 1, { nostr_delegation_free(DELOWN(0)); V; })
F(n_list_create, 1, { RE(nostr_list_create(OLS(0), Z(10000))); })
F(n_list_free, 1, { nostr_list_free(LSOWN(0)); V; })
F(n_list_set_d_tag, 2, { RE(nostr_list_set_d_tag(OBJ(0,mkls(0)), STR(1,"d1"))); })
F(n_list_set_title, 2, { RE(nostr_list_set_title(OBJ(0,mkls(0)), STR(1,"text"))); })
F(n_list_set_description, 2, { RE(nostr_list_set_description(OBJ(0,mkls(0)), STR(1,"text"))); })
F(n_list_set_image, 2, { RE(nostr_list_set_image(OBJ(0,mkls(0)), STR(1,"text"))); })
F(n_list_add_pubkey, 4, { RE(nostr_list_add_pubkey(OBJ(0,mkls(0)), STR(1,HX(K2.pub)), STR(2,"wss://r.example"), STR(3,"text"), Z(1))); })
F(n_list_add_event, 3, { RE(nostr_list_add_event(OBJ(0,mkls(0)), STR(1,HX(ID)), STR(2,"wss://r.example"), Z(1))); })
F(n_list_add_hashtag, 2, { RE(nostr_list_add_hashtag(OBJ(0,mkls(0)), STR(1,"text"), Z(1))); })
F(n_list_add_word, 2, { RE(nostr_list_add_word(OBJ(0,mkls(0)), STR(1,"text"), Z(1))); })
F(n_list_add_relay, 2, { RE(nostr_list_add_relay(OBJ(0,mkls(0)), STR(1,"wss://r.example"), Z(1))); })
F(n_list_add_reference, 3, { RE(nostr_list_add_reference(OBJ(0,mkls(0)), STR(1,addr()), STR(2,"wss://r.example"), Z(1))); })
F(n_list_add_group, 4, { RE(nostr_list_add_group(OBJ(0,mkls(0)), STR(1,"text"), STR(2,"wss://r.example"), STR(3,"text"), Z(1))); })
F(n_list_add_emoji, 3, { RE(nostr_list_add_emoji(OBJ(0,mkls(0)), STR(1,"text"), STR(2,"https://i.example/x.png"), Z(1))); })
F(n_list_to_event, 3, { RE(nostr_list_to_event(OBJ(0,mkls(PRIV)), KP(1), OEV(2))); })
F(n_list_from_event, 3, { RE(nostr_list_from_event(EVT(0,10000), KP(1), OLS(2))); })
F(n_list_count, 1, { R(nostr_list_count(OBJ(0,mkls(0)))); })
F(n_list_get, 1, { P(nostr_list_get(OBJ(0,mkls(0)), Z(0))); })
F(n_list_remove, 1, { RE(nostr_list_remove(OBJ(0,mkls(0)), Z(0))); })
F(n_filter_parse, 2, { RE(nostr_filter_parse(STR(0,FJSON), Z(L(strlen(FJSON))), OFLT(1))); })
F(n_filter_matches, 2, { RB(nostr_filter_matches(FLT(0,2), EVT(1,1))); })
F(n_filter_matches_with_search, 4, { RB(nostr_filter_matches_with_search(FLT(0,3), EVT(1,1), FN(2,cbs), UD(3))); })
F(n_filters_match, 2, { RB(nostr_filters_match(FLT(0,2), Z(1), EVT(1,1))); })
F(n_filters_match_with_search, 4, { RB(nostr_filters_match_with_search(FLT(0,3), Z(1), EVT(1,1), FN(2,cbs), UD(3))); })
F(n_filter_validate, 2, { RE(nostr_filter_validate(FLT(0,1), OUT(1,sizeof(nostr_validation_result_t)))); })
F(n_filter_free, 1, { nostr_filter_free(FLTOWN(0)); V; })
F(n_filter_clone, 2, { RE(nostr_filter_clone(OFLT(0), FLT(1,1))); })
F(n_client_msg_parse, 2, { RE(nostr_client_msg_parse(STR(0,CJSON), Z(L(strlen(CJSON))), OCMSG(1))); })
F(n_client_msg_free, 1, { nostr_client_msg_free(CMSGOWN(0)); V; })
F(n_relay_msg_serialize, 3, { RE(nostr_relay_msg_serialize(RMSG(0), OUT(1,8192), Z(8192), OUT(2,sizeof(size_t)))); })
F(n_relay_msg_event, 3, { nostr_relay_msg_event(OUT(0,sizeof(nostr_relay_msg_t)), STR(1,"text"), EVT(2,1)); V; })
F(n_relay_msg_ok, 3, { nostr_relay_msg_ok(OUT(0,sizeof(nostr_relay_msg_t)), STR(1,HX(ID)), Z(1), STR(2,"text")); V; })
F(n_relay_msg_eose, 2, { nostr_relay_msg_eose(OUT(0,sizeof(nostr_relay_msg_t)), STR(1,"text")); V; })
F(n_relay_msg_closed, 3, { nostr_relay_msg_closed(OUT(0,sizeof(nostr_relay_msg_t)), STR(1,"text"), STR(2,"text")); V; })
F(n_relay_msg_notice, 2, { nostr_relay_msg_notice(OUT(0,sizeof(nostr_relay_msg_t)), STR(1,"text")); V; })
F(n_relay_msg_auth, 2, { nostr_relay_msg_auth(OUT(0,sizeof(nostr_relay_msg_t)), STR(1,"chal")); V; })
F(n_relay_msg_count, 2, { nostr_relay_msg_count(OUT(0,sizeof(nostr_relay_msg_t)), STR(1,"text"), Z(1700000000), Z(1)); V; })
F(n_event_parse, 2, { RE(nostr_event_parse(STR(0,evjson(1)), Z(L(strlen(evjson(1)))), OEV(1))); })
F(n_event_serialize_canonical, 3, { RE(nostr_event_serialize_canonical(EVT(0,1), OUT(1,8192), Z(8192), OUT(2,sizeof(size_t)))); })
F(n_event_serialize, 3, { RE(nostr_event_serialize(EVT(0,1), OUT(1,8192), Z(8192), OUT(2,sizeof(size_t)))); })
F(n_event_validate_full, 2, { RE(nostr_event_validate_full(EVT(0,1), Z(900), OUT(1,sizeof(nostr_validation_result_t)))); })
F(n_event_compare_replaceable, 2, { R(nostr_event_compare_replaceable(EVT(0,1), EVT(1,1))); })
F(n_event_compare_addressable, 2, { R(nostr_event_compare_addressable(EVT(0,30023), EVT(1,30024))); })
F(n_event_get_tag_value, 2, { P(nostr_event_get_tag_value(EVT(0,1), STR(1,"e"))); })
F(n_event_get_d_tag, 1, { P(nostr_event_get_d_tag(EVT(0,30023))); })
F(n_event_get_tag_values, 3, { R(nostr_event_get_tag_values(EVT(0,1), STR(1,"e"), OUT(2,4*sizeof(char*)), Z(4))); })
F(n_event_has_tag, 2, { RB(nostr_event_has_tag(EVT(0,1), STR(1,"e"))); })
F(n_event_get_tag_at, 2, { P(nostr_event_get_tag_at(EVT(0,1), Z(0), OUT(1,sizeof(size_t)))); })
F(n_validate_hex64, 1, { RB(nostr_validate_hex64(STR(0,HX(ID)))); })
F(n_validate_hex_prefix, 1, { RB(nostr_validate_hex_prefix(STR(0,"ab"))); })
F(n_validate_subscription_id, 1, { RB(nostr_validate_subscription_id(STR(0,"s1"))); })
F(n_validate_address, 1, { RB(nostr_validate_address(STR(0,addr()))); })
F(n_event_get_expiration, 1, { R(nostr_event_get_expiration(EVT(0,9040))); })
F(n_event_is_expired, 1, { RB(nostr_event_is_expired(EVT(0,9040), Z(1700000000))); })
F(n_event_is_expired_now, 1, { RB(nostr_event_is_expired_now(EVT(0,9040))); })
F(n_deletion_parse, 2, { RE(nostr_deletion_parse(EVT(0,5), ODRQ(1))); })
F(n_deletion_authorized, 2, { RB(nostr_deletion_authorized(DRQ(0), EVT(1,9005))); })
F(n_deletion_authorized_address, 2, { RB(nostr_deletion_authorized_address(DRQ(0), EVT(1,30023))); })
F(n_deletion_free, 1, { nostr_deletion_free(DRQOWN(0)); V; })
F(n_validation_error_format, 2, { R(nostr_validation_error_format(VRES(0), OUT(1,8192), Z(8192))); })
F(n_relay_info_init, 1, { nostr_relay_info_init(OUT(0,sizeof(nostr_relay_info_t))); V; })
F(n_relay_limitation_init, 1, { nostr_relay_limitation_init(OUT(0,sizeof(nostr_relay_limitation_t))); V; })
F(n_relay_info_serialize, 3, { RE(nostr_relay_info_serialize(INFO(0,1), OUT(1,8192), Z(8192), OUT(2,sizeof(size_t)))); })
F(n_relay_limitation_serialize, 3, { RE(nostr_relay_limitation_serialize(LIM(0), OUT(1,8192), Z(8192), OUT(2,sizeof(size_t)))); })
F(n_relay_info_set_nips, 2, { RE(nostr_relay_info_set_nips(INFO(0,0), BUFI(1,NIPS,sizeof NIPS), Z(4))); })
F(n_relay_info_add_nip, 1, { RE(nostr_relay_info_add_nip(INFO(0,0), Z(1))); })
F(n_relay_info_free, 1, { nostr_relay_info_free(INFOWN(0)); V; })
F(n_tag_iterator_init, 2, { nostr_tag_iterator_init(OUT(0,sizeof(nostr_tag_iterator_t)), EVT(1,1)); V; })
F(n_tag_iterator_next, 2, { P(nostr_tag_iterator_next(IT(0), OUT(1,sizeof(size_t)))); })
F(n_tag_iterator_next_info, 2, { RB(nostr_tag_iterator_next_info(IT(0), OUT(1,sizeof(nostr_tag_info_t)))); })
F(n_tag_is_indexable, 1, { RB(nostr_tag_is_indexable(STR(0,"e"))); })
F(n_filter_get_e_tags, 2, { P(nostr_filter_get_e_tags(FLT(0,1), OUT(1,sizeof(size_t)))); })
F(n_filter_get_p_tags, 2, { P(nostr_filter_get_p_tags(FLT(0,1), OUT(1,sizeof(size_t)))); })
F(n_filter_get_tag_values, 2, { P(nostr_filter_get_tag_values(FLT(0,1), Z('e'), OUT(1,sizeof(size_t)))); })
F(n_filter_has_tag_filters, 1, { RB(nostr_filter_has_tag_filters(FLT(0,1))); })
F(n_filter_get_ids, 2, { P(nostr_filter_get_ids(FLT(0,1), OUT(1,sizeof(size_t)))); })
F(n_filter_get_authors, 2, { P(nostr_filter_get_authors(FLT(0,1), OUT(1,sizeof(size_t)))); })
F(n_filter_get_kinds, 2, { P(nostr_filter_get_kinds(FLT(0,1), OUT(1,sizeof(size_t)))); })
F(n_filter_get_since, 1, { R(nostr_filter_get_since(FLT(0,1))); })
F(n_filter_get_until, 1, { R(nostr_filter_get_until(FLT(0,1))); })
F(n_filter_get_limit, 1, { R(nostr_filter_get_limit(FLT(0,1))); })
F(n_filter_get_search, 1, { P(nostr_filter_get_search(FLT(0,1))); })
F(n_filter_has_search, 1, { RB(nostr_filter_has_search(FLT(0,1))); })
F(n_client_msg_get_type, 1, { R(nostr_client_msg_get_type(CMSG(0))); })
F(n_client_msg_get_event, 1, { P(nostr_client_msg_get_event(CMSGE(0))); })
F(n_client_msg_get_subscription_id, 1, { P(nostr_client_msg_get_subscription_id(CMSG(0))); })
F(n_client_msg_get_filters, 2, { P(nostr_client_msg_get_filters(CMSG(0), OUT(1,sizeof(size_t)))); })
F(n_event_get_id, 1, { P(nostr_event_get_id(EVT(0,1))); })
F(n_event_get_pubkey, 1, { P(nostr_event_get_pubkey(EVT(0,1))); })
F(n_event_get_id_hex, 2, { nostr_event_get_id_hex(EVT(0,1), OUT(1,8192)); V; })
F(n_event_get_pubkey_hex, 2, { nostr_event_get_pubkey_hex(EVT(0,1), OUT(1,8192)); V; })
F(n_event_get_tag_count, 1, { R(nostr_event_get_tag_count(EVT(0,1))); })
F(n_event_get_tag, 1, { P(nostr_event_get_tag(EVT(0,1), Z(0))); })
F(n_tag_get_name, 1, { P(nostr_tag_get_name(TAG(0))); })
F(n_tag_get_value_count, 1, { R(nostr_tag_get_value_count(TAG(0))); })
F(n_tag_get_value, 1, { P(nostr_tag_get_value(TAG(0), Z(0))); })
F(n_event_find_tag, 2, { P(nostr_event_find_tag(EVT(0,1), STR(1,"e"))); })
F(n_event_is_deletion, 1, { RB(nostr_event_is_deletion(EVT(0,5))); })
F(n_event_get_e_tags_binary, 2, { B(nostr_event_get_e_tags_binary(EVT(0,9010), OUT(1,sizeof(size_t)))); })
F(n_event_get_p_tags_binary, 2, { B(nostr_event_get_p_tags_binary(EVT(0,9010), OUT(1,sizeof(size_t)))); })
F(n_hex_to_bytes, 2, { RE(nostr_hex_to_bytes(STR(0,"abcdef01"), Z(L(8)), OUT(1,8192), Z(8192))); })
F(n_bytes_to_hex, 2, { nostr_bytes_to_hex(IN(0,ID,32), Z(32), OUT(1,8192)); V; })
F(n_free, 1, { nostr_free(FREEOWN(0)); V; })
F(n_free_strings, 1, { nostr_free_strings(STRSOWN(0), Z(2)); V; })
#ifdef NOSTR_FEATURE_NIP44
F(n_nip44_encrypt, 4, { RE(nostr_nip44_encrypt(IN(0,K1.k,sizeof(nostr_privkey)), IN(1,K2.p,sizeof(nostr_key)), STR(2,"plain"), Z(L(5)), OSTR(3))); })
F(n_nip04_encrypt, 4, { RE(nostr_nip04_encrypt(IN(0,K1.k,sizeof(nostr_privkey)), IN(1,K2.p,sizeof(nostr_key)), STR(2,"text"), OSTR(3))); })
F(n_nip44_decrypt, 5, { RE(nostr_nip44_decrypt(IN(0,K2.k,sizeof(nostr_privkey)), IN(1,K1.p,sizeof(nostr_key)), STR(2,c44()), OSTR(3), OUT(4,sizeof(size_t)))); })
F(n_nip04_decrypt, 4, { RE(nostr_nip04_decrypt(IN(0,K2.k,sizeof(nostr_privkey)), IN(1,K1.p,sizeof(nostr_key)), STR(2,c04()), OSTR(3))); })
F(n_nip17_create_rumor, 3, { RE(nostr_nip17_create_rumor(OEV(0), Z(14), IN(1,K2.p,sizeof(nostr_key)), STR(2,"text"), Z(1700000000))); })
F(n_nip17_create_seal, 4, { RE(nostr_nip17_create_seal(OEV(0), EVT(1,14), IN(2,K1.k,sizeof(nostr_privkey)), IN(3,K2.p,sizeof(nostr_key)))); })
F(n_nip17_create_gift_wrap, 3, { RE(nostr_nip17_create_gift_wrap(OEV(0), EVT(1,13), IN(2,K2.p,sizeof(nostr_key)))); })
F(n_nip17_send_dm, 6, { RE(nostr_nip17_send_dm(OEV(0), STR(1,"text"), IN(2,K1.k,sizeof(nostr_privkey)), IN(3,K2.p,sizeof(nostr_key)), STR(4,"text"), IN(5,ID,32), Z(1700000000))); })
F(n_nip17_unwrap_dm, 4, { RE(nostr_nip17_unwrap_dm(EVT(0,1059), IN(1,K2.k,sizeof(nostr_privkey)), OEV(2), OUT(3,sizeof(nostr_key)))); })
F(n_nip59_wrap_event, 4, { RE(nostr_nip59_wrap_event(OEV(0), EVT(1,1), IN(2,K1.k,sizeof(nostr_privkey)), IN(3,K2.p,sizeof(nostr_key)))); })
F(n_nip59_unwrap_event, 4, { RE(nostr_nip59_unwrap_event(EVT(0,1059), IN(1,K2.k,sizeof(nostr_privkey)), OEV(2), OUT(3,sizeof(nostr_key)))); })
F(n_nip59_create_rumor, 3, { RE(nostr_nip59_create_rumor(OEV(0), Z(14), IN(1,K2.p,sizeof(nostr_key)), STR(2,"text"))); })
F(n_nip59_create_seal, 4, { RE(nostr_nip59_create_seal(OEV(0), EVT(1,14), IN(2,K1.k,sizeof(nostr_privkey)), IN(3,K2.p,sizeof(nostr_key)))); })
F(n_nip59_create_gift_wrap, 4, { RE(nostr_nip59_create_gift_wrap(OEV(0), EVT(1,13), IN(2,K2.p,sizeof(nostr_key)), SV(3), Z(2))); })
F(n_nip46_parse_request, 3, { RE(nostr_nip46_parse_request(EVT(0,24133), IN(1,K2.k,sizeof(nostr_privkey)), ON46(2))); })
F(n_nip46_create_response, 4, { RE(nostr_nip46_create_response(N46R(0), IN(1,K1.k,sizeof(nostr_privkey)), IN(2,K2.p,sizeof(nostr_key)), OEV(3))); })
F(n_nip46_request_free, 1, { nostr_nip46_request_free(N46OWN(0)); V; })
F(n_nip46_response_free, 1, { nostr_nip46_response_free(N46ROWN(0)); V; })
F(n_nip47_parse_connection_uri, 2, { RE(nostr_nip47_parse_connection_uri(STR(0,nwuri()), ONWC(1))); })
F(n_nip47_free_connection, 1, { RE(nostr_nip47_free_connection(NWOWN(0))); })
F(n_nip47_parse_info_event, 7, { RE(nostr_nip47_parse_info_event(EVT(0,13194), OSTRS(1), OUT(2,sizeof(size_t)), OSTRS(3), OUT(4,sizeof(size_t)), OSTRS(5), OUT(6,sizeof(size_t)))); })
F(n_nip47_create_request_event, 4, { RE(nostr_nip47_create_request_event(OEV(0), OBJ(1,mknwc(1)), STR(2,"get_info"), STR(3,"{}"), Z(1))); })
F(n_nip47_parse_response_event, 6, { RE(nostr_nip47_parse_response_event(EVT(0,23195), IN(1,K2.k,sizeof(nostr_privkey)), OSTR(2), OSTR(3), OSTR(4), OSTR(5))); })
F(n_nip47_parse_notification_event, 4, { RE(nostr_nip47_parse_notification_event(EVT(0,23197), IN(1,K2.k,sizeof(nostr_privkey)), OSTR(2), OSTR(3))); })
F(n_nip47_create_pay_invoice_params, 3, { RE(nostr_nip47_create_pay_invoice_params(OSTR(0), STR(1,"lnbc1x"), U64(2))); })
F(n_nip47_create_get_balance_params, 1, { RE(nostr_nip47_create_get_balance_params(OSTR(0))); })
F(n_nip47_create_make_invoice_params, 4, { RE(nostr_nip47_create_make_invoice_params(OSTR(0), Z(1000), STR(1,"text"), STR(2,HX(ID)), U32(3))); })
F(n_nip47_create_list_transactions_params, 7, { RE(nostr_nip47_create_list_transactions_params(OSTR(0), TT(1), TT(2), U32(3), U32(4), U32(5), STR(6,"incoming"))); })
F(n_nip47_create_lookup_invoice_params, 3, { RE(nostr_nip47_create_lookup_invoice_params(OSTR(0), STR(1,HX(ID)), STR(2,"lnbc1x"))); })
F(n_nip47_create_pay_keysend_params, 4, { RE(nostr_nip47_create_pay_keysend_params(OSTR(0), Z(1000), STR(1,HX(K2.pub)), STR(2,HX(ID)), TLV(3), Z(1))); })
F(n_nip47_create_multi_pay_invoice_params, 4, { RE(nostr_nip47_create_multi_pay_invoice_params(OSTR(0), SV(1), SV(2), U64(3), Z(2))); })
F(n_nip47_create_get_info_params, 1, { RE(nostr_nip47_create_get_info_params(OSTR(0))); })
F(n_nip47_parse_balance_response, 2, { RE(nostr_nip47_parse_balance_response(STR(0,"{\"balance\":5}"), OUT(1,sizeof(uint64_t)))); })
F(n_nip47_parse_pay_invoice_response, 3, { RE(nostr_nip47_parse_pay_invoice_response(STR(0,"{\"preimage\":\"ab\",\"fees_paid\":5}"), OSTR(1), OUT(2,sizeof(uint64_t)))); })
F(n_nip47_parse_info_response, 8, { RE(nostr_nip47_parse_info_response(STR(0,INFOJSON), OSTR(1), OSTR(2), OSTR(3), OSTR(4), OUT(5,sizeof(uint32_t)), OSTRS(6), OUT(7,sizeof(size_t)))); })
F(n_nip47_session_create, 2, { RE(nostr_nip47_session_create(STR(0,nwuri()), OSESS(1))); })
F(n_nip47_session_add_permission, 2, { RE(nostr_nip47_session_add_permission(STR(0,session()), STR(1,"pay_invoice"), Z(1000), Z(1))); })
F(n_nip47_session_check_permission, 2, { RE(nostr_nip47_session_check_permission(STR(0,session()), STR(1,"pay_invoice"), Z(1000))); })
F(n_nip47_session_get_connection, 2, { RE(nostr_nip47_session_get_connection(STR(0,session()), OUT(1,sizeof(void*)))); })
F(n_nip47_session_extend, 1, { RE(nostr_nip47_session_extend(STR(0,session()), Z(1))); })
F(n_nip47_session_destroy, 1, { RE(nostr_nip47_session_destroy(STR(0,session()))); })
#endif
#ifdef NOSTR_FEATURE_RELAY
F(n_relay_create, 2, { RE(nostr_relay_create(ORELAY(0), STR(1,"ws://127.0.0.1:1"))); })
F(n_relay_connect, 3, { RE(nostr_relay_connect(OBJ(0,mkrelay()), FN(1,cb1), UD(2))); })
F(n_relay_disconnect, 1, { RE(nostr_relay_disconnect(RCON(0))); })
F(n_relay_send_event, 2, { RE(nostr_relay_send_event(RCON(0), EVT(1,1))); })
F(n_subscribe, 5, { RE(nostr_subscribe(RCON(0), STR(1,"s1"), STR(2,"{}"), FN(3,cb2), UD(4))); })
F(n_publish_event, 2, { RE(nostr_publish_event(RCON(0), EVT(1,1))); })
F(n_relay_unsubscribe, 2, { RE(nostr_relay_unsubscribe(RCON(0), STR(1,"s1"))); })
F(n_relay_set_message_callback, 3, { RE(nostr_relay_set_message_callback(RCON(0), FN(1,cb3), UD(2))); })
#endif
#undef R
#undef RE
#undef RB
#undef P
#undef V
#undef B
OP("null.list") { UNUSED; o_arr("f"); for (int i = 0; i < nNT; i++) { o_str(NULL, NT[i].name); o_int(NULL, NT[i].k); } o_aend(); }
/* null.call NAME MASK VARIANT */
OP("null.call") { UNUSED; unsigned m = (unsigned)a_int(v, 1); static long long clock_; var = (unsigned)a_int(v, 2); setup(); vf_fake_time = 1700000000 + 5 * ++clock_; nW = nWE = nOW = nD = 0;
  for (int i = 0; i < nNT; i++) if (!strcmp(NT[i].name, v[0])) {
    LIB(NT[i].f(m)); o_ret(nr); o_int("kind", nkind); o_arr("changed"); for (int j = 0; j < nW; j++) if (!W[j].out && memcmp(W[j].p, W[j].old, W[j].n)) o_int(NULL, W[j].bit); o_aend();
    o_int("ok", nok); int deep = 0; for (int j = 0; j < nWE; j++) deep |= eh(WE[j]) != WH[j]; o_int("deep", deep);
    /* an output untouched, all zero or the empty string, or something else */
    o_arr("outs"); for (int j = 0; j < nW; j++) if (W[j].out) { size_t z = 0; while (z < W[j].n && !W[j].p[z]) z++; o_int(NULL, !memcmp(W[j].p, W[j].old, W[j].n) ? 0 : z == W[j].n || (z && !memcmp(W[j].p + z, W[j].old + z, W[j].n - z)) ? 1 : 2); } o_aend();
    for (int j = 0; j < nW; j++) free(W[j].old);
    give_back(nok); nostr_config_set_callback(NULL, NULL); vf_fake_time = 0; return; }
  die("null: no function %s", v[0]); }
#endif

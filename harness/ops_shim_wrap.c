/* NIP-59 gift wraps and NIP-17 direct messages */
#include "driver.h"
#define SENT ((nostr_event*)0x51)
static void give(char **v, int i, int r, nostr_event *e) {
    o_ret(r); int s = (int)a_int(v, i);
    if (r) { o_int("left", e != SENT && e != NULL); return; }
    if (EV[s]) LIB(nostr_event_destroy(EV[s]));
    EV[s] = e; o_event("e", e);
}
/* key material sits in blocks that end with the op, not in static memory, where C34 looks for it */
#define K (*k_)
#define P (*p_)
#define VARS nostr_privkey *k_ = d_alloc(sizeof *k_); nostr_key *p_ = d_alloc(sizeof *p_)
#define KEYS(i, j) a_fix(v, i, K.data, 32); a_fix(v, j, P.data, 32)
OP("g.wrap") { UNUSED; VARS; (void)K; (void)P; KEYS(2, 3); nostr_event *e = SENT; int r; LIB(r = nostr_nip59_wrap_event(&e, ev(v, 1), &K, &P)); give(v, 0, r, e); }
OP("g.unwrap") { UNUSED; VARS; (void)K; (void)P; a_fix(v, 2, K.data, 32); nostr_key a; memset(&a, 0, sizeof a); nostr_event *e = SENT; int r, x = n > 3; LIB(r = nostr_nip59_unwrap_event(ev(v, 1), &K, &e, x ? NULL : &a)); give(v, 0, r, e); if (!r && !x) o_hex("author", a.data, 32); }
OP("g.rumor") { UNUSED; VARS; (void)K; (void)P; a_fix(v, 2, P.data, 32); char *c = a_str(v, 3); nostr_event *e = SENT; int r; LIB(r = nostr_nip59_create_rumor(&e, (uint16_t)a_int(v, 1), &P, c)); give(v, 0, r, e); }
OP("g.seal") { UNUSED; VARS; (void)K; (void)P; KEYS(2, 3); nostr_event *e = SENT; int r; LIB(r = nostr_nip59_create_seal(&e, ev(v, 1), &K, &P)); give(v, 0, r, e); }
OP("g.gift") { UNUSED; VARS; (void)K; (void)P; a_fix(v, 2, P.data, 32); char **l; int k = a_list(v, 3, &l); nostr_event *e = SENT; int r; LIB(r = nostr_nip59_create_gift_wrap(&e, ev(v, 1), &P, (const char **)l, (size_t)k)); give(v, 0, r, e); }
OP("d.rumor") { UNUSED; VARS; (void)K; (void)P; a_fix(v, 2, P.data, 32); char *c = a_str(v, 3); nostr_event *e = SENT; int r; LIB(r = nostr_nip17_create_rumor(&e, (uint16_t)a_int(v, 1), &P, c, a_int(v, 4))); give(v, 0, r, e); }
OP("d.seal") { UNUSED; VARS; (void)K; (void)P; KEYS(2, 3); nostr_event *e = SENT; int r; LIB(r = nostr_nip17_create_seal(&e, ev(v, 1), &K, &P)); give(v, 0, r, e); }
OP("d.gift") { UNUSED; VARS; (void)K; (void)P; a_fix(v, 2, P.data, 32); nostr_event *e = SENT; int r; LIB(r = nostr_nip17_create_gift_wrap(&e, ev(v, 1), &P)); give(v, 0, r, e); }
OP("d.send") { UNUSED; VARS; (void)K; (void)P; KEYS(2, 3); char *c = a_str(v, 1), *s = a_str(v, 4); uint8_t *q = NULL, qb[32]; if (!a_null(v, 5)) { a_fix(v, 5, qb, 32); q = d_alloc(32); memcpy(q, qb, 32); }
    nostr_event *e = SENT; int r; LIB(r = nostr_nip17_send_dm(&e, c, &K, &P, s, q, a_int(v, 6))); give(v, 0, r, e); }
OP("d.unwrap") { UNUSED; VARS; (void)K; (void)P; a_fix(v, 2, K.data, 32); nostr_key a; memset(&a, 0, sizeof a); nostr_event *e = SENT; int r, x = n > 3; LIB(r = nostr_nip17_unwrap_dm(ev(v, 1), &K, &e, x ? NULL : &a)); give(v, 0, r, e); if (!r && !x) o_hex("author", a.data, 32); }

#include "driver.h"
/* id buffer size, relay buffer size given by the workload; buffers are exact */
static void idop(int n, char **v, nostr_error_t (*f)(const nostr_event *, char *, size_t, char *, size_t)) {
  (void)n; size_t a = a_int(v, 1), b = a_int(v, 2); char *id = b_out(a), *rl = a_int(v, 2) < 0 ? NULL : b_out(b); if (!rl) b = 0; int r;
  LIB(r = f(ev(v, 0), id, a, rl, b)); o_ret(r);
  if (!r) { o_hex("id", id, strnlen(id, a)); o_int("idnul", strnlen(id, a) < a); if (rl && b) { o_hex("relay", rl, strnlen(rl, b)); o_int("rnul", strnlen(rl, b) < b); } } }
OP("n10.root") { idop(n, v, nostr_event_get_root_id); }
OP("n10.reply") { idop(n, v, nostr_event_get_reply_id); }
OP("n10.isreply") { (void)n; int x = -7, r; LIB(r = nostr_event_is_reply(ev(v, 0), &x)); o_ret(r); o_int("x", x); }
OP("n10.add") { (void)n; int r; LIB(r = nostr_event_add_reply_tags(ev(v, 0), a_str(v, 1), a_str(v, 2), a_str(v, 3), a_str(v, 4), a_str(v, 5), a_str(v, 6))); o_ret(r); }
OP("n10.mention") { (void)n; int r; LIB(r = nostr_event_add_mention_tag(ev(v, 0), a_str(v, 1), a_str(v, 2))); o_ret(r); }
static void putev(char **v, int i, int r, nostr_event *e) { long s = a_int(v, i); if (!r) { if (EV[s]) nostr_event_destroy(EV[s]); EV[s] = e; o_event("e", e); } else o_int("dangling", e != NULL && e != (nostr_event *)1); }
OP("n18.create") { (void)n; nostr_event *e = (nostr_event *)1; int r; LIB(r = nostr_repost_create(&e, a_str(v, 1), a_str(v, 2), a_str(v, 3), (uint16_t)a_int(v, 4), a_str(v, 5), a_str(v, 6))); o_ret(r); putev(v, 0, r, e); }
static void outs(const char *k, char *b, size_t n) { if (!b) return; o_hex(k, b, strnlen(b, n)); if (n && strnlen(b, n) == n) o_int("unterminated", 1); }
OP("n18.parse") { (void)n; size_t a = a_int(v, 1), b = a_int(v, 2), c = a_int(v, 3); char *id = b_out(a), *pk = b_out(b), *rl = b_out(c); uint16_t k = 4242; int r;
  int nul = a_int(v, 4); LIB(r = nostr_repost_parse(ev(v, 0), nul ? NULL : id, nul ? 0 : a, nul ? NULL : pk, nul ? 0 : b, nul ? NULL : rl, nul ? 0 : c, nul ? NULL : &k)); o_ret(r);
  if (!r && !nul) { outs("id", id, a); outs("pk", pk, b); outs("relay", rl, c); o_int("kind", k); } }
OP("n18.quote") { (void)n; int r; LIB(r = nostr_quote_tags_from_content(ev(v, 0))); o_ret(r); }
OP("n25.create") { (void)n; nostr_event *e = (nostr_event *)1; int r; LIB(r = nostr_reaction_create(&e, a_str(v, 1), a_str(v, 2), a_str(v, 3), a_str(v, 4), (uint16_t)a_int(v, 5))); o_ret(r); putev(v, 0, r, e); }
OP("n25.parse") { (void)n; size_t c = a_int(v, 1), a = a_int(v, 2), b = a_int(v, 3); char *ct = b_out(c), *id = b_out(a), *pk = b_out(b); uint16_t k = 4242; int r;
  int nul = a_int(v, 4); LIB(r = nostr_reaction_parse(ev(v, 0), nul ? NULL : ct, nul ? 0 : c, nul ? NULL : id, nul ? 0 : a, nul ? NULL : pk, nul ? 0 : b, nul ? NULL : &k)); o_ret(r);
  if (!r && !nul) { outs("content", ct, c); outs("id", id, a); outs("pk", pk, b); o_int("kind", k); } }
OP("n25.like") { (void)n; int a = -7, b = -7, ra, rb; LIB({ ra = nostr_reaction_is_like(ev(v, 0), &a); rb = nostr_reaction_is_dislike(ev(v, 0), &b); }); o_int("ra", ra); o_int("rb", rb); if (!ra) o_int("like", a); if (!rb) o_int("dislike", b); }

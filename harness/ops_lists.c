#include "driver.h"
static VFT nostr_relay_list *RL[8]; static VFT nostr_list *LS[8];
static nostr_relay_list **rl(char **v, int i) { long s = a_int(v, i); if (s < 0 || s >= 8) die("slot"); return &RL[s]; }
static nostr_list **ls(char **v, int i) { long s = a_int(v, i); if (s < 0 || s >= 8) die("slot"); return &LS[s]; }
static void fl(void) { for (int i = 0; i < 8; i++) { if (RL[i]) nostr_relay_list_free(RL[i]); if (LS[i]) nostr_list_free(LS[i]); RL[i] = NULL; LS[i] = NULL; } }
RESET_HOOK(fl)
#define SENT1 ((void *)1)
static void put(char **v, int i, int r, nostr_event *e) { long s = a_int(v, i); if (!r) { if (EV[s]) nostr_event_destroy(EV[s]); EV[s] = e; o_event("e", e); } else o_int("dangling", e != NULL && e != SENT1); }
OP("rl.create") { (void)n; nostr_relay_list *p = SENT1; int r; LIB(r = nostr_relay_list_create(&p)); o_ret(r); if (!r) { if (*rl(v, 0)) nostr_relay_list_free(*rl(v, 0)); *rl(v, 0) = p; } else o_int("dangling", p && p != SENT1); }
OP("rl.add") { (void)n; int r; LIB(r = nostr_relay_list_add(*rl(v, 0), a_str(v, 1), a_int(v, 2), a_int(v, 3))); o_ret(r); }
OP("rl.dump") { (void)n; nostr_relay_list *l = *rl(v, 0); size_t c; LIB(c = nostr_relay_list_count(l)); o_int("n", c); o_arr("l");
  for (size_t i = 0; i < c; i++) { const nostr_relay_list_entry *e; LIB(e = nostr_relay_list_get(l, i)); o_arr(NULL); o_str(NULL, e->url); o_int(NULL, e->read); o_int(NULL, e->write); o_aend(); } o_aend();
  o_int("past", nostr_relay_list_get(l, c) == NULL && nostr_relay_list_get(l, (size_t)-1) == NULL); }
OP("rl.views") { (void)n; char **u = SENT1; size_t c = 99; int r;
  LIB(r = nostr_relay_list_get_read_relays(*rl(v, 0), &u, &c)); o_int("rr", r); if (!r) { o_strs("read", u, c); nostr_relay_list_free_urls(u, c); } else o_int("rdangling", u && u != SENT1);
  u = SENT1; c = 99; LIB(r = nostr_relay_list_get_write_relays(*rl(v, 0), &u, &c)); o_int("rw", r); if (!r) { o_strs("write", u, c); nostr_relay_list_free_urls(u, c); } else o_int("wdangling", u && u != SENT1); }
OP("rl.toev") { (void)n; nostr_event *e = SENT1; int r; LIB(r = nostr_relay_list_to_event(*rl(v, 0), &e)); o_ret(r); put(v, 1, r, e); }
OP("rl.fromev") { (void)n; nostr_relay_list *p = SENT1; int r; LIB(r = nostr_relay_list_from_event(ev(v, 1), &p)); o_ret(r); if (!r) { if (*rl(v, 0)) nostr_relay_list_free(*rl(v, 0)); *rl(v, 0) = p; } else o_int("dangling", p && p != SENT1); }
/* NIP-51 */
OP("ls.create") { (void)n; nostr_list *p = SENT1; int r; LIB(r = nostr_list_create(&p, (uint16_t)a_int(v, 1))); o_ret(r); if (!r) { if (*ls(v, 0)) nostr_list_free(*ls(v, 0)); *ls(v, 0) = p; } else o_int("dangling", p && p != SENT1); }
OP("ls.meta") { (void)n; nostr_list *l = *ls(v, 0); char *w = v[1]; char *s = a_str(v, 2); int r;
  if (!strcmp(w, "self")) { LIB(r = nostr_list_set_title(l, l->title)); }
  else LIB(r = !strcmp(w, "d") ? nostr_list_set_d_tag(l, s) : !strcmp(w, "title") ? nostr_list_set_title(l, s) : !strcmp(w, "description") ? nostr_list_set_description(l, s) : nostr_list_set_image(l, s));
  o_ret(r); }
OP("ls.add") { nostr_list *l = *ls(v, 0); char *w = v[1]; int pv = (int)a_int(v, 2); char *a = a_str(v, 3), *b = n > 4 ? a_str(v, 4) : NULL, *c = n > 5 ? a_str(v, 5) : NULL; int r = -99;
  LIB({ if (!strcmp(w, "p")) r = nostr_list_add_pubkey(l, a, b, c, pv); else if (!strcmp(w, "e")) r = nostr_list_add_event(l, a, b, pv); else if (!strcmp(w, "t")) r = nostr_list_add_hashtag(l, a, pv);
    else if (!strcmp(w, "word")) r = nostr_list_add_word(l, a, pv); else if (!strcmp(w, "relay")) r = nostr_list_add_relay(l, a, pv); else if (!strcmp(w, "a")) r = nostr_list_add_reference(l, a, b, pv);
    else if (!strcmp(w, "group")) r = nostr_list_add_group(l, a, b, c, pv); else if (!strcmp(w, "emoji")) r = nostr_list_add_emoji(l, a, b, pv); else die("kind of item"); });
  o_ret(r); }
OP("ls.many") { (void)n; nostr_list *l = *ls(v, 0); long c = a_int(v, 1), i; int r = 0; char b[32]; for (i = 0; i < c && !r; i++) { snprintf(b, sizeof b, "w%ld", i); LIB(r = nostr_list_add_word(l, b, 0)); } o_ret(r); o_int("done", r ? i - 1 : i); }
OP("ls.remove") { (void)n; int r; LIB(r = nostr_list_remove(*ls(v, 0), a_u64(v, 1))); o_ret(r); }
OP("ls.dump") { (void)n; nostr_list *l = *ls(v, 0); size_t c; LIB(c = nostr_list_count(l)); o_int("n", c); o_int("kind", l->kind); o_arr("l");
  for (size_t i = 0; i < c; i++) { const nostr_list_item *e; LIB(e = nostr_list_get(l, i)); o_arr(NULL); o_str(NULL, e->tag_type); o_str(NULL, e->value); o_str(NULL, e->relay_hint); o_str(NULL, e->petname); o_int(NULL, e->is_private); o_aend(); } o_aend();
  o_int("past", nostr_list_get(l, c) == NULL && nostr_list_get(l, (size_t)-1) == NULL);
  o_str("d", l->d_tag); o_str("title", l->title); o_str("description", l->description); o_str("image", l->image); }
static int kp(char **v, int i, nostr_keypair *k) { if (a_null(v, i)) return 0; nostr_privkey p; a_fix(v, i, p.data, 32); memset(k, 0, sizeof *k); if (nostr_keypair_from_private_key(k, &p)) die("bad key"); return 1; }
OP("ls.toev") { (void)n; nostr_keypair k; int h = kp(v, 2, &k); nostr_event *e = SENT1; int r; LIB(r = nostr_list_to_event(*ls(v, 0), h ? &k : NULL, &e)); o_ret(r); put(v, 1, r, e); if (h) nostr_keypair_destroy(&k); }
OP("ls.fromev") { (void)n; nostr_keypair k; int h = kp(v, 2, &k); nostr_list *p = SENT1; int r; LIB(r = nostr_list_from_event(ev(v, 1), h ? &k : NULL, &p)); o_ret(r); if (!r) { if (*ls(v, 0)) nostr_list_free(*ls(v, 0)); *ls(v, 0) = p; } else o_int("dangling", p && p != SENT1); if (h) nostr_keypair_destroy(&k); }

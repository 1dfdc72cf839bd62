#include "driver.h"

static nostr_event **slot(char **v, int i) { long long s = a_int(v, i); if (s < 0 || s >= NSLOT) die("bad slot"); return &EV[s]; }
static void put(char **v, int i, nostr_event *e) { nostr_event **p = slot(v, i); if (*p) nostr_event_destroy(*p); *p = e; }
#define SENT ((nostr_event *)0x1)

/* ev.build slot pubkey created kind content tag... ; answers r of first failing call, also index */
OP("ev.build") {
  nostr_event *e = NULL; uint8_t pk[32]; a_fix(v, 1, pk, 32); char *c = a_str(v, 4); int r = 0, where = -1;
  LIB(r = nostr_event_create(&e));
  if (!r) {
    memcpy(e->pubkey.data, pk, 32); e->created_at = a_int(v, 2); e->kind = (uint16_t)a_int(v, 3);
    if (c) LIB(r = nostr_event_set_content(e, c));
    for (int i = 5; i < n && !r; i++) { char **l; int k = a_list(v, i, &l); where = i - 5; LIB(r = nostr_event_add_tag(e, (const char **)l, k)); }
  }
  put(v, 0, e); o_ret(r); o_int("at", where);
}
OP("ev.create") { (void)n; nostr_event *e = SENT; int r; LIB(r = nostr_event_create(&e)); o_ret(r); o_int("null", e == NULL); if (!r) put(v, 0, e); }
OP("ev.destroy") { (void)n; nostr_event **p = slot(v, 0); LIB(nostr_event_destroy(*p)); *p = NULL; }
OP("ev.addtag") { (void)n; char **l; int k = a_list(v, 1, &l); int r; LIB(r = nostr_event_add_tag(ev(v, 0), (const char **)l, k)); o_ret(r); }
OP("ev.addtags") { int r = 0; for (int i = 1; i < n && !r; i++) { char **l; int k = a_list(v, i, &l); LIB(r = nostr_event_add_tag(ev(v, 0), (const char **)l, k)); } o_ret(r); }
/* many tags of one shape: ev.manytags slot count name value  -> tag i is [name, value+decimal(i)] */
OP("ev.manytags") { (void)n; int r = 0; long c = a_int(v, 1), i; char *nm = a_str(v, 2), *va = a_str(v, 3); size_t m = strlen(va) + 24; char *b = d_alloc(m);
  for (i = 0; i < c && !r; i++) { snprintf(b, m, "%s%ld", va, i); const char *t[2] = { nm, b }; LIB(r = nostr_event_add_tag(ev(v, 0), t, 2)); } o_ret(r); o_int("done", r ? i - 1 : i); }
/* re-add tag j of event src to event dst (pointers into the library's own storage) */
OP("ev.addtag_alias") { (void)n; nostr_event *s = ev(v, 1); long j = a_int(v, 2); int r; LIB(r = nostr_event_add_tag(ev(v, 0), (const char **)s->tags[j].values, s->tags[j].count)); o_ret(r); }
OP("ev.setcontent") { (void)n; char *c = a_str(v, 1); int r; LIB(r = nostr_event_set_content(ev(v, 0), c)); o_ret(r); }
OP("ev.setcontent_alias") { (void)n; nostr_event *e = ev(v, 0); int r; LIB(r = nostr_event_set_content(e, e->content ? e->content + a_int(v, 1) : NULL)); o_ret(r); }
OP("ev.set") { (void)n; nostr_event *e = ev(v, 0); a_fix(v, 1, e->pubkey.data, 32); e->created_at = a_int(v, 2); e->kind = (uint16_t)a_int(v, 3); a_fix(v, 4, e->id, 32); a_fix(v, 5, e->sig, 64); }
OP("ev.setid") { (void)n; a_fix(v, 1, ev(v, 0)->id, 32); }
OP("ev.setsig") { (void)n; a_fix(v, 1, ev(v, 0)->sig, 64); }
OP("ev.setpub") { (void)n; a_fix(v, 1, ev(v, 0)->pubkey.data, 32); }
OP("ev.setkind") { (void)n; ev(v, 0)->kind = (uint16_t)a_int(v, 1); }
OP("ev.settime") { (void)n; ev(v, 0)->created_at = a_int(v, 1); }
OP("ev.get") { (void)n; o_event("e", ev(v, 0)); }
OP("ev.id") { (void)n; nostr_event *e = ev(v, 0); int r; LIB(r = nostr_event_compute_id(e)); o_ret(r); if (e) o_hex("id", e->id, 32); }
OP("ev.sign") { (void)n; nostr_event *e = ev(v, 0); nostr_privkey k; int r; if (a_null(v, 1)) { LIB(r = nostr_event_sign(e, NULL)); } else { a_fix(v, 1, k.data, 32); LIB(r = nostr_event_sign(e, &k)); } o_ret(r); }
OP("ev.verify") { (void)n; int r; LIB(r = nostr_event_verify(ev(v, 0))); o_ret(r); }
OP("ev.tojson") { (void)n; char *j = (char *)SENT; int r; LIB(r = nostr_event_to_json(ev(v, 0), &j)); o_ret(r); if (!r) { o_str("json", j); free(j); } else o_int("sent", j == NULL || j == (char *)SENT); }
/* from_json: pointer preset to a sentinel; on error it must be NULL or untouched */
OP("ev.fromjson") { (void)n; char *j = a_str(v, 1); nostr_event *e = SENT; int r; LIB(r = nostr_event_from_json(j, &e)); o_ret(r);
  if (!r) { put(v, 0, e); o_event("e", e); } else o_int("dangling", e != NULL && e != SENT); }
OP("ev.parse") { (void)n; size_t l; uint8_t *j = a_buf(v, 1, &l); nostr_event *e = SENT; int r; LIB(r = nostr_event_parse((char *)j, l, &e)); o_ret(r);
  if (!r) { put(v, 0, e); o_event("e", e); } else o_int("dangling", e != NULL && e != SENT); }
OP("ev.canon") { (void)n; size_t sz = a_int(v, 1), out = 0; char *b = b_out(sz); int r; LIB(r = nostr_event_serialize_canonical(ev(v, 0), b, sz, a_int(v, 2) ? &out : NULL)); o_ret(r); o_int("len", out); if (!r) { size_t m = strnlen(b, sz); o_int("nul", m < sz); o_hex("s", b, m); } }
OP("ev.serialize") { (void)n; size_t sz = a_int(v, 1), out = 0; char *b = b_out(sz); int r; LIB(r = nostr_event_serialize(ev(v, 0), b, sz, a_int(v, 2) ? &out : NULL)); o_ret(r); o_int("len", out); if (!r) { size_t m = strnlen(b, sz); o_int("nul", m < sz); o_hex("s", b, m); } }
/* round trip in one op: json -> event -> json -> event, for scale */
OP("ev.sig_check") { (void)n; o_int("v", nostr_event_verify(ev(v, 0))); nostr_validation_result_t vr; memset(&vr, 0, sizeof vr); int r; LIB(r = nostr_event_validate_full(ev(v, 0), a_int(v, 1), &vr)); o_int("f", r); o_int("valid", vr.valid); o_int("code", vr.error_code); o_str("field", vr.error_field); o_str("msg", vr.error_message); }

/* accessors */
OP("ev.access") { (void)n; nostr_event *e = ev(v, 0); char h[65], p[65]; LIB({ nostr_event_get_id_hex(e, h); nostr_event_get_pubkey_hex(e, p); });
  o_str("id", h); o_str("pk", p); const uint8_t *a = nostr_event_get_id(e), *b = nostr_event_get_pubkey(e); o_hex("idb", a, 32); o_hex("pkb", b, 32);
  size_t c = nostr_event_get_tag_count(e); o_int("n", c); o_arr("tags");
  for (size_t i = 0; i < c; i++) { const nostr_tag *t = nostr_event_get_tag(e, i); o_arr(NULL); o_str(NULL, nostr_tag_get_name(t)); size_t m = nostr_tag_get_value_count(t); o_int(NULL, m); for (size_t j = 0; j < m; j++) o_str(NULL, nostr_tag_get_value(t, j)); o_int(NULL, nostr_tag_get_value(t, m) == NULL); o_aend(); }
  o_aend(); o_int("past", nostr_event_get_tag(e, c) == NULL);
  o_arr("at"); for (size_t i = 0; i < c; i++) { size_t m = 99; const char **x = nostr_event_get_tag_at(e, i, &m); o_arr(NULL); for (size_t j = 0; x && j < m; j++) o_str(NULL, x[j]); o_aend(); } o_aend();
  o_arr("it"); nostr_tag_iterator_t it; nostr_tag_iterator_init(&it, e); const char **x; size_t m; size_t guard = 0; while ((x = nostr_tag_iterator_next(&it, &m)) && guard++ < c + 5) { o_arr(NULL); for (size_t j = 0; j < m; j++) o_str(NULL, x[j]); o_aend(); } o_aend();
  o_arr("itinfo"); nostr_tag_iterator_init(&it, e); nostr_tag_info_t ti; guard = 0; while (nostr_tag_iterator_next_info(&it, &ti) && guard++ < c + 5) { o_arr(NULL); o_str(NULL, ti.name); for (size_t j = 0; j < ti.values_count; j++) o_str(NULL, ti.values[j]); o_aend(); } o_aend(); }
OP("ev.tagq") { (void)n; nostr_event *e = ev(v, 0); char *nm = a_str(v, 1); size_t max = a_int(v, 2); const char *val = NULL; bool has = 0; const nostr_tag *t = NULL; size_t k = 0; const char **o = b_out(max * sizeof(char *));
  LIB({ val = nostr_event_get_tag_value(e, nm); has = nostr_event_has_tag(e, nm); t = nostr_event_find_tag(e, nm); k = nostr_event_get_tag_values(e, nm, o, max); });
  o_str("value", val); o_int("has", has); o_int("find", t ? (long)(t - e->tags) : -1); o_int("k", k); o_arr("values"); for (size_t i = 0; i < k && i < max; i++) o_str(NULL, o[i]); o_aend(); if (nm) o_int("indexable", nostr_tag_is_indexable(nm)); }
OP("ev.binary") { (void)n; nostr_event *e = ev(v, 0); size_t c = 777; uint8_t (*b)[32]; LIB(b = nostr_event_get_e_tags_binary(e, &c)); o_arr("e"); for (size_t i = 0; b && i < c; i++) o_hex(NULL, b[i], 32); o_aend(); o_int("ec", c); o_int("enull", b == NULL); nostr_free(b);
  c = 777; LIB(b = nostr_event_get_p_tags_binary(e, &c)); o_arr("p"); for (size_t i = 0; b && i < c; i++) o_hex(NULL, b[i], 32); o_aend(); o_int("pc", c); o_int("pnull", b == NULL); nostr_free(b); }

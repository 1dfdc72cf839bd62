#include "driver.h"
/* filters live in slots; objects are built exactly as the parser builds them (heap arrays), so nostr_filter_free owns them */
#define NF 64
VFT nostr_filter_t FL[NF];
static nostr_filter_t *fl(char **v, int i) { long k = a_int(v, i); if (k < 0 || k >= NF) die("filter slot"); return &FL[k]; }
static char **keep(char **v, int i, size_t *n) { char **l; int c = a_list(v, i, &l); *n = c; if (c <= 0) { *n = 0; return NULL; }
  char **o = malloc(c * sizeof *o); for (int k = 0; k < c; k++) { o[k] = malloc(strlen(l[k]) + 1); strcpy(o[k], l[k]); } return o; }
/* fl.build slot ids authors kinds(comma decimal or -) e p since until limit search (letter values)* */
OP("fl.build") { nostr_filter_t *f = fl(v, 0); nostr_filter_free(f); f->ids = keep(v, 1, &f->ids_count); f->authors = keep(v, 2, &f->authors_count);
  char *t = v[3]; if (strcmp(t, "-")) { size_t c = 1; for (char *p = t; *p; p++) c += *p == ','; f->kinds = malloc(c * sizeof *f->kinds); f->kinds_count = c; for (size_t k = 0; k < c; k++) { f->kinds[k] = (int32_t)strtol(t, &t, 10); t++; } }
  f->e_tags = keep(v, 4, &f->e_tags_count); f->p_tags = keep(v, 5, &f->p_tags_count); f->since = a_int(v, 6); f->until = a_int(v, 7); f->limit = (int32_t)a_int(v, 8);
  char *s = a_str(v, 9); if (s) { f->search = malloc(strlen(s) + 1); strcpy(f->search, s); }
  int g = (n - 10) / 2; if (g > 0) { f->generic_tags = calloc(g, sizeof *f->generic_tags); f->generic_tags_count = g; for (int k = 0; k < g; k++) { f->generic_tags[k].tag_name = (char)a_int(v, 10 + 2 * k); f->generic_tags[k].values = keep(v, 11 + 2 * k, &f->generic_tags[k].values_count); } }
  o_ret(0); }
void o_filter(const char *k, const nostr_filter_t *f);
void o_filter(const char *k, const nostr_filter_t *f) { o_obj(k); size_t c; const char **s;
  s = nostr_filter_get_ids(f, &c); o_strs("ids", (char *const *)s, c); s = nostr_filter_get_authors(f, &c); o_strs("authors", (char *const *)s, c);
  const int32_t *kk = nostr_filter_get_kinds(f, &c); o_arr("kinds"); for (size_t i = 0; i < c; i++) o_int(NULL, kk[i]); o_aend();
  s = nostr_filter_get_e_tags(f, &c); o_strs("e", (char *const *)s, c); s = nostr_filter_get_p_tags(f, &c); o_strs("p", (char *const *)s, c);
  o_int("since", nostr_filter_get_since(f)); o_int("until", nostr_filter_get_until(f)); o_int("limit", nostr_filter_get_limit(f)); o_str("search", nostr_filter_get_search(f));
  o_int("hassearch", nostr_filter_has_search(f)); o_int("hastags", nostr_filter_has_tag_filters(f));
  o_arr("generic"); for (size_t i = 0; i < f->generic_tags_count; i++) { o_obj(NULL); o_int("l", f->generic_tags[i].tag_name); o_strs("v", f->generic_tags[i].values, f->generic_tags[i].values_count); o_end(); } o_aend();
  o_obj("letters"); for (char l = 'A'; l <= 'z'; l++) { size_t m = 999; s = nostr_filter_get_tag_values(f, l, &m); char nm[2] = { l, 0 }; if (m && (l <= 'Z' || l >= 'a')) o_strs(nm, (char *const *)s, m); } o_end();
  o_int("raw", f->since == nostr_filter_get_since(f) && f->ids == (char **)nostr_filter_get_ids(f, NULL)); o_end(); }
OP("fl.get") { (void)n; o_ret(0); o_filter("f", fl(v, 0)); }
/* fl.parse slot json strlenmode */
OP("fl.parse") { (void)n; nostr_filter_t *f = fl(v, 0); nostr_filter_free(f); int m = a_int(v, 2), dirty = m & 2; memset(f, dirty ? 0xA5 : 0, sizeof *f); size_t l; int r;
  if ((m & 1) || !strcmp(v[1], "x")) { char *s = a_str(v, 1); LIB(r = nostr_filter_parse(s, 0, f)); } else { uint8_t *s = a_buf(v, 1, &l); LIB(r = nostr_filter_parse((char *)s, l, f)); }
  o_ret(r); if (r) { if (dirty) memset(f, 0, sizeof *f); else LIB(nostr_filter_free(f)); } else o_filter("f", f); }
OP("fl.validate") { (void)n; nostr_validation_result_t x; memset(&x, 0xA5, sizeof x); int r; LIB(r = nostr_filter_validate(fl(v, 0), &x)); o_ret(r); o_int("valid", x.valid); o_int("code", x.error_code); o_str("field", memchr(x.error_field, 0, sizeof x.error_field) ? x.error_field : "!"); o_int("msg", memchr(x.error_message, 0, sizeof x.error_message) != NULL); }
OP("fl.clone") { (void)n; nostr_filter_t *d = fl(v, 0), *s = fl(v, 1); nostr_filter_free(d); int r; LIB(r = nostr_filter_clone(d, s)); o_ret(r); if (!r) o_filter("f", d); else memset(d, 0, sizeof *d); /* a failed copy owns nothing */ }
OP("fl.free") { (void)n; LIB(nostr_filter_free(fl(v, 0))); o_ret(0); }
/* overwrite every value of a filter in place */
static void scr(char **s, size_t c) { for (size_t i = 0; i < c; i++) memset(s[i], 'Z', strlen(s[i])); }
OP("fl.scribble") { (void)n; nostr_filter_t *f = fl(v, 0); scr(f->ids, f->ids_count); scr(f->authors, f->authors_count); scr(f->e_tags, f->e_tags_count); scr(f->p_tags, f->p_tags_count);
  for (size_t i = 0; i < f->kinds_count; i++) f->kinds[i] = -9; for (size_t i = 0; i < f->generic_tags_count; i++) { scr(f->generic_tags[i].values, f->generic_tags[i].values_count); f->generic_tags[i].tag_name = '?'; }
  if (f->search) memset(f->search, 'Z', strlen(f->search)); f->since = f->until = 77; f->limit = 7; o_ret(0); }
static VFT struct { int calls, bad, mode; const nostr_event *e; char q[16][32]; } S;
static bool scb(const char *q, const nostr_event *e, void *u) { if (u != &S || e != S.e || !q || !*q) S.bad = 1; if (S.calls < 16) { strncpy(S.q[S.calls], q ? q : "", 31); } S.calls++;
  return S.mode == 1 || (S.mode == 3 && e->content && strstr(e->content, q)); }
/* fl.match ev mode slots... ; mode: 0 plain functions, 1 callback true, 2 callback false, 3 callback = substring, 4 NULL callback */
OP("fl.match") { nostr_event *e = ev(v, 0); int m = a_int(v, 1), c = n - 2; memset(&S, 0, sizeof S); S.mode = m; S.e = e; nostr_filter_t *a = d_alloc((c ? c : 1) * sizeof *a); for (int i = 0; i < c; i++) a[i] = *fl(v, 2 + i);
  int all, one[NF]; nostr_search_callback_t cb = m == 4 ? NULL : scb;
  if (!m) { LIB({ all = nostr_filters_match(a, c, e); for (int i = 0; i < c; i++) one[i] = nostr_filter_matches(&a[i], e); }); }
  else { LIB({ all = nostr_filters_match_with_search(a, c, e, cb, &S); }); int k = S.calls; LIB({ for (int i = 0; i < c; i++) one[i] = nostr_filter_matches_with_search(&a[i], e, cb, &S); }); o_int("listcalls", k); o_int("calls", S.calls - k); o_int("bad", S.bad);
    o_arr("q"); for (int i = 0; i < S.calls && i < 16; i++) o_str(NULL, S.q[i]); o_aend(); }
  o_ret(all); o_arr("one"); for (int i = 0; i < c; i++) o_int(NULL, one[i]); o_aend(); }
OP("fl.null") { (void)n; (void)v; size_t c = 5; int bad = 0; nostr_validation_result_t x; nostr_event *e = EV[0]; nostr_filter_t f; memset(&f, 0, sizeof f); LIB({
  bad |= nostr_filter_parse(NULL, 3, &f) == 0; bad |= (nostr_filter_parse("{}", 2, NULL) == 0) << 1; bad |= (nostr_filter_matches(NULL, e)) << 2; bad |= nostr_filter_matches(&f, NULL) << 3; bad |= nostr_filters_match(NULL, 1, e) << 4; bad |= nostr_filters_match(&f, 0, e) << 5;
  bad |= (nostr_filter_validate(NULL, &x) == 0) << 6; bad |= (nostr_filter_validate(&f, NULL) == 0) << 7; bad |= (nostr_filter_clone(NULL, &f) == 0) << 8; bad |= (nostr_filter_clone(&f, NULL) == 0) << 9; nostr_filter_free(NULL);
  bad |= (nostr_filter_get_ids(NULL, &c) != NULL || c) << 10; c = 5; bad |= (nostr_filter_get_tag_values(NULL, 'x', &c) != NULL || c) << 11; bad |= nostr_filter_has_search(NULL) << 12; bad |= nostr_filter_has_tag_filters(NULL) << 13; bad |= (nostr_filter_get_search(NULL) != NULL) << 14; });
  o_ret(bad); }
static void fl_reset(void) { for (int i = 0; i < NF; i++) nostr_filter_free(&FL[i]); }
RESET_HOOK(fl_reset)

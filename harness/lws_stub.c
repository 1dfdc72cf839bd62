#include "lws_stub.h"
#include <libwebsockets.h>
#include <pthread.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <time.h>
#include <errno.h>

typedef struct act { int type; void *data; size_t len; struct act *next; int *done; } act;
struct lws { struct lws_context *ctx; void *opaque; int established, final, first; size_t remaining; };
struct lws_context {
  pthread_mutex_t m; pthread_cond_t c, dc; act *head, *tail; struct lws *wsi; const struct lws_protocols *pr;
  struct lws_context *next; int id;
};
static pthread_mutex_t gm = PTHREAD_MUTEX_INITIALIZER;
static struct lws_context *all;
int stub_fail_context, stub_fail_connect, stub_fail_write, stub_connect_cce, stub_autoconnect;
static int ids; static __thread struct lws_context *mine;
static struct { char t; char *p; size_t n; int id; } *lg; static size_t lgn, lgc;
static void rec(struct lws_context *c, char t, const void *p, size_t n) {
  pthread_mutex_lock(&gm);
  if (lgn == lgc) { lgc = lgc ? 2 * lgc : 64; lg = realloc(lg, lgc * sizeof *lg); }
  lg[lgn].t = t; lg[lgn].p = malloc(n + 1); memcpy(lg[lgn].p, p, n); lg[lgn].n = n; lg[lgn].id = c->id; lgn++;
  pthread_mutex_unlock(&gm);
}
size_t stub_log_count(void) { return lgn; }
const char *stub_log_get(size_t i, size_t *len, char *type, int *id) { *id = lg[i].id; *len = lg[i].n; *type = lg[i].t; return lg[i].p; }
void stub_log_clear(void) { for (size_t i = 0; i < lgn; i++) free(lg[i].p); free(lg); lg = NULL; lgn = lgc = 0; }
static int countdown(int *k) { int r = 0; pthread_mutex_lock(&gm); if (*k > 0 && --*k == 0) r = 1; pthread_mutex_unlock(&gm); return r; }
int stub_live_contexts(void) { int n = 0; pthread_mutex_lock(&gm); for (struct lws_context *c = all; c; c = c->next) n++; pthread_mutex_unlock(&gm); return n; }
void *stub_last_context(void) { return mine; }
int stub_context_id(void *c) { return ((struct lws_context *)c)->id; }
void stub_forget_ids(void) { pthread_mutex_lock(&gm); ids = 0; pthread_mutex_unlock(&gm); }
void *stub_live_context(void) { pthread_mutex_lock(&gm); void *p = all; pthread_mutex_unlock(&gm); return p; }

struct lws_context *lws_create_context(const struct lws_context_creation_info *info) {
  if (countdown(&stub_fail_context)) return NULL;
  struct lws_context *c = calloc(1, sizeof *c);
  pthread_mutex_init(&c->m, NULL); pthread_cond_init(&c->c, NULL); pthread_cond_init(&c->dc, NULL); c->pr = info->protocols;
  pthread_mutex_lock(&gm); c->id = ++ids; c->next = all; all = c; mine = c; pthread_mutex_unlock(&gm);
  return c;
}
static void call(struct lws_context *c, struct lws *w, int reason, void *in, size_t len) { c->pr[0].callback(w, reason, NULL, in, len); }
/* the callback may open the next connection of the context */
static void gone(struct lws_context *c, struct lws *w, int reason, char *in) { c->wsi = NULL; call(c, w, reason, in, in ? strlen(in) : 0); memset(w, 0xdd, sizeof *w); free(w); }
static void run(struct lws_context *c, act *a) {
  struct lws *w = c->wsi;
  if (a->type == ACT_NOP || !w) return;
  switch (a->type) {
    case ACT_ESTABLISHED: if (!w->established) { w->established = 1; call(c, w, LWS_CALLBACK_CLIENT_ESTABLISHED, NULL, 0); } break;
    case ACT_RECEIVE: case ACT_RECEIVE_PART: case ACT_RECEIVE_REST: if (w->established) { /* an exact buffer without terminator */
      w->final = a->type != ACT_RECEIVE_PART; w->remaining = a->type == ACT_RECEIVE_REST ? 7 : 0;
      char *b = malloc(a->len ? a->len : 1); memcpy(b, a->data, a->len); call(c, w, LWS_CALLBACK_CLIENT_RECEIVE, b, a->len); free(b); } break;
    case ACT_CLOSED: if (w->established) gone(c, w, LWS_CALLBACK_CLIENT_CLOSED, NULL); break;
    case ACT_CONNERR: if (!w->established) gone(c, w, LWS_CALLBACK_CLIENT_CONNECTION_ERROR, "refused"); break;
  }
}
int lws_service(struct lws_context *c, int timeout_ms) {
  (void)timeout_ms;
  pthread_mutex_lock(&c->m);
  if (!c->head) {
    struct timespec t; clock_gettime(CLOCK_REALTIME, &t); t.tv_nsec += 2000000; if (t.tv_nsec >= 1000000000) { t.tv_sec++; t.tv_nsec -= 1000000000; }
    pthread_cond_timedwait(&c->c, &c->m, &t);
  }
  act *a = c->head; if (a) { c->head = a->next; if (!c->head) c->tail = NULL; }
  pthread_mutex_unlock(&c->m);
  if (a) {
    run(c, a);
    pthread_mutex_lock(&c->m); if (a->done) *a->done = 1; pthread_cond_broadcast(&c->dc); pthread_mutex_unlock(&c->m);
    free(a->data); free(a);
  }
  return 0;
}
static int live(struct lws_context *c) { int r = 0; pthread_mutex_lock(&gm); for (struct lws_context *x = all; x; x = x->next) if (x == c) r = 1; pthread_mutex_unlock(&gm); return r; }
static int enqueue(struct lws_context *c, int type, const void *data, size_t len, int *done) {
  act *a = calloc(1, sizeof *a); a->type = type; a->data = malloc(len ? len : 1); if (len) memcpy(a->data, data, len); a->len = len; a->done = done;
  pthread_mutex_lock(&c->m); if (c->tail) c->tail->next = a; else c->head = a; c->tail = a; pthread_cond_signal(&c->c); pthread_mutex_unlock(&c->m);
  return 0;
}
int stub_post(void *cv, int type, const void *data, size_t len) { if (!live(cv)) return -1; return enqueue(cv, type, data, len, NULL); }
int stub_inject(void *cv, int type, const void *data, size_t len, int timeout_ms) {
  struct lws_context *c = cv; if (!live(c)) return -1;
  static int dummy; int done = 0; (void)dummy; int *d = &done; enqueue(c, type, data, len, d);
  struct timespec t; clock_gettime(CLOCK_REALTIME, &t); t.tv_sec += timeout_ms / 1000; t.tv_nsec += (timeout_ms % 1000) * 1000000L; if (t.tv_nsec >= 1000000000) { t.tv_sec++; t.tv_nsec -= 1000000000; }
  int r = 0; pthread_mutex_lock(&c->m);
  while (!done && r != ETIMEDOUT) r = pthread_cond_timedwait(&c->dc, &c->m, &t);
  r = done;
  if (!r) for (act *a = c->head; a; a = a->next) if (a->done == d) a->done = NULL;
  pthread_mutex_unlock(&c->m);
  return r ? 0 : -2;
}
void lws_context_destroy(struct lws_context *c) {
  if (!c) return;
  rec(c, 'D', "", 0);
  for (int i = 0; c->wsi && i < 8; i++) gone(c, c->wsi, c->wsi->established ? LWS_CALLBACK_CLIENT_CLOSED : LWS_CALLBACK_CLIENT_CONNECTION_ERROR, NULL);
  free(c->wsi);
  pthread_mutex_lock(&gm); for (struct lws_context **p = &all; *p; p = &(*p)->next) if (*p == c) { *p = c->next; break; } pthread_mutex_unlock(&gm);
  while (c->head) { act *a = c->head; c->head = a->next; free(a->data); free(a); }
  pthread_mutex_destroy(&c->m); pthread_cond_destroy(&c->c); pthread_cond_destroy(&c->dc);
  memset(c, 0xdd, sizeof *c); free(c);
}
struct lws *lws_client_connect_via_info(const struct lws_client_connect_info *i) {
  if (!i->address) { fprintf(stderr, "lws_client_connect_via_info: no address\n"); abort(); }
  char b[2048]; int n = snprintf(b, sizeof b, "%s\n%d\n%d\n%s%s\n%s\n%s", i->address ? i->address : "", i->port, i->ssl_connection ? 1 : 0, i->path && i->path[0] == '/' ? "" : "/", i->path ? i->path : "", i->host ? i->host : "", i->origin ? i->origin : "");
  rec(i->context, 'C', b, n < (int)sizeof b ? n : sizeof b - 1);
  struct lws *w = calloc(1, sizeof *w); w->ctx = i->context; w->opaque = i->opaque_user_data;
  if (countdown(&stub_fail_connect)) {
    if (stub_connect_cce) call(i->context, w, LWS_CALLBACK_CLIENT_CONNECTION_ERROR, (void *)"refused", 7);
    free(w); return NULL;
  }
  i->context->wsi = w;
  if (stub_autoconnect) enqueue(i->context, ACT_ESTABLISHED, NULL, 0, NULL);
  return w;
}
int lws_write(struct lws *w, unsigned char *buf, size_t len, enum lws_write_protocol p) {
  /* real lws writes its framing into the LWS_PRE bytes in front of the payload */
  memset(buf - LWS_PRE, 0x81, LWS_PRE);
  if (!w->established) return -1;
  char *b = malloc(len + 1); b[0] = (char)('0' + (p & 7)); memcpy(b + 1, buf, len);
  if (countdown(&stub_fail_write)) { rec(w->ctx, 'F', b, len + 1); free(b); return -1; }
  rec(w->ctx, 'W', b, len + 1); free(b);
  return (int)len;
}
void lws_close_reason(struct lws *w, enum lws_close_status s, unsigned char *buf, size_t len) { (void)s; (void)buf; (void)len; volatile int e = w->established; (void)e; rec(w->ctx, 'X', "", 0); }
void *lws_get_opaque_user_data(const struct lws *w) { return w->opaque; }
void lws_set_opaque_user_data(struct lws *w, void *d) { w->opaque = d; }
/* used by implementations that wake the service thread */
void lws_cancel_service(struct lws_context *c) { pthread_mutex_lock(&c->m); pthread_cond_signal(&c->c); pthread_mutex_unlock(&c->m); }
void lws_cancel_service_pt(struct lws *w) { lws_cancel_service(w->ctx); }
int lws_is_final_fragment(struct lws *w) { return w->final; }
int lws_is_first_fragment(struct lws *w) { (void)w; return 0; }
int lws_frame_is_binary(struct lws *w) { (void)w; return 0; }
size_t lws_remaining_packet_payload(struct lws *w) { return w->remaining; }
struct lws_context *lws_get_context(const struct lws *w) { return w->ctx; }
int lws_rx_flow_control(struct lws *w, int on) { (void)w; (void)on; return 0; }
void lws_set_timeout(struct lws *w, enum pending_timeout r, int s) { (void)w; (void)r; (void)s; }
int lws_callback_on_writable(struct lws *w) { (void)w; return 0; }
void lws_set_log_level(int level, void (*f)(int, const char *)) { (void)level; (void)f; }

/* A stand-in for libwebsockets: the relay client runs for real, the network is scripted. */
#ifndef LWS_STUB_H
#define LWS_STUB_H
#include <stddef.h>
/* RECEIVE ends a message, PART is a fragment of one, REST is the start of a fragment that ends one */
enum { ACT_ESTABLISHED, ACT_RECEIVE, ACT_CLOSED, ACT_CONNERR, ACT_NOP, ACT_RECEIVE_PART, ACT_RECEIVE_REST };
int stub_live_contexts(void);
void *stub_last_context(void);     /* made last by the calling thread */
void *stub_live_context(void);
int stub_context_id(void *c);
void stub_forget_ids(void);
/* queue an action for the connection of context c and wait until the service thread has run it; 0 = done */
int stub_inject(void *c, int act, const void *data, size_t len, int timeout_ms);
int stub_post(void *c, int act, const void *data, size_t len);
extern int stub_fail_context, stub_fail_connect, stub_fail_write;   /* countdowns: 1 = next call fails */
extern int stub_connect_cce;     /* on failing connect, also deliver CLIENT_CONNECTION_ERROR first */
extern int stub_autoconnect;     /* establish as soon as the service thread runs */
size_t stub_log_count(void);
const char *stub_log_get(size_t i, size_t *len, char *type, int *id);
void stub_log_clear(void);
#endif

#ifndef DRIVER_H
#define DRIVER_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include "nostr.h"
#include "nostr_relay_protocol.h"
#include "vf.h"
/* state of a script: its own in every thread of a parallel build */

typedef void (*op_fn)(int n, char **v);
void op_register(const char *name, op_fn f);
#define OP_(id, name) static void op_fn_##id(int n, char **v); \
  __attribute__((constructor)) static void op_reg_##id(void) { op_register(name, op_fn_##id); } \
  static void op_fn_##id(int n, char **v)
#define OP__(c, name) OP_(c, name)
#define OP(name) OP__(__COUNTER__, name)
#define UNUSED (void)n; (void)v

/* arguments: "-" = NULL, hex for byte strings, decimal integers */
int a_null(char **v, int i);
long long a_int(char **v, int i);
unsigned long long a_u64(char **v, int i);
double a_dbl(char **v, int i);
char *a_str(char **v, int i);                    /* exact-size NUL-terminated heap copy (NULL for "-") */
uint8_t *a_buf(char **v, int i, size_t *len);    /* exact-size heap copy, no terminator */
void a_fix(char **v, int i, uint8_t *out, size_t n); /* exactly n bytes, else protocol error */
int a_list(char **v, int i, char ***out);        /* comma separated hex strings -> exact arrays; "-" = NULL,0 ; "." element = NULL; "" element = empty */
void *b_out(size_t n);                           /* output buffer of exactly n bytes, poisoned with 0xA5 */
void *d_alloc(size_t n);                         /* driver memory released at the end of the op */

/* results: one JSON object per operation */
void o_int(const char *k, long long x);
void o_u64(const char *k, unsigned long long x);
void o_hex(const char *k, const void *p, size_t n);
void o_str(const char *k, const char *s);        /* hex of the C string, or null */
void o_obj(const char *k); void o_end(void);     /* nested object */
void o_arr(const char *k); void o_aend(void);
void o_ret(long long x);                         /* "r" */
/* list of C strings */
void o_strs(const char *k, char *const *s, size_t n);

/* run a library call as the monitored region */
extern VFT long g_fault, g_rngfault;
#ifdef VF_SEC      /* the stack below the caller is cleared before the call and copied away right after it */
#define LIB(stmt) do { vf_begin(g_fault, g_rngfault); VF_PAINT(); stmt; VF_SNAP(); vf_end(); vf_scan_residue(); } while (0)
#else
#define LIB(stmt) do { vf_begin(g_fault, g_rngfault); stmt; vf_end(); } while (0)
#endif

#define NSLOT 64
extern VFT nostr_event *EV[NSLOT];
nostr_event *ev(char **v, int i);
void o_event(const char *k, const nostr_event *e);
void die(const char *fmt, ...);
extern void (*reset_hooks[32])(void); extern int n_reset_hooks;
#define RESET_HOOK(fn) __attribute__((constructor)) static void rh_##fn(void) { reset_hooks[n_reset_hooks++] = fn; }
#endif

/* Control interface of the monitored runtime (vf.c), used by the driver. */
#ifndef VF_H
#define VF_H
#include <stddef.h>
#include <stdint.h>
#include <time.h>
#ifdef VF_PAR
#define VFT __thread
#else
#define VFT
#endif
void vf_begin(long fail_alloc, long fail_rng);   /* start of a monitored operation */
void vf_op(void);                                 /* start of a driver operation: counters to zero */
void vf_end(void);
extern int vf_det;
extern VFT long vf_allocs, vf_alloc_hit;              /* allocations seen / injected failure hit */
extern VFT long vf_draws, vf_draw_hit;
extern VFT int vf_rng_mode;                           /* 0 = system, 1 = deterministic stream */
/* 2 = mbedTLS: generator without internal locking; 3 = tiling monitor */
extern VFT const unsigned char *vf_tile_next; extern VFT unsigned long long vf_tile_total; extern VFT int vf_tile_bad;
extern VFT int vf_rng_fail_all;
extern VFT int vf_rng_special;                        /* 1: first draw returns 0xff.. (invalid key) */
extern VFT uint64_t vf_rng_ctr;
extern VFT int vf_rng_log;
extern VFT unsigned char *vf_rnglog; extern VFT size_t vf_rnglog_len;
extern VFT long long vf_fake_time;                    /* 0 = real */
extern VFT long long vf_time_step;                    /* added per call in fake mode */
extern VFT long vf_fail_thread;                       /* k-th pthread_create fails (1-based), 0 = never */
void vf_secret_clear(void);
void vf_secret_add(const void *p, size_t n);
extern VFT long vf_secret_hits; extern VFT char vf_secret_where[256];
extern VFT long vf_frees_scanned;
int vf_scan(const void *p, size_t n);             /* index of a secret found, or -1 */
#ifdef VF_SEC
#define VF_STACK 262144
extern unsigned char *vf_stack_copy;
#define VF_PAINT() __asm__ volatile("lea -262144(%%rsp),%%rdi\n\tmov $262144,%%ecx\n\txor %%eax,%%eax\n\trep stosb" ::: "rdi", "rcx", "rax", "memory", "cc")
#define VF_SNAP() __asm__ volatile("mov %0,%%rdi\n\tlea -262144(%%rsp),%%rsi\n\tmov $262144,%%ecx\n\trep movsb" :: "m"(vf_stack_copy) : "rdi", "rsi", "rcx", "memory", "cc")
void vf_scan_residue(void);
extern long vf_stack_scans, vf_stack_deep, vf_oallocs, vf_oalloc_hit, vf_ofail;
#endif
extern int vf_jitter;   /* >0: random delays around the library's mutex operations (microseconds bound) */
#endif

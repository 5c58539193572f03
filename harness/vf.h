/* Interface between a harness and either zsym (symbolic) or vf_native.c (replay on the real machine). */
#ifndef VF_H
#define VF_H
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <float.h>
#include <math.h>
#ifdef __cplusplus
#include <new>
extern "C" {
#endif
void vf_sym(void *p, unsigned long n, const char *name);          /* n arbitrary bytes */
int vf_choose(int lo, int hi, const char *name);                  /* arbitrary value in lo..hi, one path each */
int vf_upto(int lo, int hi, const char *name);                    /* arbitrary value in lo..hi, kept symbolic */
void vf_assume(int c);
void vf_assert(int c, const char *msg);
void vf_fail(const char *msg);
void vf_reach(const char *label);                                 /* vacuity witness */
void vf_note(unsigned long v);                                     /* value recorded in the path's trace (compared in witness replays) */
double vf_uf_double(const char *text, unsigned long n);           /* the double a numeric text denotes */
void vf_decimal_is(long n, const char *text, int len);               /* by construction, text is n in decimal: what printing n yields */
int vf_live(void);                                                /* live heap blocks */
unsigned long vf_stack_peak(void);                                /* stack used above the caller at most since the last call */
void vf_tag(int t);                                               /* heap blocks made from now on belong to t; touching another tag's block is a violation */
void vf_guard_statics(int on);                                    /* writes to static storage are violations */
void vf_freeze(int on);                                           /* heap blocks live now must not be written until vf_freeze(0) */
unsigned long vf_block_size(const void *p);                       /* bytes from p to the end of its heap block */
unsigned long vf_cost(void);                                       /* work done so far: instructions and bytes moved in bulk (native: basic blocks) */
unsigned long vf_mem(void);                                        /* bytes asked of malloc so far */
void vf_gap(void);                                                 /* the next heap block lies 16 GiB further on */
void vf_trace(const char *s, ...);
void *vf_malloc(unsigned long n);
void vf_free(void *p);
const char *vf_numscan(const char *s);                            /* native: reads what a C number conversion reads, so that ASan sees it */
#ifdef __cplusplus
}
#endif
#ifdef VF_NATIVE
#include <malloc.h>
#define malloc(n) vf_malloc(n)
#ifdef VF_COST
#ifdef __cplusplus
extern "C" {
#endif
void vf_bulk(unsigned long n);
#ifdef __cplusplus
}
#endif
static inline void *vf_cpy(void *d, const void *s, unsigned long n) { vf_bulk(n); return memmove(d, s, n); }
static inline void *vf_set(void *d, int c, unsigned long n) { vf_bulk(n); return memset(d, c, n); }
static inline int vf_cmp(const void *d, const void *s, unsigned long n) { vf_bulk(n); return memcmp(d, s, n); }
static inline unsigned long vf_slen(const char *s) { unsigned long n = strlen(s); vf_bulk(n); return n; }
#define memcpy(d, s, n) vf_cpy(d, s, n)
#define memmove(d, s, n) vf_cpy(d, s, n)
#define memset(d, c, n) vf_set(d, c, n)
#define memcmp(d, s, n) vf_cmp(d, s, n)
#define strlen(s) vf_slen(s)
#endif
#define free(p) vf_free(p)
#define atof(s) atof(vf_numscan(s))
#define atoi(s) atoi(vf_numscan(s))
#define atol(s) atol(vf_numscan(s))
#define atoll(s) atoll(vf_numscan(s))
#define strtod(s, e) strtod(vf_numscan(s), e)
#define strtol(s, e, b) strtol(vf_numscan(s), e, b)
#define strtoll(s, e, b) strtoll(vf_numscan(s), e, b)
#endif
/* one isolated heap block per allocator block (mode ISO): exact bounds for every block */
#ifdef __cplusplus
extern "C"
#endif
char *vf_iso_alloc(void *alloc, uint32_t size);
#define VF_MAXISO 256
struct vf_isoblk { void *owner; void *p; };
extern struct vf_isoblk vf_isotab[VF_MAXISO]; extern int vf_ison;
#ifdef __cplusplus
extern "C"
#endif
void vf_iso_release(void *alloc);
#endif

/* Replays one counterexample of zsym on the real code: inputs come from the file named by VF_REPLAY. */
#ifndef VF_NATIVE
#define VF_NATIVE
#endif
#define _GNU_SOURCE
#include "vf.h"
#undef malloc
#undef free
#undef strtod
#undef atoi
#include <stdarg.h>
#include <unistd.h>
static FILE *rf(void) { static FILE *f; if (!f) { const char *n = getenv("VF_REPLAY"); f = fopen(n ? n : "/dev/null", "r"); if (!f) { fprintf(stderr, "no replay file\n"); _exit(65); } } return f; }
static char line[1 << 16];
static unsigned long long vals[8192];
static int nextline(char kind) {
  while (fgets(line, sizeof line, rf())) {
    if (line[0] == 'H' || line[0] == '>' || line[0] == '#' || line[0] == '\n') continue;
    if (line[0] != kind) { fprintf(stderr, "VF-DIVERGED\n"); _exit(66); }
    int n = 0; char *p = strchr(line + 2, ' ');
    while (p && *p) { char *e; unsigned long long v = strtoull(p, &e, 16); if (e == p) break; vals[n++] = v; p = e; }
    return n;
  }
  fprintf(stderr, "VF-DIVERGED (inputs exhausted)\n"); _exit(66);
}
void vf_sym(void *p, unsigned long n, const char *name) { int k = nextline('S'); (void)name; for (unsigned long i = 0; i < n; i++) ((unsigned char *)p)[i] = (unsigned char)((int)i < k ? vals[i] : 0); }
int vf_choose(int lo, int hi, const char *name) { (void)lo; (void)hi; (void)name; if (nextline('C') < 1) _exit(66); return (int)vals[0]; }
int vf_upto(int lo, int hi, const char *name) { return vf_choose(lo, hi, name); }
void vf_assume(int c) { if (!c) { fprintf(stderr, "VF-DIVERGED (assume)\n"); _exit(66); } }
void vf_fail(const char *msg) { fprintf(stderr, "VF-ASSERT %s\n", msg); _exit(77); }
void vf_assert(int c, const char *msg) { if (!c) vf_fail(msg); }
static int tr(void) { static int t = -1; if (t < 0) t = getenv("VF_TRACE") != 0; return t; }
void vf_reach(const char *l) { if (tr()) { printf("> %s\n", l); fflush(stdout); } }
void vf_note(unsigned long v) { if (tr()) { printf("> = %lx\n", v); fflush(stdout); } }
double vf_uf_double(const char *t, unsigned long n) { char *b = (char *)malloc(n + 1); memcpy(b, t, n); b[n] = 0; double d = strtod(b, 0); free(b); return d; }
struct blk { void *p; unsigned long n; unsigned char *snap; }; static struct blk blks[65536]; static int nb, live; static unsigned seq;
static int mute(void) { static int m = -1; if (m < 0) m = getenv("VF_THREADS") != 0; return m; }
static unsigned long cost, mem;
void *vf_malloc(unsigned long n) {
  mem += n;
  unsigned char *p = (unsigned char *)malloc(n); if (mute()) return p; memset(p, 0xA5, n);
  const char *rn = getenv("VF_REPLAY"); static int heapLines = -1; static struct { unsigned s, o, v; } *hl;
  if (heapLines < 0) { heapLines = 0; hl = calloc(4096, sizeof *hl); FILE *f = fopen(rn ? rn : "/dev/null", "r"); char *l = (char *)malloc(1 << 16); if (f) { while (fgets(l, 1 << 16, f)) if (l[0] == 'H' && heapLines < 4096 && sscanf(l, "H %u %u %x", &hl[heapLines].s, &hl[heapLines].o, &hl[heapLines].v) == 3) heapLines++; fclose(f); } free(l); }
  for (int i = 0; i < heapLines; i++) if (hl[i].s == seq && hl[i].o < n) p[hl[i].o] = (unsigned char)hl[i].v;
  seq++; live++; if (nb < 65536) { blks[nb].p = p; blks[nb].n = n; blks[nb].snap = 0; nb++; }
  return p;
}
void vf_free(void *p) { if (!mute()) { if (p) live--; for (int i = 0; i < nb; i++) if (blks[i].p == p) { if (blks[i].snap) vf_fail("write to memory that must stay unmodified"); blks[i].p = 0; break; } } free(p); }
void vf_decimal_is(long n, const char *t, int l) { (void)n; (void)t; (void)l; }
int vf_live(void) { return live; }
unsigned long vf_stack_peak(void) { return 0; }
void vf_tag(int t) { (void)t; }
void vf_guard_statics(int on) { (void)on; }
void vf_freeze(int on) {
  for (int i = 0; i < nb; i++) if (blks[i].p) {
    if (on) { blks[i].snap = (unsigned char *)malloc(blks[i].n); memcpy(blks[i].snap, blks[i].p, blks[i].n); }
    else if (blks[i].snap) { if (memcmp(blks[i].snap, blks[i].p, blks[i].n)) vf_fail("write to memory that must stay unmodified"); free(blks[i].snap); blks[i].snap = 0; }
  }
}
unsigned long vf_block_size(const void *q) { for (int i = 0; i < nb; i++) if (blks[i].p && (char *)q >= (char *)blks[i].p && (char *)q <= (char *)blks[i].p + blks[i].n) return (unsigned long)((char *)blks[i].p + blks[i].n - (char *)q); return 0; }
const char *vf_numscan(const char *s) { const char *p = s; while (*p == 32 || (*p >= 9 && *p <= 13)) p++; if (*p == 43 || *p == 45) p++; while ((*p >= 48 && *p <= 57) || *p == 46 || *p == 43 || *p == 45 || *p == 101 || *p == 69) p++; return s; }
void vf_trace(const char *s, ...) { fprintf(stderr, "TRACE %s\n", s); }
void vf_gap(void) {}
void __sanitizer_cov_trace_pc(void) { cost += 4; }
void vf_bulk(unsigned long n) { cost += n; }
unsigned long vf_cost(void) { return cost; }
unsigned long vf_mem(void) { return mem; }

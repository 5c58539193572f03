/* C15: the allocator itself: blocks it hands out are inside what it took from the system, disjoint, and given back exactly once. */
#include "vf.h"
#ifdef SYMBOLIC
#if defined(BIND) && BIND == 5
#define z_MEMORY_MODE 3
#define zj_new z_New
#define zj_free z_Free
#define zj_Allocator struct z_Allocator
#define zj_NewAllocator z_AllocatorNew
#define zj_ReleaseAllocator z_AllocatorRelease
#define zj_allocatorAlloc z_AllocatorAlloc
#define HEADER "beta/zzzjson_beta.h"
#else
#define HEADER "zzzjson.h"
#endif
/* zj_new/zj_free are the harness's: sizes stay symbolic, addresses are compared, never touched beyond the library's own headers */
#define zj_MEMORY_MODE 3
static struct { char *p; unsigned long n; int freed; } blk[24]; static int nblk;
#ifdef ALLSIZES   /* every size a zj_Size can hold: only the first bytes of a system block (the library's headers) are ever touched */
#ifdef VF_NATIVE
#include <sys/mman.h>
static void *zj_new(size_t size) { char *p = (char *)mmap(0, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == (char *)MAP_FAILED) exit(0); blk[nblk].p = p; blk[nblk].n = size; nblk++; return p; }
#else
static void *zj_new(size_t size) { char *p = (char *)malloc(512); vf_gap(); vf_assert(nblk < 20, "few system blocks for few requests"); blk[nblk].p = p; blk[nblk].n = size; nblk++; return p; }
#endif
#define MAXS 0xffffffffu
#else
static void *zj_new(uint32_t size) { char *p = (char *)malloc(MAXB); vf_assume(size <= MAXB); blk[nblk].p = p; blk[nblk].n = size; nblk++; return p; }
#endif
static void zj_free(void *p) { int i, hit = 0; for (i = 0; i < nblk; i++) if (blk[i].p == p) { hit = 1; vf_assert(!blk[i].freed, "a block is given back once"); blk[i].freed = 1; } vf_assert(hit, "only blocks that were taken are given back"); }
#include HEADER
int main(void) {
  char *p[NALLOC]; uint32_t s[NALLOC]; int i, j; zj_Allocator *a = zj_NewAllocator();
  for (i = 0; i < NALLOC; i++) {
    vf_sym(&s[i], 4, "size"); vf_assume(s[i] <= MAXS); p[i] = zj_allocatorAlloc(a, s[i]);
    { int in = 0; for (j = 0; j < nblk; j++) if ((unsigned long)p[i] >= (unsigned long)blk[j].p && (unsigned long)p[i] + s[i] <= (unsigned long)blk[j].p + blk[j].n) in = 1; vf_assert(in, "a block lies inside memory taken from the system"); }
    for (j = 0; j < i; j++) vf_assert(s[i] == 0 || s[j] == 0 || (unsigned long)p[i] + s[i] <= (unsigned long)p[j] || (unsigned long)p[j] + s[j] <= (unsigned long)p[i], "blocks do not overlap");
    vf_assert(s[i] == 0 || (unsigned long)p[i] + s[i] <= (unsigned long)a || (unsigned long)p[i] >= (unsigned long)a + sizeof(zj_Allocator), "a block does not overlap the allocator");
  }
  zj_ReleaseAllocator(a); for (j = 0; j < nblk; j++) vf_assert(blk[j].freed, "everything taken is given back");
  vf_reach("done"); return 0;
}
#else
/* blocks of chosen sizes are filled to the last byte; nobody's bytes change; all is released */
#include "api.h"
static const int sizes[] = { SIZES };
int main(void) {
  char *p[NALLOC]; int s[NALLOC], i, j, k; JA *a = J_NewAllocator();
  for (i = 0; i < NALLOC; i++) {
    s[i] = sizes[vf_choose(0, (int)(sizeof sizes / sizeof *sizes) - 1, "size")];
#if BIND == 3
    p[i] = zj::zj_allocatorAlloc(a->getAllocator(), (JSize)s[i]);
#elif BIND == 2 || BIND == 4
    p[i] = zj::zj_allocatorAlloc(a, (JSize)s[i]);
#elif BIND == 5
    p[i] = z_AllocatorAlloc(a, (JSize)s[i]);
#else
    p[i] = zj_allocatorAlloc(a, (JSize)s[i]);
#endif
    for (k = 0; k < s[i]; k++) p[i][k] = (char)(i + 1);
  }
  for (i = 0; i < NALLOC; i++) for (k = 0; k < s[i]; k++) vf_assert(p[i][k] == (char)(i + 1), "the bytes of a block stay its own");
  J_ReleaseAllocator(a); vf_assert(vf_live() == 0, "releasing the allocator frees everything");
  vf_reach("done"); return 0;
}
#endif

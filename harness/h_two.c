/* C16: string operations under two allocators: a result under one is untouched by later work under, and release of, the other */
#include "model.h"
static const int sizes[] = { SIZES };
static char *runof(char c, int n, int hole) { int i; char *p = (char *)malloc((unsigned long)n + 1); for (i = 0; i < n; i++) p[i] = c; p[n] = 0; if (hole) { vf_sym(p + n - 1, 1, "last"); vf_assume(p[n - 1] >= '1' && p[n - 1] <= '9'); } return p; }
static bool put(JV *v, int fn, const char *s, int n) {
  switch (fn) { case 0: return J_SetStr(v, s); case 1: return J_SetStrLen(v, s, (JSize)n); case 2: return J_SetStrLenFast(v, s, (JSize)n); case 3: return J_SetKeyLen(v, s, (JSize)n); case 4: return J_SetNumStrLen(v, s, (JSize)n); case 5: return J_SetNumStrLenFast(v, s, (JSize)n);
#ifndef NO_ESCAPE_SETTERS
  case 6: return J_SetStrLenEscape(v, s, (JSize)n); case 7: return J_SetKeyEscape(v, s);
#endif
  default: return J_SetKey(v, s); }
}
static void chk(JV *v, int fn, const char *s, int n) {
  JSize L = 0; const char *g = fn == 3 || fn >= 7 ? J_GetKeyFast(v, &L) : fn == 4 || fn == 5 ? J_GetNumFast(v, &L) : J_GetStrFast(v, &L);
  vf_assert(g != 0 && L == (JSize)n && !mdiff(g, s, n), "a value keeps its text whatever happens under another allocator");
}
int main(void) {
  JA *A = J_NewAllocator(), *B = J_NewAllocator(); JV *v = J_NewValue(A), *w = J_NewValue(B), *u; int f = vf_choose(0, 8, "first"), g = vf_choose(0, 8, "second"), n = sizes[vf_choose(0, (int)(sizeof sizes / sizeof *sizes) - 1, "size")], k = sizes[vf_choose(0, (int)(sizeof sizes / sizeof *sizes) - 1, "size")]; char *s = runof('7', n, 1), *t = runof('3', k, 1);
  vf_assert(put(v, f, s, n), "the setter accepts a valid text"); vf_assert(put(w, g, t, k), "the setter accepts a valid text");
  chk(v, f, s, n); chk(w, g, t, k);
  J_ReleaseAllocator(A); vf_iso_release(A);
  chk(w, g, t, k); u = J_NewValue(B); vf_assert(put(u, f, s, n), "the setter accepts a valid text"); chk(u, f, s, n); chk(w, g, t, k);
  J_ReleaseAllocator(B); vf_iso_release(B);
  vf_reach("done"); return 0;
}

/* C22: nesting is bounded by memory, not by the call stack: what an operation uses of the stack does not grow with the depth of the value. */
#include "model.h"
#ifdef VF_NATIVE
#include <sys/resource.h>
#include <unistd.h>
#define DEEP 200000
#else
#define DEEP DEPTH
#endif
static char kind[PERIOD];
static JA *a;
static char *doc(int depth, int leaf) {
  char *t = (char *)malloc((unsigned long)depth * 6 + 16); int n = 0, i;
  for (i = 0; i < depth; i++) { t[n++] = kind[i % PERIOD] ? '{' : '['; if (kind[i % PERIOD]) { t[n++] = '"'; t[n++] = 'k'; t[n++] = '"'; t[n++] = ':'; } }
  if (leaf == 1) t[n++] = '1'; if (leaf == 2) { t[n++] = '"'; t[n++] = '"'; }
  if (leaf == 0) { t[n++] = '['; t[n++] = ']'; }
  if (leaf == 3) { t[n++] = '!'; t[n] = 0; return t; }
  for (i = depth; i-- > 0;) t[n++] = kind[i % PERIOD] ? '}' : ']';
  t[n] = 0; return t;
}
static JV *inner(JV *v, int k) { while (k-- > 0) v = J_Begin(v); return v; }
static unsigned long use(int op, int depth, int leaf) {
  char *t = doc(depth, leaf); JV *v = J_NewValue(a), *w = J_NewValue(a), *c; const char *s; bool r = true; int i;
  if (op >= 3) { r = J_ParseFast(v, t); vf_assert(r, "the nested document parses"); if (!r) exit(0); }
  vf_stack_peak();
  switch (op) {
  case 0: r = J_Parse(v, t); break; case 1: r = J_ParseFast(v, t); break; case 2: r = J_ParseLen(v, t, (JSize)mlen(t)); break;
  case 3: s = J_Stringify(v); r = s != 0 && mlen(s) == mlen(t); break;
  case 4: c = J_Copy(v); r = c != 0; break; case 5: r = J_Set(w, v); break;
  case 6: J_SetArray(w); r = J_ArrayAdd(w, v); break;
  case 7: J_SetObj(w); J_SetKey(v, "k"); r = J_ObjAdd(w, v); break;
  case 8: c = J_Begin(v); r = J_Move(c); break; case 9: r = J_SetFast(w, v); break;
  case 10: for (c = v; c; c = J_Begin(c)) { J_Type(c); J_SizeOf(c); } r = J_Parse(v, t); break;
  case 11: for (c = v, i = 0; c && i < 3; i++) c = J_Begin(c); r = c && J_Move(c) ; s = J_Stringify(v); r = r && s; break;
  }
  vf_assert(r || leaf == 3, "the operation succeeds on a nested value");
  { unsigned long p = vf_stack_peak(); free(t); return p; }
}
int main(void) {
  int i, op = vf_choose(0, 11, "op"), leaf = vf_choose(0, 3, "leaf"); unsigned long base, deep; if (leaf == 3 && op > 2) leaf = 1;
#ifdef VF_NATIVE
  { struct rlimit r; if (!getenv("VF_LOWSTACK")) { r.rlim_cur = 2 << 20; r.rlim_max = RLIM_INFINITY; setrlimit(RLIMIT_STACK, &r); setenv("VF_LOWSTACK", "1", 1); execl("/proc/self/exe", "deep", (char *)0); } }
#endif
  for (i = 0; i < PERIOD; i++) kind[i] = (char)(i & 1);
  a = J_NewAllocator(); base = 0; for (i = 0; i < 3; i++) { unsigned long p = use(op, 4, i); if (p > base) base = p; }
  for (i = 0; i < PERIOD; i++) { char c; vf_sym(&c, 1, "kind"); kind[i] = (c & 1) != 0; }
  deep = use(op, DEEP, leaf);
  vf_assert(deep <= base + 512, "stack use does not grow with the depth of the value");
  J_ReleaseAllocator(a); vf_reach("done"); return 0;
}

/* C12: keyed access over members with arbitrary keys: first member with exactly that key */
#include "model.h"
#ifndef KLEN
#define KLEN 1
#endif
int main(void) {
  JA *a = J_NewAllocator(); JV *v = J_NewValue(a), *h; M *m = mnew(JObj), *c; int i, j, n, hit, how, kl[6]; char *b, k[8];
  J_SetObj(v); n = vf_choose(0, NM, "members");
  for (i = 0; i < n; i++) { JV *x = J_NewValue(a); kl[i] = vf_choose(0, KLEN, "keylen"); b = (char *)malloc((unsigned long)kl[i] + 1); for (j = 0; j < kl[i]; j++) { vf_sym(b + j, 1, "key"); vf_assume((unsigned char)b[j] >= 0x20 && b[j] != '"' && b[j] != '\\'); } b[kl[i]] = 0;
    vf_assert(J_SetNumStr(x, i == 0 ? "0" : i == 1 ? "1" : "2"), "SetNumStr accepts a number"); vf_assert(J_SetKey(x, b), "SetKey accepts a valid key"); vf_assert(J_ObjAddFast(v, x), "ObjAddFast accepts a keyed value");
    c = mnum(i == 0 ? "0" : i == 1 ? "1" : "2"); mkey(c, b, kl[i]); madd(m, c); free(b); }
  { int l = vf_choose(0, KLEN + 1, "len"); how = vf_choose(0, 2, "how"); b = (char *)malloc((unsigned long)(l + (how != 1))); for (j = 0; j < l; j++) { vf_sym(b + j, 1, "ask"); if (how != 1) vf_assume(b[j] != 0); } if (how != 1) b[l] = 0;
    hit = -1; for (i = n - 1; i >= 0; i--) if (m->c[i]->kn == l && !mdiff(m->c[i]->k, b, l)) hit = i;
    if (how < 2) { h = how == 0 ? J_ObjGet(v, b) : J_ObjGetLen(v, b, (JSize)l); vf_assert((h != 0) == (hit >= 0), "a key is found exactly when a member has it"); if (h) { vf_reach("found"); obs_one(h, m->c[hit]); J_SetNull(h); mtext(m->c[hit], JNull, "null", 4); } else vf_reach("missing"); }
    else { bool r = J_ObjDel(v, b); vf_assert(r == (hit >= 0), "ObjDel succeeds exactly when a member has the key"); if (r) mcut(m->c[hit]); }
    free(b); }
  obs_deep(v, m); (void)k; J_ReleaseAllocator(a); return 0;
}

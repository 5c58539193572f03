/* C04: parsing an arbitrary text into a value that already lives in a document: success replaces exactly that value's content, refusal changes nothing. */
#include "model.h"
#ifndef LEN
#define LEN 4
#endif
#ifdef TPL
static const char *const tpl[] = { TPL };
#endif
#ifndef DOCS
#define DOCS "{\"k\":\"old\",\"m\":[1,\"e\",[2]],\"o\":{\"p\":null}}", "[[3,[4]],{\"a\":5},6]"
#endif
static const char *const docs[] = { DOCS };
static M *nodes[32]; static int nn;
static void enumr(M *m) { int i; nodes[nn++] = m; for (i = 0; i < m->nc; i++) enumr(m->c[i]); }
static JV *nav(JV *root, M *rm, M *m) { JV *p; int i, k; if (m == rm) return root; p = nav(root, rm, m->up); i = mindex(m); p = J_Begin(p); for (k = 0; k < i && p; k++) p = J_Next(p); vf_assert(p != 0, "iteration reaches every child"); if (!p) exit(0); return p; }
int main(void) {
  JA *a = J_NewAllocator(); JV *v = J_NewValue(a), *e = J_NewValue(a), *t; M *m, *mt; int api, i, L, x, times; bool r; char *b, *text;
  i = vf_choose(0, (int)(sizeof docs / sizeof *docs) - 1, "doc"); m = mparse(docs[i]); vf_assert(J_Parse(v, docs[i]), "the document parses");
  enumr(m); x = vf_choose(0, nn, "target"); mt = x == nn ? 0 : nodes[x]; t = x == nn ? e : nav(v, m, mt);
#ifdef KEYROOT
  vf_assert(J_SetKey(v, "rk"), "SetKey accepts a valid key"); mkey(m, "rk", 2);
#endif
#ifdef API
  api = API;
#else
  api = vf_choose(0, 2, "api");
#endif
#ifdef TPL
  { const char *q = tpl[vf_choose(0, (int)(sizeof tpl / sizeof *tpl) - 1, "template")]; L = mlen(q); text = (char *)malloc((unsigned long)L + 1); for (i = 0; i <= L; i++) { if (q[i] == '~') vf_sym(text + i, 1, "hole"); else text[i] = q[i]; } }
#else
  L = LEN; text = (char *)malloc(LEN + 1); vf_sym(text, LEN, "text"); text[LEN] = 0;
#endif
  if (api == 1) { b = (char *)malloc((unsigned long)L); for (i = 0; i < L; i++) b[i] = text[i]; r = J_ParseLen(t, b, (JSize)L); free(b); }
  else { L = mlen(text); b = (char *)malloc((unsigned long)L + 1); for (i = 0; i <= L; i++) b[i] = text[i]; r = api == 0 ? J_Parse(t, b) : J_ParseFast(t, b); if (api == 0) free(b); }
  vf_assume(r == (ref_json(text) != 0));   /* acceptance itself is another property */
  if (r) { M *c = mparse(text); vf_reach("accepted"); if (!mt) { obs_deep(e, c); } else { mcontent(mt, c); obs(e, 0); } }
  else { vf_reach("rejected"); obs(e, 0); obs_str(e, 0); }
  obs_deep(v, m); if (mt) obs_deep(t, mt);
  /* the document is still fully usable */
  i = vf_choose(0, 2, "probe");
  if (i == 1) probe(a, v, m, 1);
  if (i == 2 && mt) { if (mt->up) { M *up = mt->up; JV *h; if (up->t == JArr) { x = mindex(mt); h = nav(v, m, up); vf_assert(J_ArrayDel(h, (JSize)x), "ArrayDel accepts a valid index"); mcut(mt); obs_deep(v, m); probe(a, h, up, 2); } else { vf_assert(J_Move(t), "Move accepts a member"); mcut(mt); obs_deep(v, m); obs_deep(t, mt); probe(a, t, mt, 2); } } else probe(a, v, m, 3); }
  J_ReleaseAllocator(a); return 0;
}

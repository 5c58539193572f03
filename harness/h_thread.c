/* C28: two threads with allocators of their own: whatever one does, it touches only its own blocks and writes no shared storage,
   so every interleaving behaves like one after the other. */
#include "model.h"
#ifdef VF_TSAN
#include <pthread.h>
#endif
typedef struct { int id, op, tgt; char *text; int n; char *buf; } W;
static const char *const doc = "{\"a\":[1,\"s\\n\",true,null],\"b\":{\"c\":-2.5}}";
static void readall(JV *v) {
  JSize n; JV *c;
  J_Type(v); J_SizeOf(v); J_GetStr(v); J_GetUnEscapeStr(v); J_GetStrFast(v, &n); J_GetNumStr(v); J_GetNumFast(v, &n); J_GetNum(v); J_GetBool(v); J_IsNull(v); J_GetKey(v); J_GetUnEscapeKey(v); J_GetKeyFast(v, &n);
#ifndef NO_INT_API
  J_GetInt(v); J_GetLong(v); J_GetLongLong(v); J_GetDouble(v);
#endif
  J_ObjGet(v, "a"); J_ObjGetLen(v, "a", 1); J_ArrayGet(v, 1); J_Stringify(v);
  for (c = J_Begin(v); c; c = J_Next(c)) readall(c);
}
static void work(W *w) {
  JA *a = J_NewAllocator(); JV *v = J_NewValue(a), *t, *x; int L = mlen(w->text);
  if (!J_Parse(v, doc)) return;
  t = w->tgt == 0 ? J_NewValue(a) : w->tgt == 1 ? v : w->tgt == 2 ? J_Begin(v) : J_Begin(J_Begin(v)); if (!t) return;
  switch (w->op) {
  case 0: J_Parse(t, w->text); break; case 1: J_ParseLen(t, w->text, (JSize)L); break; case 2: J_ParseFast(t, w->buf); break;
  case 3: J_SetStr(t, w->text); break; case 4: J_SetStrLen(t, w->text, (JSize)L); break; case 5: J_SetStrFast(t, w->buf); break; case 6: J_SetStrLenFast(t, w->buf, (JSize)L); break;
  case 7: J_SetKey(t, w->text); break; case 8: J_SetKeyLen(t, w->text, (JSize)L); break; case 9: J_SetKeyFast(t, w->buf); break; case 10: J_SetKeyLenFast(t, w->buf, (JSize)L); break;
  case 11: J_SetNumStr(t, w->text); break; case 12: J_SetNumStrLen(t, w->text, (JSize)L); break; case 13: J_SetNumStrFast(t, w->buf); break; case 14: J_SetNumStrLenFast(t, w->buf, (JSize)L); break;
#ifndef NO_ESCAPE_SETTERS
  case 15: J_SetStrEscape(t, w->text); break; case 16: J_SetStrLenEscape(t, w->text, (JSize)L); break; case 17: J_SetKeyEscape(t, w->text); break; case 18: J_SetKeyLenEscape(t, w->text, (JSize)L); break;
  case 19: J_SetInt(t, -12); J_SetLong(t, 345); J_SetLongLong(t, 67); J_SetDouble(t, 0.5); break;
#endif
  case 20: J_SetNum(t, -0.25); break; case 21: J_SetNull(t); J_SetBool(t, true); break; case 22: J_SetArray(t); x = J_NewValue(a); J_SetBool(x, false); J_ArrayAdd(t, x); J_ArrayAddFast(t, x); J_ArrayDel(t, 0); break;
  case 23: J_SetObj(t); x = J_NewValue(a); J_SetNull(x); J_SetKey(x, "q"); J_ObjAdd(t, x); J_ObjAddFast(t, x); J_ObjDel(t, "q"); break;
  case 24: x = J_Copy(t); if (x) { J_Set(t, x); J_SetFast(t, x); } J_Move(t); break;
  case 25: J_Set(t, v); break;
  case 26: J_ArrayGet(v, 0); J_ObjGet(v, w->text); J_ObjGetLen(v, w->text, (JSize)L); J_ObjDel(v, w->text); break;
  }
  readall(v); readall(t);
  J_ReleaseAllocator(a);
}
#ifdef PADS   /* long texts: a number, a string, an array or a string body, the last character arbitrary */
static const int pads[] = { PADS };
#endif
static void inputs(W *w, int id, int op, int tgt, int n) { int i; w->id = id; w->op = op; w->tgt = tgt; w->n = n; w->text = (char *)malloc((size_t)n + 1); w->buf = (char *)malloc((size_t)n + 1); for (i = 0; i < n; i++) w->text[i] = '1'; w->text[n] = 0; }
#ifdef PADS
static void chars(W *w) { int k = vf_choose(0, 3, "shape"); if (k == 1) w->text[0] = '"'; if (k == 2) w->text[0] = '['; if (k & 1) { w->text[w->n - 3] = '\\'; w->text[w->n - 2] = 'n'; } vf_sym(w->text + w->n - 1, 1, "ch"); }
#define TGTS 1
#else
static void chars(W *w) { int i; for (i = 0; i < w->n; i++) vf_sym(w->text + i, 1, "ch"); }
#define TGTS 3
#endif
#ifdef VF_TSAN
static void *run(void *p) { int i; for (i = 0; i < 20; i++) work((W *)p); return 0; }
#endif
int main(void) {
  W w[2]; int op = vf_choose(0, 26, "op"), tgt = vf_choose(0, TGTS, "target");
#ifdef PADS
  int n = pads[vf_choose(0, (int)(sizeof pads / sizeof *pads) - 1, "size")];
#else
  int n = TLEN;
#endif
  char *sh = (char *)malloc((size_t)n + 1);
  vf_tag(1); inputs(&w[0], 1, op, tgt, n); chars(&w[0]); memcpy(w[0].buf, w[0].text, (size_t)n + 1); memcpy(sh, w[0].text, (size_t)n + 1);
  vf_tag(2); inputs(&w[1], 2, op, tgt, n); memcpy(w[1].text, sh, (size_t)n + 1); memcpy(w[1].buf, sh, (size_t)n + 1);
#ifdef VF_TSAN
  { pthread_t t[2]; pthread_create(&t[0], 0, run, &w[0]); pthread_create(&t[1], 0, run, &w[1]); pthread_join(t[0], 0); pthread_join(t[1], 0); }
#else
  vf_tag(1); vf_guard_statics(1); work(&w[0]);
  vf_tag(2); work(&w[1]); vf_guard_statics(0);
#endif
  vf_reach("done"); return 0;
}

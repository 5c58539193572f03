/* C26: what an operation costs grows with what it has to look at, and no faster: the same operation is carried out on a document and on one
   eight times as large, and the work (instructions, bytes moved) and the memory asked for are compared.
   A linear operation may take eight times as much (ten with the slack), a quadratic one takes up to sixty-four times as much. */
#include "model.h"
#ifndef N1
#define N1 128
#endif
#define N2 (8 * N1)
static JA *a;
static unsigned long t0, m0;
struct cost { unsigned long t, m; };
static void vf_reset(void) { m0 = vf_mem(); }
static void on(void) { t0 = vf_cost(); }
static void off(struct cost *c) { c->t = vf_cost() - t0; c->m = vf_mem() - m0; }
static void linear(const struct cost *s, const struct cost *b) { vf_assert(b->t <= 11 * s->t + 6000, "the work grows linearly"); vf_assert(b->m <= 17 * s->m + 70000, "the memory taken grows linearly"); }
static void constant(const struct cost *s, const struct cost *b) { vf_assert(b->t <= 2 * s->t + 900, "the work does not depend on the number of siblings"); }
#if defined(M_TEXT)
/* a text is p, n times u, m, n times w, s; ~ in u, m and w is an arbitrary byte */
static const struct { const char *p, *u, *m, *w, *s; } tpl[] = { TPLS };
static char part[3][16]; static int pl[3];
static const char *pre, *suf;
static char *text(int n) {
  char *t = (char *)malloc((unsigned long)(pl[0] + pl[2]) * n + 64); int o = 0, i, j;
  for (i = 0; pre[i]; i++) t[o++] = pre[i];
  for (i = 0; i < n; i++) for (j = 0; j < pl[0]; j++) t[o++] = part[0][j];
  for (j = 0; j < pl[1]; j++) t[o++] = part[1][j];
  for (i = 0; i < n; i++) for (j = 0; j < pl[2]; j++) t[o++] = part[2][j];
  for (i = 0; suf[i]; i++) t[o++] = suf[i];
  t[o] = 0; return t;
}
static void fill(int k, const char *f) { int i; for (i = 0; f[i]; i++) { part[k][i] = f[i]; if (f[i] == '~') { vf_sym(&part[k][i], 1, "byte"); vf_assume(part[k][i] != 0); } } pl[k] = i; }
static int run(int op, int n, struct cost *r) {
  char *t = text(n); JV *v, *w, *c; bool ok = true; JSize k; int l = mlen(t);
  vf_reset(); a = J_NewAllocator(); v = J_NewValue(a); w = J_NewValue(a);
  if (op < 3) { on(); ok = op == 0 ? J_Parse(v, t) : op == 1 ? J_ParseFast(v, t) : J_ParseLen(v, t, (JSize)l); off(r); vf_reach(ok ? "accepted" : "rejected"); }
  else {
    if (op == 10) { on(); ok = J_SetStr(v, t); off(r); } else if (op == 11) { on(); ok = J_SetNumStrLen(v, t, (JSize)l); off(r); } else if (op == 12) { J_SetObj(w); on(); ok = J_SetKeyLen(v, t, (JSize)l); off(r); }
#if BIND != 5
    else if (op == 13) { on(); ok = J_SetStrEscape(v, t); off(r); }
#endif
    else if (J_ParseFast(v, t)) {
      if (op == 6) J_SetArray(w);
      on();
      switch (op) {
      case 3: J_Stringify(v); break; case 4: J_Copy(v); break; case 5: J_Set(w, v); break; case 6: J_ArrayAdd(w, v); break;
      case 7: for (c = J_Begin(v); c; c = J_Next(c)) { J_Type(c); J_SizeOf(c); J_GetStrFast(c, &k); J_GetKeyFast(c, &k); } break;
      case 8: J_GetStr(v); J_GetUnEscapeStr(v); J_GetNumStr(v); for (c = J_Begin(v); c; c = J_Next(c)) { J_GetStr(c); J_GetUnEscapeStr(c); J_GetKey(c); J_GetUnEscapeKey(c); J_GetNumStr(c); } break;
      case 9: for (c = v; c; c = J_Begin(c)) { J_Type(c); J_SizeOf(c); } break;
      }
      off(r);
    } else ok = false;
    if (ok) vf_reach("done");
  }
  J_ReleaseAllocator(a); free(t); return ok;
}
int main(void) {
  struct cost s, b; int k = vf_choose(0, (int)(sizeof tpl / sizeof *tpl) - 1, "template"), op = vf_choose(OPS, "op"), r1, r2;
  pre = tpl[k].p; suf = tpl[k].s; fill(0, tpl[k].u); fill(1, tpl[k].m); fill(2, tpl[k].w);
  r1 = run(op, N1, &s); if (!r1 && op >= 3 && op < 10) return 0; r2 = run(op, N2, &b); if (r1 == r2) linear(&s, &b); else if (r1 && !r2) vf_reach("odd");
  return 0;
}
#else
/* a container of n members */
static int obj; static char ch;
static void num(char *b, int x) { int i = 0, j; char t[12]; if (!x) t[i++] = '0'; while (x) { t[i++] = (char)('0' + x % 10); x /= 10; } for (j = 0; j < i; j++) b[j] = t[i - 1 - j]; b[i] = 0; }
static void keyof(char *b, int x) { b[0] = 'k'; num(b + 1, x); }
static JV *fresh(int x) { char k[16]; JV *v = J_NewValue(a); keyof(k, x); if (obj) J_SetKey(v, k); J_SetStr(v, k); return v; }
static JV *make(int how, int n, int measured, struct cost *r) {
  JV *v = J_NewValue(a); int i; char k[16];
  if (how == 0) { char *t = (char *)malloc((unsigned long)n * 24 + 8), *q = t; *q++ = obj ? '{' : '['; for (i = 0; i < n; i++) { if (i) *q++ = ','; if (obj) { *q++ = '"'; keyof(q, i); q += mlen(q); *q++ = '"'; *q++ = ':'; } *q++ = '"'; *q++ = ch; *q++ = '"'; } *q++ = obj ? '}' : ']'; *q = 0; vf_assume(J_Parse(v, t)); free(t); return v; }
  if (obj) J_SetObj(v); else J_SetArray(v);
  if (measured) on();
  for (i = 0; i < n; i++) { JV *c = fresh(i); if (how == 1) { if (obj) J_ObjAdd(v, c); else J_ArrayAdd(v, c); } else { if (obj) J_ObjAddFast(v, c); else J_ArrayAddFast(v, c); } }
  if (measured) off(r);
  return v;
}
static JV *at(JV *v, int i) { JV *c = J_Begin(v); while (i-- > 0) c = J_Next(c); return c; }
#define NOP 34
static int run(int op, int how, int place, int n, struct cost *r) {   /* 1: must not depend on n, 0: linear in n */
  JV *v, *c, *w; int lin = 0, i, x = place == 0 ? 0 : place == 1 ? n / 2 : n - 1; char k[16]; JSize z; char kl[16]; bool ok = true;
  vf_reset(); a = J_NewAllocator(); v = make(how, n, op == 0, r); c = at(v, x); w = fresh(n); keyof(kl, n - 1);
  if (op) on();
  switch (op) {
  case 0: lin = 1; if (how == 0) { on(); off(r); } break;
  case 1: ok = obj ? J_ObjAdd(v, w) : J_ArrayAdd(v, w); break;
  case 2: ok = obj ? J_ObjAddFast(v, w) : J_ArrayAddFast(v, w); break;
  case 3: J_SizeOf(v); J_Type(v); break;
  case 4: J_Begin(v); break;
  case 5: J_Next(c); break;
  case 6: ok = J_Move(c); break;
  case 7: ok = J_Move(c); if (obj) J_ObjAddFast(v, c); else J_ArrayAddFast(v, c); break;
  case 8: if (obj) J_ObjDel(v, "k0"); else J_ArrayDel(v, 0); break;
  case 9: J_SetNull(c); break; case 10: J_SetArray(c); J_ArrayAdd(c, w); break;
  case 11: ok = J_Set(c, w); break; case 12: ok = J_SetFast(c, w); break; case 13: ok = J_Parse(c, "[1,2]"); break;
  case 14: ok = J_SetStr(c, "x"); break; case 15: if (obj) ok = J_SetKey(c, "y"); break; case 16: J_SetBool(c, true); J_SetObj(c); break;
  case 17: J_GetStr(c); J_GetUnEscapeStr(c); J_GetKey(c); J_GetUnEscapeKey(c); break;
  case 18: J_Stringify(c); break; case 19: J_Copy(c); break; case 20: J_SetArray(v); break; case 21: J_SetNumStr(c, "12"); break;
  case 22: if (!obj) J_ArrayGet(v, 0); else J_ObjGet(v, "k0"); break;
  case 23: J_NewValue(a); break;
  default: lin = 1; switch (op) {
    case 24: c = obj ? J_ObjGet(v, kl) : J_ArrayGet(v, (JSize)(n - 1)); ok = c != 0; break;
    case 25: if (obj) J_ObjGet(v, "none"); else J_ArrayGet(v, (JSize)n); break;
    case 26: ok = obj ? J_ObjDel(v, kl) : J_ArrayDel(v, (JSize)(n - 1)); break;
    case 27: for (c = J_Begin(v); c; c = J_Next(c)) { J_Type(c); J_SizeOf(c); J_GetStrFast(c, &z); J_GetKeyFast(c, &z); } break;
    case 28: for (i = 0; i < n; i++) { if (obj) { keyof(k, i); J_ObjDel(v, k); } else J_ArrayDel(v, 0); } break;
    case 29: for (i = 0; i < n; i++) { c = J_Begin(v); J_Move(c); } break;
    case 30: c = J_NewValue(a); if (obj) J_SetObj(c); else J_SetArray(c); for (i = 0; i < n; i++) { JV *m = J_Begin(v); J_Move(m); if (obj) J_ObjAddFast(c, m); else J_ArrayAddFast(c, m); } break;
    case 31: J_Stringify(v); break; case 32: J_Copy(v); break; case 33: J_SetNull(w); J_Set(w, v); break;
    } }
  if (op) off(r);
  vf_assert(ok, "the operation succeeds"); J_ReleaseAllocator(a); return !lin;
}
int main(void) {
  struct cost s, b; int op = vf_choose(0, NOP - 1, "op"), how = vf_choose(0, 2, "built"), place = vf_choose(0, 2, "place"), k;
  obj = vf_choose(0, 1, "object"); vf_sym(&ch, 1, "byte");
  s.t = s.m = b.t = b.m = 0; run(op, how, place, N1, &s); k = run(op, how, place, N2, &b);
  if (k) constant(&s, &b); else linear(&s, &b);
  vf_reach("done"); return 0;
}
#endif

/* Reference model of a JSON document: a plain tree with child arrays, and the comparison of a zzzJSON value with it
   through the public operations only. */
#ifndef MODEL_H
#define MODEL_H
#include "api.h"
#include "ref.h"
#ifndef MK
#define MK 12              /* children per container in the model */
#endif
typedef struct M { int t; const char *s; int n; const char *k; int kn; struct M *c[MK]; int nc; struct M *up; } M;
#ifndef MPOOL
#define MPOOL 160
#endif
static M mpool[MPOOL]; static int mused = 0;
static M *mnew(int t) { M *m = &mpool[mused++]; m->t = t; m->s = 0; m->n = 0; m->k = 0; m->kn = 0; m->nc = 0; m->up = 0; return m; }
#ifndef MBYTES
#define MBYTES 4096
#endif
static char mbytes[MBYTES]; static int mbn = 0;
static const char *mdup(const char *s, int n) { char *p = mbytes + mbn; int i; for (i = 0; i < n; i++) p[i] = s[i]; mbn += n + 1; p[n] = 0; return p; }
static int mlen(const char *s) { int n = 0; while (s[n]) n++; return n; }
static void mtext(M *m, int t, const char *s, int n) { m->t = t; m->nc = 0; m->s = mdup(s, n); m->n = n; }
static void mkey(M *m, const char *k, int n) { m->k = mdup(k, n); m->kn = n; }
static M *mstr(const char *s) { M *m = mnew(JStr); mtext(m, JStr, s, mlen(s)); return m; }
static M *mnum(const char *s) { M *m = mnew(JNumT); mtext(m, JNumT, s, mlen(s)); return m; }
static void madd(M *p, M *c) { vf_assume(p->nc < MK); p->c[p->nc++] = c; c->up = p; }
static int mindex(M *c) { int i; for (i = 0; i < c->up->nc; i++) if (c->up->c[i] == c) return i; return -1; }
static void mcut(M *c) { int i; M *p = c->up; if (!p) return; for (i = mindex(c); i + 1 < p->nc; i++) p->c[i] = p->c[i + 1]; p->nc--; c->up = 0; }
/* content of b into a (key and place of a kept; the beta header lets a value that has a key take over a keyed source's key) */
static void mcontent(M *a, M *b) { int i; if (BIND == 5 && a->k && b->k) { a->k = b->k; a->kn = b->kn; } a->t = b->t; a->s = b->s; a->n = b->n; a->nc = b->nc; for (i = 0; i < b->nc; i++) { a->c[i] = b->c[i]; a->c[i]->up = a; } }
static M *mcopy(const M *b) { int i; M *a = mnew(b->t); a->s = b->s; a->n = b->n; a->k = b->k; a->kn = b->kn; for (i = 0; i < b->nc; i++) madd(a, mcopy(b->c[i])); return a; }
static int mbelow(M *x, M *anc) { while (x) { if (x == anc) return 1; x = x->up; } return 0; }
static M *mroot(M *x) { while (x->up) x = x->up; return x; }
/* parse a document known to be valid JSON into the model */
static M *mparse_at(const char *s, int *ip) {
  int i = ref_ws(s, *ip), e; M *m;
  if (s[i] == '{' || s[i] == '[') {
    char close = s[i] == '{' ? '}' : ']'; m = mnew(s[i] == '{' ? JObj : JArr); i = ref_ws(s, i + 1);
    if (s[i] != close) for (;;) {
      const char *k = 0; int kn = 0; M *c;
      if (close == '}') { i = ref_ws(s, i); e = ref_strbody(s, i + 1); k = s + i + 1; kn = e - i - 1; i = ref_ws(s, e + 1) + 1; }
      c = mparse_at(s, &i); if (k) mkey(c, k, kn); madd(m, c); i = ref_ws(s, i); if (s[i] != ',') break; i++;
    }
    *ip = i + 1; return m;
  }
  if (s[i] == '"') { e = ref_strbody(s, i + 1); m = mnew(JStr); mtext(m, JStr, s + i + 1, e - i - 1); *ip = e + 1; return m; }
  if (s[i] == 't') { m = mnew(JBoolT); mtext(m, JBoolT, "true", 4); *ip = i + 4; return m; }
  if (s[i] == 'f') { m = mnew(JBoolT); mtext(m, JBoolT, "false", 5); *ip = i + 5; return m; }
  if (s[i] == 'n') { m = mnew(JNull); mtext(m, JNull, "null", 4); *ip = i + 4; return m; }
  e = ref_num(s, i); m = mnew(JNumT); mtext(m, JNumT, s + i, e - i); *ip = e; return m;
}
static M *mparse(const char *s) { int i = 0; return mparse_at(s, &i); }
/* serialisation of the model */
static char mout[MBYTES];
static int mser(const M *m, int o) {
  int i, j;
  switch (m->t) {
  case JStr: mout[o++] = '"'; for (i = 0; i < m->n; i++) mout[o++] = m->s[i]; mout[o++] = '"'; return o;
  case JArr: case JObj:
    mout[o++] = m->t == JArr ? '[' : '{';
    for (i = 0; i < m->nc; i++) {
      if (i) mout[o++] = ',';
      if (m->t == JObj) { M *c = m->c[i]; mout[o++] = '"'; for (j = 0; j < c->kn; j++) mout[o++] = c->k[j]; mout[o++] = '"'; mout[o++] = ':'; }
      o = mser(m->c[i], o);
    }
    mout[o++] = m->t == JArr ? ']' : '}'; return o;
  default: for (i = 0; i < m->n; i++) mout[o++] = m->s[i]; return o;
  }
}
static int mdiff(const char *a, const char *b, int n) { int i; char d = 0; for (i = 0; i < n; i++) d |= (char)(a[i] ^ b[i]); return d != 0; }
static void obs_str(JV *v, const M *m) {   /* m may be 0: the empty value */
  const char *s = J_Stringify(v); int n;
  vf_assert(s != 0, "Stringify returns a text");
  n = m ? mser(m, 0) : 0;
  vf_assert(!mdiff(s, mout, n), "Stringify writes the document's text");
  vf_assert(s[n] == 0, "Stringify ends the text");
}
static void obs_key(JV *v, const M *m) {
  JSize n = 77; const char *k = J_GetKeyFast(v, &n);
  if (!m->k) { vf_assert(k == 0, "a value without key reports none"); return; }
  vf_assert(k != 0 && n == (JSize)m->kn, "the key has its length"); if (!k || n != (JSize)m->kn) return;
  vf_assert(!mdiff(k, m->k, m->kn), "the key has its bytes");
}
/* shallow: type, size, key, scalar content, refusals of the other types' getters */
static void obs_one(JV *v, const M *m) {
  int t = J_Type(v); JSize n; const char *s;
  vf_assert(t == m->t, "the value has its type");
  vf_assert(J_SizeOf(v) == (JSize)((m->t == JArr || m->t == JObj) ? m->nc : 0), "Size counts the children");
  obs_key(v, m);
  n = 77; s = J_GetStrFast(v, &n);
  if (m->t == JStr) { vf_assert(s != 0 && n == (JSize)m->n, "the string has its length"); vf_assert(!mdiff(s, m->s, m->n), "the string has its bytes"); } else vf_assert(s == 0, "GetStr refuses another type");
  n = 77; s = J_GetNumFast(v, &n);
  if (m->t == JNumT) { vf_assert(s != 0 && n == (JSize)m->n, "the number has its length"); vf_assert(!mdiff(s, m->s, m->n), "the number has its text"); } else vf_assert(s == 0, "GetNum refuses another type");
  { const JBool *b = J_GetBool(v); if (m->t == JBoolT) vf_assert(b != 0 && (*b != 0) == (m->n == 4), "GetBool returns the value"); else vf_assert(b == 0, "GetBool refuses another type"); }
  vf_assert((J_IsNull(v) != 0) == (m->t == JNull), "IsNull tells null");
}
static void obs(JV *v, const M *m) {
  int i; JV *c;
  if (!m) { vf_assert(J_Type(v) == 0, "the handle is empty"); return; }
  obs_one(v, m); c = J_Begin(v);
  if (m->t != JArr && m->t != JObj) { vf_assert(c == 0, "Begin refuses a scalar"); return; }
  for (i = 0; i < m->nc; i++) { vf_assert(c != 0, "iteration reaches every child"); if (!c) return; obs(c, m->c[i]); c = J_Next(c); }
  vf_assert(c == 0, "iteration ends after the last child");
}
/* deep: also positional and keyed access and the text */
static void obs_deep(JV *v, const M *m) {
  int i, j; obs(v, m); obs_str(v, m); if (!m) return;
  if (m->t == JArr) { for (i = 0; i < m->nc; i++) { JV *c = J_ArrayGet(v, (JSize)i); vf_assert(c != 0, "ArrayGet finds every index"); if (c) obs_one(c, m->c[i]); } vf_assert(J_ArrayGet(v, (JSize)m->nc) == 0, "ArrayGet refuses the index after the last"); }
  else vf_assert(J_ArrayGet(v, 0) == 0, "ArrayGet refuses a non-array");
}
/* every getter answers for its own type and refuses the others */
static void obs_get(JV *v, const M *m) {
  int t = m ? m->t : 0; const char *g; JSize n; const double *d;
  g = J_GetStr(v); if (t == JStr) vf_assert(g != 0 && !mdiff(g, m->s, m->n) && g[m->n] == 0, "GetStr returns the string, terminated"); else vf_assert(g == 0, "GetStr refuses another type");
  g = J_GetUnEscapeStr(v); vf_assert((g != 0) == (t == JStr), "GetUnEscapeStr answers exactly for a string");
  g = J_GetNumStr(v); if (t == JNumT) vf_assert(g != 0 && !mdiff(g, m->s, m->n) && g[m->n] == 0, "GetNumStr returns the number's text, terminated"); else vf_assert(g == 0, "GetNumStr refuses another type");
  d = J_GetNum(v); vf_assert((d != 0) == (t == JNumT), "GetNum answers exactly for a number");
#ifndef NO_INT_API
  d = J_GetDouble(v); vf_assert((d != 0) == (t == JNumT), "GetDouble answers exactly for a number");
  vf_assert((J_GetInt(v) != 0) == (t == JNumT), "GetInt answers exactly for a number"); vf_assert((J_GetLong(v) != 0) == (t == JNumT), "GetLong answers exactly for a number"); vf_assert((J_GetLongLong(v) != 0) == (t == JNumT), "GetLongLong answers exactly for a number");
#endif
  vf_assert((J_GetBool(v) != 0) == (t == JBoolT), "GetBool answers exactly for a boolean"); vf_assert((J_IsNull(v) != 0) == (t == JNull), "IsNull answers exactly for null");
  n = 77; g = J_GetStrFast(v, &n); vf_assert((g != 0) == (t == JStr), "GetStrFast answers exactly for a string"); n = 77; g = J_GetNumFast(v, &n); vf_assert((g != 0) == (t == JNumT), "GetNumFast answers exactly for a number");
  g = J_GetKey(v); if (m && m->k) vf_assert(g != 0 && !mdiff(g, m->k, m->kn) && g[m->kn] == 0, "GetKey returns the key, terminated"); else vf_assert(g == 0, "GetKey refuses a value without key");
  g = J_GetUnEscapeKey(v); vf_assert((g != 0) == (m && m->k), "GetUnEscapeKey answers exactly for a keyed value");
  vf_assert((J_Begin(v) != 0) == ((t == JArr || t == JObj) && m->nc), "Begin answers exactly for a container with children");
  vf_assert((J_ArrayGet(v, 0) != 0) == (t == JArr && m->nc), "ArrayGet answers exactly for an array with that index");
  if (t != JObj) { vf_assert(J_ObjGet(v, "a") == 0, "ObjGet refuses another type"); vf_assert(J_ObjGetLen(v, "a", 1) == 0, "ObjGetLen refuses another type"); }
  vf_assert(J_SizeOf(v) == (JSize)(t == JArr || t == JObj ? m->nc : 0), "Size counts the children");
  if (!m) { vf_assert(J_Next(v) == 0, "an empty value has no successor"); vf_assert(J_Copy(v) == 0, "an empty value cannot be copied"); vf_assert(!J_Move(v), "an empty value cannot be moved"); }
}
static void obs_get_all(JV *v, const M *m) { int i; JV *c; obs_get(v, m); if (!m || (m->t != JArr && m->t != JObj)) return; c = J_Begin(v); for (i = 0; i < m->nc && c; i++) { obs_get_all(c, m->c[i]); c = J_Next(c); } }
/* the model of a value as its getters report it */
static M *mread(JV *v) {
  int t = J_Type(v); M *m = mnew(t); JSize n = 0; const char *s; JV *c;
  s = J_GetKeyFast(v, &n); if (s) mkey(m, s, (int)n);
  if (t == JStr) { s = J_GetStrFast(v, &n); vf_assert(s != 0, "a string has its text"); mtext(m, t, s, (int)n); } else if (t == JNumT) { s = J_GetNumFast(v, &n); vf_assert(s != 0, "a number has its text"); mtext(m, t, s, (int)n); }
  else if (t == JBoolT) { const JBool *b = J_GetBool(v); vf_assert(b != 0, "a boolean has its value"); if (*b) mtext(m, t, "true", 4); else mtext(m, t, "false", 5); } else if (t == JNull) mtext(m, t, "null", 4);
  else for (c = J_Begin(v); c; c = J_Next(c)) madd(m, mread(c));
  return m;
}
/* text of every value of the tree */
static void obs_str_all(JV *v, const M *m) { int i; JV *c; obs_str(v, m); if (m->t != JArr && m->t != JObj) return; c = J_Begin(v); for (i = 0; i < m->nc && c; i++) { obs_str_all(c, m->c[i]); c = J_Next(c); } }
/* the text of v parses into an equal value */
static void obs_roundtrip(JA *a, JV *v, const M *m) {
  const char *s = J_Stringify(v); JV *w = J_NewValue(a); M r;
  vf_assert(ref_json(s), "Stringify writes JSON"); vf_assert(J_Parse(w, s), "the text parses again");
  r = *m; r.k = 0; obs(w, &r);
}
/* drain a container from one side, adding again at the end: latent damage of the links becomes visible */
static void probe(JA *a, JV *v, M *m, int from) {
  JV *x; M *mx;
  if (m->t != JArr && m->t != JObj) return;
  if (from == 0) return;
  x = J_NewValue(a); J_SetBool(x, true); mx = mnew(JBoolT); mtext(mx, JBoolT, "true", 4);
  if (m->t == JObj) { J_SetKey(x, "pp"); mkey(mx, "pp", 2); vf_assert(J_ObjAddFast(v, x), "ObjAddFast accepts a keyed value"); } else vf_assert(J_ArrayAddFast(v, x), "ArrayAddFast accepts a value");
  madd(m, mx); obs(v, m);
  while (m->nc) {
    int i = from == 1 ? 0 : from == 2 ? m->nc - 1 : m->nc / 2, k; M *c = m->c[i];
    if (m->t == JArr) vf_assert(J_ArrayDel(v, (JSize)i), "ArrayDel accepts a valid index");
    else { JV *h = J_Begin(v); for (k = 0; k < i && h; k++) h = J_Next(h); vf_assert(h != 0, "iteration reaches every child"); if (!h) return; vf_assert(J_Move(h), "Move accepts a member"); obs(h, c); }
    mcut(c); obs(v, m);
  }
  obs_str(v, m);
  x = J_NewValue(a); J_SetNull(x); mx = mnew(JNull); mtext(mx, JNull, "null", 4);
  if (m->t == JObj) { J_SetKey(x, "q"); mkey(mx, "q", 1); vf_assert(J_ObjAddFast(v, x), "ObjAddFast accepts a keyed value"); } else vf_assert(J_ArrayAddFast(v, x), "ArrayAddFast accepts a value");
  madd(m, mx); obs_deep(v, m);
}
#endif

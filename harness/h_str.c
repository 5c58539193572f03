/* C06 C07 C08: strings and keys: decoding, escaping setters, validating setters, number-text setters */
#include "model.h"
#ifndef LEN
#define LEN 4
#endif
#ifndef HOLES
#define HOLES 2
#endif
#ifndef ROUTES
#define ROUTES 0, 5
#endif
#ifndef TGTS
#define TGTS 0, 4
#endif
#ifdef TPL
static const char *const tpl[] = { TPL };
#endif
#ifdef ALPHA
static const char alpha[] = ALPHA;
#endif
static char *body; static int bn;
static void inputs(void) {
  int i;
#ifdef TPL
  const char *t = tpl[vf_choose(0, (int)(sizeof tpl / sizeof *tpl) - 1, "template")];
  bn = mlen(t); body = (char *)malloc((unsigned long)bn + 1);
  for (i = 0; i <= bn; i++) { if (t[i] == '~') vf_sym(body + i, 1, "hole"); else body[i] = t[i]; }
#elif defined(SIZES)
  static const int sizes[] = { SIZES }; int n = sizes[vf_choose(0, (int)(sizeof sizes / sizeof *sizes) - 1, "size")], where = vf_choose(0, 2, "where");
  bn = n; body = (char *)malloc((unsigned long)n + 1);
  for (i = 0; i < n; i++) body[i] = FILL[i % (int)(sizeof FILL - 1)];
  if (n >= HOLES) { i = where == 0 ? 0 : where == 1 ? n / 2 : n - HOLES; vf_sym(body + i, HOLES, "hole"); }
  body[n] = 0;
#else
  bn = vf_choose(0, LEN, "len"); body = (char *)malloc((unsigned long)bn + 1); vf_sym(body, (unsigned long)bn, "bytes"); body[bn] = 0;
#ifdef ALPHA
  for (i = 0; i < bn; i++) { int j, ok = 0; for (j = 0; alpha[j]; j++) ok |= body[i] == alpha[j]; vf_assume(ok); }
#endif
#endif
}
static char *exact(const char *s, int n, int term) { int i; char *p = (char *)malloc((unsigned long)(n + term)); for (i = 0; i < n; i++) p[i] = s[i]; if (term) p[n] = 0; return p; }
static int valid_body(const char *s, int n) { int i = 0; while (i < n) { unsigned cp; int raw; i = ref_schar(s, i, &cp, &raw); if (i < 0) return 0; } return i == n; }
/* reference decoding into UTF-8 */
static int decode(const char *s, int n, char *o) {
  int i = 0, k = 0;
  while (i < n) { unsigned c; int raw; i = ref_schar(s, i, &c, &raw);
    if (raw) o[k++] = (char)c; else if (c < 0x80) o[k++] = (char)c; else if (c < 0x800) { o[k++] = (char)(0xC0 | c >> 6); o[k++] = (char)(0x80 | (c & 63)); }
    else if (c < 0x10000) { o[k++] = (char)(0xE0 | c >> 12); o[k++] = (char)(0x80 | (c >> 6 & 63)); o[k++] = (char)(0x80 | (c & 63)); }
    else { o[k++] = (char)(0xF0 | c >> 18); o[k++] = (char)(0x80 | (c >> 12 & 63)); o[k++] = (char)(0x80 | (c >> 6 & 63)); o[k++] = (char)(0x80 | (c & 63)); } }
  o[k] = 0; return k;
}
static char *cat3(const char *a, const char *b, int n, const char *c) { char *p = (char *)malloc((unsigned long)(mlen(a) + n + mlen(c) + 1)), *q = p; int i; while (*a) *q++ = *a++; for (i = 0; i < n; i++) *q++ = b[i]; while (*c) *q++ = *c++; *q = 0; return p; }
#ifdef M_UNESC
int main(void) {
  JA *a = J_NewAllocator(); JV *v = J_NewValue(a), *k; char *t, *want; const char *g; int route, n; JSize L;
  inputs(); vf_assume(valid_body(body, bn)); vf_reach("valid");
  route = vf_choose(ROUTES, "route"); want = (char *)malloc((unsigned long)bn + 1); n = decode(body, bn, want); k = 0;
  switch (route) {
  case 0: t = cat3("\"", body, bn, "\""); vf_assert(J_ParseFast(v, t), "a valid string parses"); break;
  case 1: t = cat3("{\"", body, bn, "\":1}"); vf_assert(J_ParseFast(v, t), "a valid key parses"); k = J_Begin(v); break;
  case 2: vf_assert(J_SetStr(v, body), "a valid string is accepted"); break;
  case 3: t = exact(body, bn, 0); vf_assert(J_SetKeyLen(v, t, (JSize)bn), "a valid key is accepted"); free(t); k = v; break;
  case 4: t = cat3("[\"", body, bn, "\",1]"); vf_assert(J_Parse(v, t), "a valid string parses"); v = J_Copy(v); free(t); v = J_ArrayGet(v, 0); break;
  case 5: t = cat3("{\"", body, bn, "\":[]}"); vf_assert(J_Parse(v, t), "a valid key parses"); v = J_Copy(v); free(t); k = J_Begin(v); break;
  }
  if (route == 1 || route == 3 || route == 5) { g = J_GetUnEscapeKey(k); vf_assert(g != 0, "the key decodes"); vf_assert(!mdiff(g, want, n + 1), "the decoded key is the characters in UTF-8");
    g = J_GetKey(k); vf_assert(!mdiff(g, body, bn + 1), "GetKey is the raw key, terminated"); g = J_GetKeyFast(k, &L); vf_assert(L == (JSize)bn && !mdiff(g, body, bn), "GetKeyFast is the raw key"); }
  else { g = J_GetUnEscapeStr(v); vf_assert(g != 0, "the string decodes"); vf_assert(!mdiff(g, want, n + 1), "the decoded string is the characters in UTF-8");
    g = J_GetStr(v); vf_assert(!mdiff(g, body, bn + 1), "GetStr is the raw string, terminated"); g = J_GetStrFast(v, &L); vf_assert(L == (JSize)bn && !mdiff(g, body, bn), "GetStrFast is the raw string"); }
  J_ReleaseAllocator(a); return 0;
}
#endif
#ifdef M_ESC
/* the canonical escaped form: two-character escapes where there are, \u00xx for the other control characters, all else as it is */
static int canon(char *o, const char *b, int n) {
  int i, k = 0, c;
  for (i = 0; i < n; i++) {
    c = (unsigned char)b[i];
    if (c == '"' || c == '\\') { o[k++] = '\\'; o[k++] = (char)c; }
    else if (c >= 0x20) o[k++] = (char)c;
    else { int e = c == 8 ? 'b' : c == 9 ? 't' : c == 10 ? 'n' : c == 12 ? 'f' : c == 13 ? 'r' : 0; o[k++] = '\\';
      if (e) o[k++] = (char)e; else { int l = c & 15; o[k++] = 'u'; o[k++] = '0'; o[k++] = '0'; o[k++] = (char)('0' + (c >> 4)); o[k++] = (char)(l < 10 ? '0' + l : 'a' + l - 10); } }
  }
  return k;
}
static void canonical(const char *g, int L, int n) {
  char *o = (char *)malloc((size_t)n * 6 + 1); int k = canon(o, body, n);
  vf_assert(L == k && !mdiff(g, o, k), "only what needs escaping is escaped, in the canonical way"); free(o);
}
int main(void) {
  JA *a = J_NewAllocator(); JV *v = J_NewValue(a), *o, *w; char *t; const char *g, *s; int fn, i, n; JSize L; bool r;
  inputs(); fn = vf_choose(0, 3, "fn"); n = bn; if (!(fn & 1)) { n = mlen(body); }
  t = exact(body, n, !(fn & 1));
  switch (fn) { case 0: r = J_SetStrEscape(v, t); break; case 1: r = J_SetStrLenEscape(v, t, (JSize)n); break; case 2: r = J_SetKeyEscape(v, t); break; default: r = J_SetKeyLenEscape(v, t, (JSize)n); }
  vf_assert(r, "the escaping setters accept every byte sequence"); free(t);
  if (fn < 2) { g = J_GetStrFast(v, &L); vf_assert(g != 0, "the value is a string"); vf_assert(valid_body(g, (int)L), "the stored text is a valid JSON string body"); canonical(g, (int)L, n); g = J_GetUnEscapeStr(v); }
  else { g = J_GetKeyFast(v, &L); vf_assert(g != 0, "the value has a key"); vf_assert(valid_body(g, (int)L), "the stored text is a valid JSON string body"); canonical(g, (int)L, n); g = J_GetUnEscapeKey(v); }
  vf_assert(!mdiff(g, body, n) && g[n] == 0, "decoding returns the bytes that were set");
  o = J_NewValue(a); if (fn < 2) { J_SetArray(o); J_ArrayAdd(o, v); } else { J_SetObj(o); J_ObjAdd(o, v); }
  s = J_Stringify(o); vf_assert(ref_json(s), "the document stays JSON");
  w = J_NewValue(a); vf_assert(J_Parse(w, s), "the document parses again"); w = J_Begin(w); vf_assert(w != 0, "it has its element");
  g = fn < 2 ? J_GetUnEscapeStr(w) : J_GetUnEscapeKey(w); vf_assert(g != 0 && !mdiff(g, body, n) && g[n] == 0, "after a round trip through text the bytes are the same");
  vf_reach("done"); J_ReleaseAllocator(a); return 0;
}
#endif
#ifdef M_SET
/* a document, a target in it, one validating setter with an arbitrary text */
#define DOC "{\"k\":\"old\",\"m\":[1,\"e\",[2]],\"o\":{}}"
int main(void) {
  JA *a = J_NewAllocator(); JV *v = J_NewValue(a), *e = J_NewValue(a), *t, *c; M *m = mparse(DOC), *mt; int fn, tgt, ok, i, n; bool r; char *b;
  vf_assert(J_Parse(v, DOC), "the document parses");
  fn = vf_choose(FNS, "fn"); tgt = vf_choose(TGTS, "target"); inputs();
  /* fn: 0..3 SetStr, SetStrLen, SetStrFast, SetStrLenFast; 4..7 keys; 8..11 numbers */
  n = (fn & 1) ? bn : mlen(body); ok = fn < 8 ? valid_body(body, n) : ref_isnum(body, n);
  switch (tgt) { case 0: t = e; mt = 0; break; case 1: t = J_ObjGet(v, "k"); mt = m->c[0]; break; case 2: t = J_ArrayGet(J_ObjGet(v, "m"), 1); mt = m->c[1]->c[1]; break; case 3: t = J_ObjGet(v, "m"); mt = m->c[1]; break; default: t = v; mt = m; }
  vf_assert(t != 0, "the target is found"); b = exact(body, n, !(fn & 1));
  switch (fn) {
  case 0: r = J_SetStr(t, b); break; case 1: r = J_SetStrLen(t, b, (JSize)n); break; case 2: r = J_SetStrFast(t, b); break; case 3: r = J_SetStrLenFast(t, b, (JSize)n); break;
  case 4: r = J_SetKey(t, b); break; case 5: r = J_SetKeyLen(t, b, (JSize)n); break; case 6: r = J_SetKeyFast(t, b); break; case 7: r = J_SetKeyLenFast(t, b, (JSize)n); break;
  case 8: r = J_SetNumStr(t, b); break; case 9: r = J_SetNumStrLen(t, b, (JSize)n); break; case 10: r = J_SetNumStrFast(t, b); break; default: r = J_SetNumStrLenFast(t, b, (JSize)n); break;
  }
  if (fn >= 4 && fn < 8 && tgt == 2) ok = 0;   /* array elements take no key */
  vf_assert(r == (ok != 0), fn < 4 ? "SetStr accepts exactly the valid strings" : fn < 8 ? "SetKey accepts exactly the valid keys" : "SetNumStr accepts exactly the JSON numbers");
  if (!(fn & 2)) free(b);   /* the copying setters do not keep the caller's buffer */
  if (r) vf_reach("accepted"); else vf_reach("rejected");
  if (r) {
    if (!mt) { mt = mnew(JNull); mtext(mt, JNull, "null", 4); if (fn < 4) mtext(mt, JStr, body, n); else if (fn < 8) mkey(mt, body, n); else mtext(mt, JNumT, body, n); obs_deep(e, mt); obs_deep(v, m); }
    else { if (fn < 4) mtext(mt, JStr, body, n); else if (fn < 8) mkey(mt, body, n); else mtext(mt, JNumT, body, n); obs_deep(v, m); obs(e, 0); }
  } else { obs_deep(v, m); obs(e, 0); obs_str(e, 0); }
  J_ReleaseAllocator(a); return 0;
}
#endif

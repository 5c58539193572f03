/* C09: numbers: integer and floating setters and getters, and getters on number texts */
#include "model.h"
#ifdef TPL
static const char *const tpl[] = { TPL };
#endif
static int isint(const char *s, int n) { int i; for (i = 0; i < n; i++) if (s[i] == '.' || s[i] == 'e' || s[i] == 'E') return 0; return 1; }
/* value of an integer text, modulo 2^64; *big when it does not fit a long */
static unsigned long horner(const char *s, int n, int *digits) { unsigned long r = 0; int i = s[0] == '-'; *digits = n - i; for (; i < n; i++) r = r * 10 + (unsigned long)((long)s[i] - 48); return s[0] == '-' ? 0 - r : r; }
/* digits are a long's: compared with the limit's text */
static int fits(const char *s, int n, const char *lim, const char *nlim) { int i, d = n - (s[0] == '-'), l = mlen(lim); const char *x = s[0] == '-' ? nlim : lim, *p = s + (s[0] == '-'); if (d != l) return d < l; for (i = 0; i < l; i++) if (p[i] != x[i]) return p[i] < x[i]; return 1; }
#define FITS_INT(s, n) fits(s, n, "2147483647", "2147483648")
#define FITS_LONG(s, n) fits(s, n, "9223372036854775807", "9223372036854775808")
/* what every getter says about value v whose own text is s[0..n) */
static void numbers(JV *v, const char *s, int n) {
  const char *g; JSize L = 0; const double *d; int dg; double want; unsigned long h;
  g = J_GetNumFast(v, &L); vf_assert(g != 0 && L == (JSize)n, "the number's text has its length"); vf_assert(!mdiff(g, s, n), "the number's text is unchanged");
  g = J_GetNumStr(v); vf_assert(g != 0 && !mdiff(g, s, n) && g[n] == 0, "GetNumStr is the text, terminated");
  want = vf_uf_double(s, (unsigned long)n);
  d = J_GetNum(v); vf_assert(d != 0 && !memcmp(d, &want, sizeof want), "GetNum is the double the text denotes");
#ifndef NO_INT_API
  d = J_GetDouble(v); vf_assert(d != 0 && !memcmp(d, &want, sizeof want), "GetDouble is the double the text denotes");
  { const int *i = J_GetInt(v); const long *l = J_GetLong(v); const long long *ll = J_GetLongLong(v);
    vf_assert(i != 0 && l != 0 && ll != 0, "the integer getters answer for a number");
    if (isint(s, n)) { h = horner(s, n, &dg);
      if (FITS_INT(s, n)) { vf_reach("int"); vf_assert((unsigned long)(long)*i == h, "GetInt is the integer the text denotes"); }
      if (FITS_LONG(s, n)) { vf_reach("long"); vf_assert((unsigned long)*l == h, "GetLong is the integer the text denotes"); vf_assert((unsigned long)*ll == h, "GetLongLong is the integer the text denotes"); } } }
#endif
}
#ifdef M_TEXT
/* a number text (template with arbitrary digits, or grown to a size) in a document, read through every getter */
#ifndef ROUTES
#define ROUTES 0, 5
#endif
int main(void) {
  JA *a = J_NewAllocator(); JV *v = J_NewValue(a); char *t, *b; int n, i, route;
#ifdef SIZES
  { static const int sizes[] = { SIZES }; static const char *const pre[] = { "", "-", "0.", "1e", "-1.5E-" }; int z = sizes[vf_choose(0, (int)(sizeof sizes / sizeof *sizes) - 1, "size")]; const char *p = pre[vf_choose(0, 4, "prefix")]; n = mlen(p) + z; t = (char *)malloc((unsigned long)n + 1); for (i = 0; p[i]; i++) t[i] = p[i]; for (; i < n; i++) t[i] = '7'; t[n] = 0; vf_sym(t + n - 1, 1, "hole"); }
#else
  { const char *q = tpl[vf_choose(0, (int)(sizeof tpl / sizeof *tpl) - 1, "template")]; n = mlen(q); t = (char *)malloc((unsigned long)n + 1); for (i = 0; i <= n; i++) { if (q[i] == '~') vf_sym(t + i, 1, "hole"); else t[i] = q[i]; } }
#endif
  vf_assume(ref_isnum(t, n)); vf_reach("number");
  route = vf_choose(ROUTES, "route");
  switch (route) {
  case 0: vf_assert(J_ParseFast(v, t), "a number parses"); break;                       /* followed by the terminator */
  case 1: b = (char *)malloc((unsigned long)n + 6); b[0] = '['; for (i = 0; i < n; i++) b[1 + i] = t[i]; b[n + 1] = ','; b[n + 2] = '7'; b[n + 3] = ']'; b[n + 4] = 0; vf_assert(J_ParseFast(v, b), "an array parses"); v = J_ArrayGet(v, 0); break;
  case 2: b = (char *)malloc((unsigned long)n); for (i = 0; i < n; i++) b[i] = t[i]; vf_assert(J_SetNumStrLenFast(v, b, (JSize)n), "SetNumStrLenFast accepts a number"); break;   /* no terminator at all */
  case 3: b = (char *)malloc((unsigned long)n + 1); for (i = 0; i <= n; i++) b[i] = t[i]; vf_assert(J_SetNumStr(v, b), "SetNumStr accepts a number"); free(b); break;
  case 4: b = (char *)malloc((unsigned long)n + 3); b[0] = '['; for (i = 0; i < n; i++) b[1 + i] = t[i]; b[n + 1] = ']'; b[n + 2] = 0; vf_assert(J_Parse(v, b), "an array parses"); free(b); v = J_Copy(v); v = J_Begin(v); break;
  default: b = (char *)malloc((unsigned long)n + 2); for (i = 0; i < n; i++) b[i] = t[i]; b[n] = '5'; b[n + 1] = 0; vf_assert(J_SetNumStrLen(v, b, (JSize)n), "SetNumStrLen accepts a number"); break;   /* followed by another digit that does not belong to it */
  }
  vf_assert(v != 0, "the value is found"); numbers(v, t, n);
  J_ReleaseAllocator(a); return 0;
}
#endif
#ifdef M_SET
#define DOC "{\"k\":\"old\",\"m\":[1,\"e\"]}"
int main(void) {
  JA *a = J_NewAllocator(); JV *v = J_NewValue(a), *e = J_NewValue(a), *t; M *m = mparse(DOC), *mt; int fn, tgt, n, dg; const char *g; JSize L = 0; bool r; long x = 0; double d = 0; char dig[24]; int neg = 0, k = 0;
  vf_assert(J_Parse(v, DOC), "the document parses"); fn = vf_choose(FNS, "fn"); tgt = vf_choose(0, 2, "target");
  switch (tgt) { case 0: t = e; mt = 0; break; case 1: t = J_ObjGet(v, "k"); mt = m->c[0]; break; default: t = J_ArrayGet(J_ObjGet(v, "m"), 0); mt = m->c[1]->c[0]; }
  vf_assert(t != 0, "the target is found"); 
#ifndef NO_INT_API
  if (fn < 3) { /* every integer is a sign and digits: x is built from its own decimal text */
    unsigned long acc = 0; int i; neg = vf_choose(0, 1, "negative"); k = vf_choose(1, fn == 0 ? 10 : 19, "digits"); if (neg) dig[0] = '-';
    for (i = 0; i < k; i++) { char c; vf_sym(&c, 1, "digit"); vf_assume(c >= (i == 0 && (k > 1 || neg) ? '1' : '0')); vf_assume(c <= '9'); dig[neg + i] = c; acc = acc * 10 + (unsigned long)((long)c - 48); }
    if (k == 19) vf_assume(!(acc > (neg ? (unsigned long)1 << 63 : ((unsigned long)1 << 63) - 1))); if (fn == 0 && k == 10) vf_assume(acc <= 2147483647UL + (unsigned long)neg);
    x = (long)(neg ? 0 - acc : acc); if (fn == 0) { vf_decimal_is((long)(int)x, dig, neg + k); r = J_SetInt(t, (int)x); } else { vf_decimal_is(x, dig, neg + k); r = fn == 1 ? J_SetLong(t, x) : J_SetLongLong(t, (long long)x); } }
  else { vf_sym(&d, sizeof d, "dbl"); r = fn == 3 ? J_SetDouble(t, d) : J_SetNum(t, d); }
#else
  vf_sym(&d, sizeof d, "dbl"); r = J_SetNum(t, d);
#endif
  if (fn >= 3) { unsigned long bits; memcpy(&bits, &d, 8); vf_assert(r == ((bits >> 52 & 0x7ff) != 0x7ff), "SetDouble accepts exactly the finite doubles"); } else vf_assert(r, "the integer setters accept every integer");
  if (!r) { vf_reach("refused"); obs_deep(v, m); obs(e, 0); J_ReleaseAllocator(a); return 0; }
  vf_reach("set"); g = J_GetNumFast(t, &L); vf_assert(g != 0, "the value is a number"); n = (int)L;
  vf_assert(n > 0 && n < 40 && ref_isnum(g, n), "the text is a JSON number");
  if (fn < 3) { vf_assert(n == neg + k && !mdiff(g, dig, n), "the text is the integer that was set, in decimal");
#ifndef NO_INT_API
    if (fn == 0 || k < 10) { const int *i = J_GetInt(t); vf_assert(i != 0 && *i == (int)x, "GetInt returns the integer that was set"); }
    { const long *l = J_GetLong(t); const long long *ll = J_GetLongLong(t); vf_assert(l != 0 && *l == x, "GetLong returns the integer that was set"); vf_assert(ll != 0 && (long)*ll == x, "GetLongLong returns the integer that was set"); }
#endif
  } else { const double *q = J_GetNum(t); vf_assert(q != 0 && !memcmp(q, &d, sizeof d), "GetNum returns the double that was set");
#ifndef NO_INT_API
    q = J_GetDouble(t); vf_assert(q != 0 && !memcmp(q, &d, sizeof d), "GetDouble returns the double that was set");
#endif
  }
  { char keep[48]; int i; for (i = 0; i < n; i++) keep[i] = g[i]; if (mt) { mtext(mt, JNumT, keep, n); obs(e, 0); obs_deep(v, m); } else { mt = mnew(JNumT); mtext(mt, JNumT, keep, n); obs_deep(e, mt); obs_deep(v, m); } }
  { JV *w = J_NewValue(a); const char *s = J_Stringify(t); const double *p, *q; vf_assert(J_Parse(w, s), "the text parses again"); p = J_GetNum(w); q = J_GetNum(t); vf_assert(p && q && !memcmp(p, q, sizeof *p), "the value survives a round trip through text"); }
  J_ReleaseAllocator(a); return 0;
}
#endif

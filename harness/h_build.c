/* C05: a document built through the API: its text is JSON, is what the values say, and parses into an equal document. */
#include "model.h"
static JA *a;
static char *symtext(int n, const char *name) { int i; char *b = (char *)malloc((unsigned long)n + 1);
#ifdef FIXED
  for (i = 0; i < n; i++) b[i] = 'x'; b[n] = 0; return b;
#endif
  vf_sym(b, (unsigned long)n, name); b[n] = 0; for (i = 0; i < n; i++) vf_assume(b[i] != 0); return b; }
static JV *make(int d);
static void fill(JV *v, int t, int d) {
  int i, n; char *b;
  switch (t) {
  case 0: J_SetNull(v); break;
  case 1: J_SetBool(v, vf_choose(0, 1, "bool") != 0); break;
  case 2: b = symtext(2, "str"); if (!J_SetStr(v, b)) J_SetStr(v, ""); break;
  case 3: vf_assert(J_SetNumStr(v, "-0.5e+7"), "SetNumStr accepts a number"); break;
#ifndef NO_ESCAPE_SETTERS
  case 4: b = symtext(1, "esc"); vf_assert(J_SetStrEscape(v, b), "SetStrEscape accepts every text"); break;
  case 5: {
#ifdef FIXED
    vf_assert(J_SetInt(v, -7), "SetInt accepts every integer");
#else
    static const int xs[] = { 0, -7, 65, 2147483647, -2147483647 - 1 }; static const double ds[] = { 0.5, -1e300, 1e308 * 10, -1e308 * 10, 0 };
    int x = vf_choose(0, 9, "number"); double z = 0; if (x == 9) z = z / z; else if (x > 4) z = ds[x - 5];
    if (x < 5) vf_assert(J_SetInt(v, xs[x]), "SetInt accepts every integer"); else if (!(x & 1 ? J_SetNum(v, z) : J_SetDouble(v, z))) J_SetBool(v, true);
#endif
    break; }
#else
  case 4: J_SetNull(v); break; case 5: J_SetNull(v); break;
#endif
  case 6: J_SetArray(v); if (d > 0) { n = vf_choose(0, NCH, "children"); for (i = 0; i < n; i++) { JV *c = make(d - 1); if (i & 1) vf_assert(J_ArrayAddFast(v, c), "ArrayAddFast accepts a value"); else vf_assert(J_ArrayAdd(v, c), "ArrayAdd accepts a value"); } } break;
  default: J_SetObj(v); if (d > 0) { n = vf_choose(0, NCH, "children"); for (i = 0; i < n; i++) { JV *c = make(d - 1); b = symtext(1, "key");
#ifndef NO_ESCAPE_SETTERS
      if (i & 1) vf_assert(J_SetKeyEscape(c, b), "SetKeyEscape accepts every text"); else
#endif
      if (!J_SetKey(c, b)) J_SetKey(c, "k");
      if (i & 1) vf_assert(J_ObjAddFast(v, c), "ObjAddFast accepts a keyed value"); else vf_assert(J_ObjAdd(v, c), "ObjAdd accepts a keyed value"); } }
  }
}
#ifndef KINDS
#define KINDS 0, 7
#endif
static JV *make(int d) { JV *v = J_NewValue(a); fill(v, d == DEPTH ? vf_choose(6, 7, "container") : vf_choose(KINDS, "kind"), d); return v; }
#ifdef SIZES
/* growing documents built through the API */
static const int sizes[] = { SIZES };
static char *runof(char c, int n) { char *p = (char *)malloc((unsigned long)n + 1); int i; for (i = 0; i < n; i++) p[i] = c; p[n] = 0; return p; }
static int big(void) {
  int kind = vf_choose(0, 6, "dimension"), n = sizes[vf_choose(0, (int)(sizeof sizes / sizeof *sizes) - 1, "size")], i; JV *v = J_NewValue(a), *c, *w; const char *s; char *x; int o; char *want = (char *)malloc((unsigned long)n * 8 + 64), *q = want; JSize L;
  x = kind == 2 || kind == 4 ? 0 : runof(kind == 3 ? '7' : 'x', n); if (kind <= 1 && n > 1) { vf_sym(x + n - 1, 1, "last"); vf_assume((unsigned char)x[n - 1] >= 0x20 && x[n - 1] != '"' && x[n - 1] != '\\'); }
#define PUTC(ch) (*q++ = (ch))
#define PUTS(t) do { const char *zz = (t); while (*zz) *q++ = *zz++; } while (0)
  switch (kind) {
  case 0: J_SetArray(v); c = J_NewValue(a); vf_assert(J_SetStr(c, x), "SetStr accepts a valid string"); J_ArrayAdd(v, c); J_SetBool(c, true); J_ArrayAddFast(v, c); PUTS("[\""); PUTS(x); PUTS("\",true]"); break;
  case 1: J_SetObj(v); c = J_NewValue(a); J_SetNull(c); vf_assert(J_SetKey(c, x), "SetKey accepts a valid key"); J_ObjAdd(v, c); J_SetArray(c); J_ObjAddFast(v, c); PUTS("{\""); PUTS(x); PUTS("\":null,\""); PUTS(x); PUTS("\":[]}"); break;
  case 2: J_SetArray(v); PUTC('['); for (i = 0; i < n; i++) { c = J_NewValue(a); J_SetBool(c, i % 3 != 0); J_ArrayAddFast(v, c); if (i) PUTC(','); PUTS(i % 3 ? "true" : "false"); } PUTC(']'); break;
  case 3: J_SetArray(v); c = J_NewValue(a); vf_assert(J_SetNumStr(c, x), "SetNumStr accepts a number"); J_ArrayAdd(v, c); J_ArrayAdd(v, c); PUTC('['); PUTS(x); PUTC(','); PUTS(x); PUTC(']'); break;
  case 4: J_SetNull(v); for (i = 0; i < n; i++) { c = J_NewValue(a); J_SetArray(c); J_ArrayAddFast(c, v); v = c; PUTC('['); } PUTS("null"); for (i = 0; i < n; i++) PUTC(']'); break;
  case 5: J_SetStr(v, x); PUTC('"'); PUTS(x); PUTC('"'); break;
  default: J_SetObj(v); c = J_NewValue(a); J_SetStr(c, x); J_SetKey(c, ""); J_ObjAddFast(v, c); c = J_NewValue(a); J_SetObj(c); J_SetKey(c, "z"); J_ObjAdd(v, c); PUTS("{\"\":\""); PUTS(x); PUTS("\",\"z\":{}}");
  }
  *q = 0; s = J_Stringify(v); o = (int)(q - want); vf_assert(s != 0 && !mdiff(s, want, o + 1), "Stringify writes the document's text");
  w = J_NewValue(a); vf_assert(J_Parse(w, s), "the text parses again"); s = J_Stringify(w); vf_assert(!mdiff(s, want, o + 1), "the reparsed document has the same text");
  vf_reach("done"); return 0;
}
#endif
int main(void) {
  JV *v; M *m;
  a = J_NewAllocator();
#ifdef SIZES
  big(); J_ReleaseAllocator(a); return 0;
#else
  v = make(DEPTH); m = mread(v); obs_deep(v, m); obs_str_all(v, m); obs_roundtrip(a, v, m);
#endif
  vf_reach("done"); J_ReleaseAllocator(a); return 0;
}

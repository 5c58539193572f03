/* C01/C02/C03: parse an arbitrary text (or a template with arbitrary bytes in its holes, written ~) and compare with the reference */
#include "model.h"
#ifndef LEN
#define LEN 5
#endif
#ifdef TPL
static const char *const tpl[] = { TPL };
#define NT ((int)(sizeof tpl / sizeof *tpl))
#endif
static char *text; static int tlen;
static char *mk(int len, int term) { char *p = (char *)malloc((unsigned long)(len + term)); return p; }
#ifdef ALPHA
static const char alpha[] = ALPHA;
#endif
#ifdef SCALE
/* documents that grow in one dimension to a chosen size, with arbitrary bytes where a limit would show */
static const int sizes[] = { SIZES };
static char *tp; static void put(const char *s) { while (*s) *tp++ = *s++; }
static void rep(const char *s, int n) { int k; for (k = 0; k < n; k++) put(s); }
static void hole(void) { vf_sym(tp, 1, "hole"); tp++; }
static void inputs_scale(void) {
  int kind = vf_choose(SCALE, "dimension"), n = sizes[vf_choose(0, (int)(sizeof sizes / sizeof *sizes) - 1, "size")], k;
  text = tp = (char *)malloc((unsigned long)n * 14 + 64);
  switch (kind) {
  case 0: rep("[", n); hole(); rep("]", n - 1); hole(); break;                       /* nesting of arrays */
  case 1: rep("{\"a\":", n); hole(); rep("}", n - 1); hole(); break;                  /* nesting of objects */
  case 2: for (k = 0; k < n; k++) put(k & 1 ? "[1," : "{\"a\":2,\"b\":"); hole(); for (k = n - 1; k > 0; k--) put(k & 1 ? "]" : "}"); hole(); break;
  case 3: put("["); rep("[", n); rep("]", n); hole(); put("0]"); break;                 /* nesting that closes again */
  case 4: put("-"); rep("7", n); hole(); hole(); break;                               /* digits */
  case 5: put("0."); rep("7", n); hole(); hole(); break;
  case 6: put("1e+"); rep("7", n); hole(); hole(); break;
  case 7: put("\""); rep("x", n); hole(); hole(); put("\""); break;                    /* string length */
  case 8: put("{\""); rep("k", n); hole(); put("\""); hole(); put("1}"); break;         /* key length */
  case 9: put("["); rep("1,", n); hole(); hole(); put("]"); break;                     /* elements */
  case 10: put("{"); rep("\"a\":[],", n); put("\""); hole(); put("\":0"); hole(); break; /* members */
  case 11: rep(" ", n); hole(); put("[1"); rep("\n", n); hole(); put("2]"); rep("\t", n); hole(); break; /* whitespace */
  case 12: put("\""); rep("\\u4e2D", n); hole(); put("\""); break;                     /* escapes */
  case 13: put("\""); rep("\\uD834\\udd1E\\n", n); put("\\"); hole(); put("\""); break;
  case 14: put("["); for (k = 0; k < n; k++) { put("\""); rep("s", k % 7); put("\","); } hole(); put("]"); break;
  case 15: put("[{\"a\":"); rep("[[],", n); hole(); rep("]", n); put("},"); hole(); put("]"); break;
  /* one arbitrary byte only: for sizes beyond 16 bits */
  case 16: put("[\""); rep("x", n); hole(); put("\",1]"); break;
  case 17: put("{\""); rep("k", n); hole(); put("\":2}"); break;
  case 18: put("[0,-"); rep("7", n); hole(); put("]"); break;
  case 19: put("["); rep("0,", n); put("7"); hole(); break;
  case 20: put("{"); rep("\"\":0,", n); put("\"z\":1"); hole(); break;
  case 21: rep(" ", n); put("[1]"); rep("\r", n); hole(); break;
  case 22: put("\""); rep("\\u4e2D", n); hole(); put("\""); break;
  }
  *tp = 0; tlen = (int)(tp - text);
}
#endif
static void inputs(void) {
  int i;
#ifdef SCALE
  inputs_scale(); return;
#endif
#ifdef TPL
  const char *t = tpl[vf_choose(0, NT - 1, "template")];
  tlen = mlen(t); text = (char *)malloc((unsigned long)tlen + 1);
  for (i = 0; i <= tlen; i++) { if (t[i] == '~') { vf_sym(text + i, 1, "hole"); } else text[i] = t[i]; }
#elif defined(ALPHA)
  tlen = LEN; text = (char *)malloc(LEN + 1);
  for (i = 0; i < LEN; i++) { int j, ok = 0; vf_sym(text + i, 1, "ch"); for (j = 0; alpha[j]; j++) ok |= text[i] == alpha[j]; ok |= text[i] == 0; vf_assume(ok); }
  text[LEN] = 0;
#else
  tlen = LEN; text = (char *)malloc(LEN + 1); vf_sym(text, LEN, "text"); text[LEN] = 0;
#endif
}
/* value v against the text at s[*ip], independently of the model's storage */
static void walk(JV *v, const char *s, int *ip, const char *k, int kn) {
  M m; int i = ref_ws(s, *ip), n = 0; JV *c;
  m.k = k; m.kn = kn; m.s = 0; m.n = 0; m.nc = 0; m.up = 0;
  if (s[i] == '{' || s[i] == '[') {
    char close = s[i] == '{' ? '}' : ']'; int obj = close == '}';
    c = J_Begin(v); i = ref_ws(s, i + 1);
    if (s[i] != close) for (;;) {
      const char *ck = 0; int ckn = 0, e;
      if (obj) { i = ref_ws(s, i); e = ref_strbody(s, i + 1); ck = s + i + 1; ckn = e - i - 1; i = ref_ws(s, e + 1) + 1; }
      vf_assert(c != 0, "iteration reaches every child"); if (!c) return;
      if (!obj && n < 40) { JV *g = J_ArrayGet(v, (JSize)n); vf_assert(g != 0 && J_Type(g) == J_Type(c), "ArrayGet agrees with iteration"); }
      walk(c, s, &i, ck, ckn); c = J_Next(c); n++; i = ref_ws(s, i); if (s[i] != ',') break; i++;
    }
    vf_assert(c == 0, "iteration ends after the last child");
    m.t = obj ? JObj : JArr; m.nc = n; *ip = i + 1;
  } else if (s[i] == '"') { int e = ref_strbody(s, i + 1); m.t = JStr; m.s = s + i + 1; m.n = e - i - 1; *ip = e + 1; }
  else if (s[i] == 't') { m.t = JBoolT; m.s = "true"; m.n = 4; *ip = i + 4; }
  else if (s[i] == 'f') { m.t = JBoolT; m.s = "false"; m.n = 5; *ip = i + 5; }
  else if (s[i] == 'n') { m.t = JNull; m.s = "null"; m.n = 4; *ip = i + 4; }
  else { int e = ref_num(s, i); m.t = JNumT; m.s = s + i; m.n = e - i; *ip = e; }
  obs_one(v, &m);
}
/* text without insignificant whitespace */
static int strip(const char *s, char *o) {
  int i = 0, n = 0, in = 0;
  for (; s[i]; i++) {
    char c = s[i];
    if (in) { o[n++] = c; if (c == '\\') o[n++] = s[++i]; else if (c == '"') in = 0; }
    else if (c == ' ' || c == '\t' || c == '\n' || c == '\r') continue; else { o[n++] = c; if (c == '"') in = 1; }
  }
  return n;
}
static void readall(JV *v, int d) {   /* every read operation on every value */
  JSize n; JV *c; int k = 0;
  J_Type(v); J_SizeOf(v); J_GetStr(v); J_GetUnEscapeStr(v); J_GetStrFast(v, &n); J_GetNumStr(v); J_GetNumFast(v, &n); J_GetNum(v); J_GetBool(v); J_IsNull(v); J_GetKey(v); J_GetUnEscapeKey(v); J_GetKeyFast(v, &n);
#ifndef NO_INT_API
  J_GetInt(v); J_GetLong(v); J_GetLongLong(v); J_GetDouble(v);
#endif
  J_ObjGet(v, "a"); J_ObjGetLen(v, "a", 1); J_ArrayGet(v, 1);
  for (c = J_Begin(v); c; c = J_Next(c)) { readall(c, d + 1); k++; }
}
int main(void) {
  JA *a; JV *v; bool r, want; int api; char *buf; const char *eff; int i, L;
  inputs();
  a = J_NewAllocator(); v = J_NewValue(a);
#ifdef API
  api = API;
#else
  api = vf_choose(0, 2, "api");
#endif
  eff = text; L = tlen;
  if (api == 1) {       /* ParseLen: exact-size buffer without terminator, any length up to the text's */
#if defined(TPL) || defined(API) || defined(SCALE)
    L = tlen;
#else
    L = vf_choose(0, tlen, "len");
#endif
    buf = (char *)malloc((unsigned long)L); for (i = 0; i < L; i++) buf[i] = text[i];
    { char *e2 = (char *)malloc((unsigned long)L + 1); for (i = 0; i < L; i++) e2[i] = text[i]; e2[L] = 0; eff = e2; }
    r = J_ParseLen(v, buf, (JSize)L); free(buf);
  } else {              /* exact-size buffer: the terminator is its last byte */
    L = mlen(text); buf = (char *)malloc((unsigned long)L + 1); for (i = 0; i <= L; i++) buf[i] = text[i];
    r = api == 0 ? J_Parse(v, buf) : J_ParseFast(v, buf);
    if (api == 0) free(buf);
  }
  if (r) vf_reach("accepted"); else vf_reach("rejected");
#ifdef CHECK_ACCEPT
  want = ref_json(eff) != 0;
  vf_assert(r == want, "the parser accepts exactly the JSON texts");
#endif
#ifdef CHECK_TREE
  vf_assume(r == (ref_json(eff) != 0));   /* acceptance itself is another property */
  if (r) { int ip = 0, n; const char *s; char *o = (char *)malloc((unsigned long)mlen(eff) + 1);
    walk(v, eff, &ip, 0, 0);
    n = strip(eff, o); s = J_Stringify(v); vf_assert(!mdiff(s, o, n) && s[n] == 0, "Stringify is the text without insignificant whitespace"); }
  else { vf_assert(J_Type(v) == 0 && J_Stringify(v)[0] == 0, "after a refusal the value is still empty"); }
#endif
#ifdef CHECK_GET
  vf_assume(r == (ref_json(eff) != 0));
  obs_get_all(v, r ? mparse(eff) : 0);
#endif
#ifdef CHECK_READ
  readall(v, 0); J_Stringify(v); if (r) { JV *c = J_Copy(v); if (c) { readall(c, 0); J_Stringify(c); } }
#endif
  J_ReleaseAllocator(a);
  return 0;
}

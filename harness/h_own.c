/* C17 C18: who owns the bytes.
   M_OWN: the copying operations keep nothing of the caller's buffers or source values.
   M_READ: reading changes nothing, and what a read returned stays as it was. */
#include "model.h"
static JA *a;
static void scribble(char *b, int n) { int i; for (i = 0; i < n; i++) b[i] = 'Z'; free(b); }
static char *dup1(const char *s, int n, int term) { int i; char *p = (char *)malloc((unsigned long)(n + term)); for (i = 0; i < n; i++) p[i] = s[i]; if (term) p[n] = 0; return p; }
static char sc(const char *name) { char c; vf_sym(&c, 1, name); vf_assume((unsigned char)c >= 0x20 && c != '"' && c != '\\'); return c; }
static char digit(const char *name) { char c; vf_sym(&c, 1, name); vf_assume(c >= '1' && c <= '9'); return c; }
#ifdef M_OWN
#ifndef PADS
#define PADS 0
#endif
static const int pads[] = { PADS }; static int pad;
static int at; static char *tt;
static void c1(char c) { tt[at++] = c; } static void cs(const char *s) { while (*s) tt[at++] = *s++; } static void fill(char c) { int i; for (i = 0; i < pad; i++) tt[at++] = c; }
static void one(JV *v, M **pm, int k) {
  char *b; int n, op = vf_choose(OPS_OWN, "op"); M *m = *pm; bool r = true; char *t;
  pad = pads[vf_choose(0, (int)(sizeof pads / sizeof *pads) - 1, "pad")]; t = tt = (char *)malloc((unsigned long)pad * 4 + 40); at = 0;
  switch (op) {
  case 0: case 1: cs("[\""); c1(sc("ch")); fill('x'); cs("\","); c1(digit("digit")); fill('0'); cs(",{\""); c1(sc("key")); fill('k'); cs("\":4}]"); n = at; t[n] = 0;
    b = dup1(t, n, op == 0); r = op == 0 ? J_Parse(v, b) : J_ParseLen(v, b, (JSize)n); { M *p = mparse(t); if (!m) *pm = m = p; else mcontent(m, p); } scribble(b, n); break;
  case 2: case 3: c1(sc("ch")); c1('y'); fill('x'); n = at; b = dup1(t, n, op == 2); r = op == 2 ? J_SetStr(v, b) : J_SetStrLen(v, b, (JSize)n); if (!m) *pm = m = mnew(JStr); mtext(m, JStr, t, n); scribble(b, n); break;
  case 4: case 5: c1(sc("ch")); c1('k'); fill('x'); n = at; b = dup1(t, n, op == 4); r = op == 4 ? J_SetKey(v, b) : J_SetKeyLen(v, b, (JSize)n); if (!m) { *pm = m = mnew(JNull); mtext(m, JNull, "null", 4); } mkey(m, t, n); scribble(b, n); break;
  case 6: case 7: c1('-'); c1(digit("digit")); c1('0'); fill('7'); n = at; b = dup1(t, n, op == 6); r = op == 6 ? J_SetNumStr(v, b) : J_SetNumStrLen(v, b, (JSize)n); if (!m) *pm = m = mnew(JNumT); mtext(m, JNumT, t, n); scribble(b, n); break;
#ifndef NO_ESCAPE_SETTERS
  case 8: case 9: c1(sc("ch")); vf_assume(t[0] != '/'); c1('e'); fill('x'); n = at; b = dup1(t, n, op == 8); r = op == 8 ? J_SetStrEscape(v, b) : J_SetStrLenEscape(v, b, (JSize)n); if (!m) *pm = m = mnew(JStr); mtext(m, JStr, t, n); scribble(b, n); break;
  case 10: case 11: c1(sc("ch")); vf_assume(t[0] != '/'); c1('e'); fill('x'); n = at; b = dup1(t, n, op == 10); r = op == 10 ? J_SetKeyEscape(v, b) : J_SetKeyLenEscape(v, b, (JSize)n); if (!m) { *pm = m = mnew(JNull); mtext(m, JNull, "null", 4); } mkey(m, t, n); scribble(b, n); break;
#else
  case 8: case 9: case 10: case 11: break;
#endif
  default: { /* copies of a value built on a caller buffer with the Fast parser: source and buffer go away */
    JV *s = J_NewValue(a), *c; M *ms; cs("{\""); c1(sc("key")); fill('k'); cs("\":["); c1(digit("digit")); fill('0'); cs(",\""); c1(sc("ch")); fill('x'); cs("\"]}"); n = at; t[n] = 0; b = dup1(t, n, 1); ms = mparse(t);
    vf_assert(J_ParseFast(s, b), "a valid document parses");
    if (op == 12) { c = J_Copy(s); vf_assert(c != 0, "Copy succeeds"); r = J_SetFast(v, c); if (!m) *pm = m = ms; else mcontent(m, ms); }
    else if (op == 13) { r = J_Set(v, s); if (!m) *pm = m = ms; else mcontent(m, ms); }
    else if (op == 14) { J_SetArray(v); r = J_ArrayAdd(v, s); if (!m) *pm = m = mnew(JArr); mtext(m, JArr, "", 0); madd(m, ms); }
    else { J_SetObj(v); c = J_Begin(s); r = J_ObjAdd(v, c); if (!m) *pm = m = mnew(JObj); mtext(m, JObj, "", 0); { M *k0 = ms->c[0]; mcut(k0); madd(m, k0); } }
    c = J_Begin(s); if (c) { J_SetKey(c, "gone"); c = J_Begin(c); if (c) J_SetStr(c, "gone"); } J_SetNull(s); scribble(b, n); } }
  vf_assert(r, "the copying operation succeeds"); free(t);
}
int main(void) {
  JV *v[2]; M *m[2] = {0, 0}; int i;
  a = J_NewAllocator(); v[0] = J_NewValue(a); v[1] = J_NewValue(a);
  for (i = 0; i < STEPS; i++) { int w = i == 0 ? 0 : vf_choose(0, 1, "value"); one(v[w], &m[w], i); }
  for (i = 0; i < 2; i++) { if (m[i]) { obs_deep(v[i], m[i]); obs_get_all(v[i], m[i]); } else obs(v[i], 0); }
  vf_reach("done"); J_ReleaseAllocator(a); return 0;
}
#endif
#ifdef M_READ
static M *nodes[32]; static int nn;
static void enumr(M *m) { int i; nodes[nn++] = m; for (i = 0; i < m->nc; i++) enumr(m->c[i]); }
static JV *nav(JV *root, M *rm, M *m) { JV *p; int i, k; if (m == rm) return root; p = nav(root, rm, m->up); i = mindex(m); p = J_Begin(p); for (k = 0; k < i && p; k++) p = J_Next(p); vf_assert(p != 0, "iteration reaches every child"); if (!p) exit(0); return p; }
static const char *rp[64]; static const char *rc[64]; static int rn[64], nres; static JV *hv[32]; static M *hm[32]; static int nh;
static void keep(const void *p, int n) { if (p) { rp[nres] = (const char *)p; rn[nres] = n; rc[nres] = mdup((const char *)p, n); nres++; } }
static void keepz(const char *p) { if (p) keep(p, mlen(p) + 1); }
static void handle(JV *h, M *m) { if (h) { hv[nh] = h; hm[nh] = m; nh++; } }
static void readop(JV *v, M *m, int op) {
  JSize n = 0; const char *s; int i;
  switch (op) {
  case 0: keepz(J_Stringify(v)); break; case 1: keepz(J_GetStr(v)); break; case 2: keepz(J_GetUnEscapeStr(v)); break; case 3: s = J_GetStrFast(v, &n); keep(s, (int)n); break;
  case 4: keepz(J_GetNumStr(v)); break; case 5: s = J_GetNumFast(v, &n); keep(s, (int)n); break; case 6: keep(J_GetNum(v), 8); break; case 7: keep(J_GetBool(v), (int)sizeof(JBool)); J_IsNull(v); break;
  case 8: keepz(J_GetKey(v)); break; case 9: keepz(J_GetUnEscapeKey(v)); break; case 10: s = J_GetKeyFast(v, &n); keep(s, (int)n); break;
  case 11: handle(J_Begin(v), m->nc ? m->c[0] : 0); break; case 12: if (m->up) { i = mindex(m); handle(J_Next(v), i + 1 < m->up->nc ? m->up->c[i + 1] : 0); } break;
  case 13: if (m->t == JArr && m->nc) { i = vf_choose(0, m->nc - 1, "index"); handle(J_ArrayGet(v, (JSize)i), m->c[i]); } else J_ArrayGet(v, 1); break;
  case 14: handle(J_ObjGet(v, "a"), m->t == JObj ? m->c[0] : 0); break; case 15: handle(J_ObjGetLen(v, "b!", 1), m->t == JObj && m->nc > 1 ? m->c[1] : 0); break;
  case 16: handle(J_Copy(v), m); break; case 17: J_Type(v); J_SizeOf(v); break;
#ifndef NO_INT_API
  case 18: keep(J_GetInt(v), 4); keep(J_GetDouble(v), 8); break; case 19: keep(J_GetLong(v), 8); keep(J_GetLongLong(v), 8); break;
#else
  case 18: case 19: break;
#endif
  }
}
int main(void) {
  JV *v; M *m; char t[80]; int i, k; const char *d = "{\"a\":\"_\\u0041\\n\",\"b\":[_1,-2.5e3,true,[null]],\"\\t\":{}}";
  a = J_NewAllocator(); v = J_NewValue(a);
  for (i = 0; d[i]; i++) t[i] = d[i]; t[i] = 0; k = 0; for (i = 0; t[i]; i++) if (t[i] == '_') { t[i] = k ? digit("digit") : sc("ch"); k++; }
  m = mparse(t); vf_assert(J_Parse(v, t), "the document parses"); enumr(m);
  for (k = 0; k < STEPS; k++) { int x = vf_choose(0, nn - 1, "node"), op = vf_choose(0, 19, "op"); readop(nav(v, m, nodes[x]), nodes[x], op); }
  for (i = 0; i < nres; i++) vf_assert(!mdiff(rp[i], rc[i], rn[i]), "what a read returned is still there after later reads");
  for (i = 0; i < nh; i++) obs(hv[i], hm[i]);
  obs_deep(v, m);
#ifdef EDIT_AFTER
  { M *y = nodes[vf_choose(0, nn - 1, "edited")], *p; JV *h = nav(v, m, y); k = vf_choose(0, 9, "edit"); p = y->up; if (k >= 8 && !p) k = 0; for (i = 0; k < 8 && i < y->nc; i++) if (k != 3) y->c[i]->up = 0;
    switch (k) {
    case 0: vf_assert(J_SetStr(h, "Q"), "SetStr accepts a valid string"); mtext(y, JStr, "Q", 1); break; case 1: vf_assert(J_SetNumStr(h, "9"), "SetNumStr accepts a number"); mtext(y, JNumT, "9", 1); break;
    case 2: J_SetBool(h, false); mtext(y, JBoolT, "false", 5); break; case 3: { bool r = J_SetKey(h, "QQ"); if (!(p && p->t == JArr)) { vf_assert(r, "SetKey accepts a valid key"); mkey(y, "QQ", 2); } break; }
    case 4: J_SetNull(h); mtext(y, JNull, "null", 4); break; case 5: J_SetArray(h); mtext(y, JArr, "", 0); break; case 6: vf_assert(J_Parse(h, "[\"Q\",7]"), "the document parses"); mcontent(y, mparse("[\"Q\",7]")); break;
#ifndef NO_ESCAPE_SETTERS
    case 7: vf_assert(J_SetStrEscape(h, "\n"), "SetStrEscape accepts every text"); mtext(y, JStr, "\\n", 2); break;
#else
    case 7: J_SetNull(h); mtext(y, JNull, "null", 4); break;
#endif
    case 8: { JV *ph = nav(v, m, p); if (p->t == JArr) vf_assert(J_ArrayDel(ph, (JSize)mindex(y)), "ArrayDel accepts a valid index"); else { char *kk = (char *)mdup(y->k, y->kn); vf_assert(J_ObjDel(ph, kk), "ObjDel finds the member"); } mcut(y); break; }
    case 9: vf_assert(J_Move(h), "Move accepts a member"); mcut(y); break;
    }
    for (i = 0; i < nres; i++) vf_assert(!mdiff(rp[i], rc[i], rn[i]), "what a read returned is still there after later edits");
    obs(v, m); J_Stringify(v); vf_assert(J_Parse(v, "{}"), "the document parses");
    for (i = 0; i < nres; i++) vf_assert(!mdiff(rp[i], rc[i], rn[i]), "what a read returned is still there after later edits");
    vf_reach("done"); J_ReleaseAllocator(a); return 0; }
#endif
  k = vf_choose(0, 2, "then"); if (k == 1) probe(a, v, m, 1); else if (k == 2) { JV *b = J_ObjGet(v, "b"); vf_assert(b != 0, "the member is found"); probe(a, b, m->c[1], 2); obs_deep(v, m); }
  for (i = 0; i < nres; i++) vf_assert(!mdiff(rp[i], rc[i], rn[i]), "what a read returned is still there after later edits");
  vf_reach("done"); J_ReleaseAllocator(a); return 0;
}
#endif
#ifdef M_FAST
/* C21: the Fast variants keep the caller's bytes themselves, and nothing ever writes to them */
#ifndef PADS
#define PADS 0
#endif
static const int pads[] = { PADS };
int main(void) {
  int pad = pads[vf_choose(0, (int)(sizeof pads / sizeof *pads) - 1, "pad")], tl = 64 + 4 * pad; char *t = (char *)malloc((unsigned long)tl), *ref = (char *)malloc((unsigned long)tl); char *b; int n = 0, i, op = vf_choose(0, 6, "op"), how = vf_choose(0, 1, "type before"), act = vf_choose(0, 3, "then"); JV *v, *c; JSize ln = 0; const char *s; bool r = false;
  a = J_NewAllocator(); v = J_NewValue(a); if (how) J_SetArray(v);
  for (i = 0; i < tl; i++) t[i] = 0;
  if (op == 0) { const char *d = "{ \"_k\" : [_1 , \"s_\\u0041\"] }"; int k = 0, q; for (i = 0; d[i]; i++) { if (d[i] != '_') { t[n++] = d[i]; continue; } t[n++] = k == 1 ? digit("digit") : sc("ch"); for (q = 0; q < pad; q++) t[n++] = '7'; k++; } }
  else if (op == 1 || op == 2) { t[n++] = sc("ch"); t[n++] = '\\'; t[n++] = 'n'; for (i = 0; i < pad; i++) t[n++] = '7'; }
  else if (op == 3 || op == 4) { t[n++] = sc("key"); t[n++] = '\\'; t[n++] = 't'; for (i = 0; i < pad; i++) t[n++] = '7'; }
  else { t[n++] = digit("digit"); t[n++] = '0'; for (i = 0; i < pad; i++) t[n++] = '7'; }
  for (i = 0; i < tl; i++) ref[i] = t[i];
  b = dup1(t, n, 1);
  switch (op) {
  case 0: r = J_ParseFast(v, b); break; case 1: r = J_SetStrFast(v, b); break; case 2: r = J_SetStrLenFast(v, b, (JSize)n); break; case 3: r = J_SetKeyFast(v, b); break; case 4: r = J_SetKeyLenFast(v, b, (JSize)n); break; case 5: r = J_SetNumStrFast(v, b); break; case 6: r = J_SetNumStrLenFast(v, b, (JSize)n); break;
  }
  vf_assert(r, "the Fast operation succeeds");
  if (act == 1) { J_Stringify(v); J_GetStr(v); J_GetUnEscapeStr(v); J_GetKey(v); J_GetUnEscapeKey(v); J_GetNumStr(v); J_GetNum(v); }
  if (act == 2 && op != 3 && op != 4) { JV *x = J_NewValue(a); J_SetArray(x); vf_assert(J_ArrayAddFast(x, v), "adding succeeds"); v = J_Begin(x); vf_assert(v != 0, "the element is there"); if (!v) return 0; }
  if (act == 2 && (op == 3 || op == 4) && how) { JV *x = J_NewValue(a); J_SetObj(x); vf_assert(J_ObjAddFast(x, v), "adding succeeds"); v = J_Begin(x); vf_assert(v != 0, "the member is there"); if (!v) return 0; }
  if (act == 3 && op != 3 && op != 4) { JV *x = J_NewValue(a); vf_assert(J_SetFast(x, v), "SetFast succeeds"); v = x; }
  if (op == 0) {
    c = J_Begin(v); vf_assert(c != 0, "the member is there"); if (!c) return 0;
    s = J_GetKeyFast(c, &ln); vf_assert(s == b + 3 && ln == (JSize)(2 + pad), "ParseFast: the key is the caller's own bytes");
    c = J_Begin(c); vf_assert(c != 0, "the element is there"); if (!c) return 0;
    s = J_GetNumFast(c, &ln); vf_assert(s == b + 10 + pad && ln == (JSize)(2 + pad), "ParseFast: the number is the caller's own bytes");
    c = J_Next(c); vf_assert(c != 0, "the second element is there"); if (!c) return 0;
    s = J_GetStrFast(c, &ln); vf_assert(s == b + 16 + 2 * pad && ln == (JSize)(8 + pad), "ParseFast: the string is the caller's own bytes");
    if (act == 1) { J_GetStr(c); J_GetUnEscapeStr(c); }
  } else if (op <= 2) { s = J_GetStrFast(v, &ln); vf_assert(s == b && ln == (JSize)n, "SetStrFast keeps the caller's own bytes"); }
  else if (op <= 4) { s = J_GetKeyFast(v, &ln); vf_assert(s == b && ln == (JSize)n, "SetKeyFast keeps the caller's own bytes"); }
  else { s = J_GetNumFast(v, &ln); vf_assert(s == b && ln == (JSize)n, "SetNumStrFast keeps the caller's own bytes"); }
  vf_assert(!mdiff(b, ref, n) && !b[n], "the caller's text is not written to");
  vf_reach("done"); J_ReleaseAllocator(a); free(b); return 0;
}
#endif

/* C11 C12 C13 C24: containers of many members: the same rules at every size.
   A container of n members is built one way, then edited at one place; the members are numbered, so their identity shows. */
#include "model.h"
static const int sizes[] = { SIZES };
static JA *a; static int obj;
static int idn; static int *ids;                         /* expected members in order */
static void num(char *b, int x) { int i = 0, j; char t[12]; if (!x) t[i++] = '0'; while (x) { t[i++] = (char)('0' + x % 10); x /= 10; } for (j = 0; j < i; j++) b[j] = t[i - 1 - j]; b[i] = 0; }
static void keyof(char *b, int x) { b[0] = 'k'; num(b + 1, x); }
static JV *member(int x) { char b[16], k[16]; JV *v = J_NewValue(a); num(b, x); keyof(k, x); vf_assert(J_SetNumStr(v, b), "SetNumStr accepts a number"); if (obj) vf_assert(J_SetKey(v, k), "SetKey accepts a valid key"); return v; }
static void is(JV *v, int x) {
  char b[16]; int l; JSize n = 0; const char *s = J_GetNumFast(v, &n); num(b, x); l = mlen(b); vf_assert(s != 0 && n == (JSize)l, "the member is the right one"); if (s && n == (JSize)l) vf_assert(!mdiff(s, b, l), "the member is the right one");
  if (obj) { keyof(b, x); l = mlen(b); s = J_GetKeyFast(v, &n); vf_assert(s != 0 && n == (JSize)l, "the member has its key"); if (s && n == (JSize)l) vf_assert(!mdiff(s, b, l), "the member has its key"); }
}
static void chk(JV *v) {
  int i, k; JV *c; const char *s; char b[16]; static const int at[] = { 0, 1, 2 };
  vf_assert(J_SizeOf(v) == (JSize)idn, "Size counts the children");
  for (i = 0, c = J_Begin(v); c; c = J_Next(c), i++) { vf_assert(i < idn, "iteration ends after the last child"); if (i >= idn) break; is(c, ids[i]); }
  vf_assert(i == idn, "iteration reaches every child");
  s = J_Stringify(v); vf_assert(s != 0 && *s++ == (obj ? '{' : '['), "Stringify writes the document's text");
  for (i = 0; i < idn; i++) { if (i) vf_assert(*s++ == ',', "Stringify writes the document's text"); if (obj) { *(b + 0) = '"'; keyof(b + 1, ids[i]); k = mlen(b); b[k++] = '"'; b[k++] = ':'; vf_assert(!mdiff(s, b, k), "Stringify writes the document's text"); s += k; } num(b, ids[i]); k = mlen(b); vf_assert(!mdiff(s, b, k), "Stringify writes the document's text"); s += k; }
  vf_assert(s[0] == (obj ? '}' : ']') && s[1] == 0, "Stringify writes the document's text");
  for (k = 0; k < 6; k++) { int x = k < 3 ? at[k] : k == 3 ? idn / 2 : idn - (k - 3); if (x < 0 || x >= idn) continue;
    if (obj) { keyof(b, ids[x]); c = J_ObjGet(v, b); vf_assert(c != 0, "ObjGet finds every member"); if (c) is(c, ids[x]); c = J_ObjGetLen(v, b, (JSize)mlen(b)); vf_assert(c != 0, "ObjGetLen finds every member"); if (c) is(c, ids[x]); }
    else { c = J_ArrayGet(v, (JSize)x); vf_assert(c != 0, "ArrayGet finds every index"); if (c) is(c, ids[x]); } }
  if (obj) vf_assert(!J_ObjGet(v, "kk"), "ObjGet refuses a missing key"); else vf_assert(!J_ArrayGet(v, (JSize)idn), "ArrayGet refuses the index after the last");
}
static void cut(int x) { int i; for (i = x; i + 1 < idn; i++) ids[i] = ids[i + 1]; idn--; }
static void add(JV *v, int x, int fast) { JV *c = member(x); bool r = obj ? (fast ? J_ObjAddFast(v, c) : J_ObjAdd(v, c)) : (fast ? J_ArrayAddFast(v, c) : J_ArrayAdd(v, c)); vf_assert(r, "adding succeeds"); ids[idn++] = x; }
static void del(JV *v, int x) { char b[16]; if (obj) { keyof(b, ids[x]); vf_assert(J_ObjDel(v, b), "ObjDel finds the member"); } else vf_assert(J_ArrayDel(v, (JSize)x), "ArrayDel finds the index"); cut(x); }
int main(void) {
  int n = sizes[vf_choose(0, (int)(sizeof sizes / sizeof *sizes) - 1, "size")], how = vf_choose(0, 3, "built"), i, x, ed = vf_choose(EDITS, "edit"); JV *v, *w = 0, *c; 
  obj = vf_choose(0, 1, "object"); a = J_NewAllocator(); v = J_NewValue(a); ids = (int *)malloc((unsigned long)(n + 8) * sizeof *ids);
  if (how == 3) { char *t = (char *)malloc((unsigned long)n * 20 + 8), *q = t; *q++ = obj ? '{' : '['; for (i = 0; i < n; i++) { if (i) *q++ = ','; if (obj) { *q++ = '"'; keyof(q, i); q += mlen(q); *q++ = '"'; *q++ = ':'; } num(q, i); q += mlen(q); ids[idn++] = i; } *q++ = obj ? '}' : ']'; *q = 0; vf_assert(J_Parse(v, t), "the document parses"); free(t); }
  else { if (obj) J_SetObj(v); else J_SetArray(v); for (i = 0; i < n; i++) add(v, i, how == 1 || (how == 2 && (i & 1))); }
  x = vf_choose(0, 3, "place"); x = x == 0 ? 0 : x == 1 ? n - 1 : x == 2 ? n / 2 : n > 1 ? n - 2 : 0;
  switch (ed) {
  case 0: break;
  case 1: del(v, x); break;
  case 2: del(v, x); add(v, n + 1, 0); add(v, n + 2, 1); break;
  case 3: c = J_Begin(v); for (i = 0; i < x; i++) c = J_Next(c); vf_assert(J_Move(c), "Move accepts a member"); is(c, ids[x]); cut(x); vf_assert(obj ? J_ObjAddFast(v, c) : J_ArrayAddFast(v, c), "adding succeeds"); ids[idn++] = x; break;
  case 4: w = J_Copy(v); vf_assert(w != 0, "Copy succeeds"); del(v, x); chk(v); for (i = idn++; i > x; i--) ids[i] = ids[i - 1]; ids[x] = x; chk(w); v = w; add(v, n + 1, 1); break;
  case 5: w = J_NewValue(a); J_SetStr(w, "s"); vf_assert(J_Set(w, v), "Set succeeds"); v = w; del(v, x); add(v, n + 3, 0); break;
  case 6: w = J_NewValue(a); J_SetArray(w); vf_assert(J_ArrayAdd(w, v), "ArrayAdd succeeds"); add(v, n + 1, 1); chk(v); idn--; v = J_Begin(w); add(v, n + 2, 0); break;
  case 7: while (idn > 1) del(v, x < idn ? x : idn - 1); add(v, n + 1, 1); break;
  case 8: w = J_NewValue(a); J_SetStr(w, "s"); vf_assert(J_SetFast(w, v), "SetFast succeeds"); v = w; del(v, x); add(v, n + 3, 0); break;
  }
  chk(v); vf_reach("done"); J_ReleaseAllocator(a); return 0;
}

/* C11 C12 C13 C14 C24 C16: histories of editing operations against the model. */
#include "model.h"
#ifndef STEPS
#define STEPS 2
#endif
#ifndef OPS
#define OPS 0x3ffff
#endif
#ifndef DOCS
#define DOCS "[1,[2,3],{\"a\":4}]", "{\"a\":[1],\"b\":{},\"c\":\"x\"}"
#endif
#ifndef SRCS
#define SRCS "[5,6]"
#endif
#ifndef PROBES
#define PROBES 0, 2
#endif
enum { oNull, oBool, oStr, oNum, oArr, oObj, oKey, oAAdd, oAAddF, oOAdd, oOAddF, oSet, oSetF, oADel, oODel, oMove, oCopy, oParse, NOPS };
static const char *const docs[] = { DOCS };
static const char *const srcs[] = { SRCS };
#ifdef OPS1   /* a list of operations for each of three steps */
static const int ops1[] = { OPS1 }, ops2[] = { OPS2 }, ops3[] = { OPS3 };
#define PICKOP(k) (k == 0 ? ops1[vf_choose(0, (int)(sizeof ops1 / sizeof *ops1) - 1, "op")] : k == 1 ? ops2[vf_choose(0, (int)(sizeof ops2 / sizeof *ops2) - 1, "op")] : ops3[vf_choose(0, (int)(sizeof ops3 / sizeof *ops3) - 1, "op")])
#else
static const int ops[] = { OPLIST };
#define PICKOP(k) ops[vf_choose(0, (int)(sizeof ops / sizeof *ops) - 1, "op")]
#endif
/* VARIANTS: every spelling of a setter stands for the operation, not only the first */
#ifdef VARIANTS
#define VAR(n) vf_choose(0, (n) - 1, "variant")
#else
#define VAR(n) 0
#endif
#ifdef NO_ESCAPE_SETTERS
#define NV 4
#else
#define NV 6
#endif
static bool set_str(JV *h, const char *b, int n, int x) {
  switch (x) { case 0: return J_SetStr(h, b); case 1: return J_SetStrLen(h, b, (JSize)n); case 2: return J_SetStrFast(h, b); case 3: return J_SetStrLenFast(h, b, (JSize)n);
#ifndef NO_ESCAPE_SETTERS
  case 4: return J_SetStrEscape(h, b); case 5: return J_SetStrLenEscape(h, b, (JSize)n);
#endif
  } return false;
}
static bool set_key(JV *h, const char *b, int n, int x) {
  switch (x) { case 0: return J_SetKey(h, b); case 1: return J_SetKeyLen(h, b, (JSize)n); case 2: return J_SetKeyFast(h, b); case 3: return J_SetKeyLenFast(h, b, (JSize)n);
#ifndef NO_ESCAPE_SETTERS
  case 4: return J_SetKeyEscape(h, b); case 5: return J_SetKeyLenEscape(h, b, (JSize)n);
#endif
  } return false;
}
static const char *set_num(JV *h, int x, bool *r) {
  switch (x) { case 0: *r = J_SetNumStr(h, "-1.5"); return "-1.5"; case 1: *r = J_SetNumStrLen(h, "-1.5,", 4); return "-1.5"; case 2: *r = J_SetNumStrFast(h, "-1.5"); return "-1.5"; case 3: *r = J_SetNumStrLenFast(h, "-1.5,", 4); return "-1.5";
  case 4: *r = J_SetNum(h, -1.5); return "-1.5";
#ifndef NO_INT_API
  case 5: *r = J_SetDouble(h, 0.25); return "0.25"; case 6: *r = J_SetInt(h, -70); return "-70"; case 7: *r = J_SetLong(h, 123456L); return "123456"; case 8: *r = J_SetLongLong(h, -9LL); return "-9";
#endif
  } return "";
}
#ifdef NO_INT_API
#define NN 5
#else
#define NN 9
#endif
static bool parse_as(JV *h, const char *t, int x) { return x == 0 ? J_Parse(h, t) : x == 1 ? J_ParseLen(h, t, (JSize)mlen(t)) : J_ParseFast(h, t); }
#define NR 10
static JA *A, *B; static JV *rh[NR]; static M *rm[NR]; static int nr, own[NR], cur;   /* own: which allocator a root belongs to */
typedef struct { JV *h; M *m; int root; } P;
/* nodes of all roots in preorder; an empty handle counts as one */
static M *nodes[64]; static int nroot[64], nn;
static void enumr(M *m, int r, int d) { int i; nodes[nn] = m; nroot[nn++] = r; if (m && d > 0) for (i = 0; i < m->nc; i++) enumr(m->c[i], r, d - 1); }
#ifndef DEPTH
#define DEPTH 3
#endif
static JV *nav(M *m, int r) {
  JV *p; int i, k; if (!m || m == rm[r]) return rh[r];
  p = nav(m->up, r); i = mindex(m);
#ifdef BY_INDEX
  if (m->up->t == JArr) { JV *c = J_ArrayGet(p, (JSize)i); vf_assert(c != 0, "ArrayGet finds every index"); if (!c) exit(0); return c; }
#endif
  p = J_Begin(p); for (k = 0; k < i && p; k++) p = J_Next(p);
  vf_assert(p != 0, "iteration reaches every child"); if (!p) exit(0); return p;
}
static void pick(P *p, int lo, int hi, const char *name) { /* roots lo..hi */
  int i; nn = 0; for (i = lo; i <= hi; i++) enumr(rm[i], i, DEPTH); i = vf_choose(0, nn - 1, name); p->m = nodes[i]; p->root = nroot[i]; p->h = nav(p->m, p->root);
}
static void addroot(JV *h, M *m) { vf_assume(nr < NR); rh[nr] = h; rm[nr] = m; own[nr] = cur; nr++; }
static char *symtext(int n, const char *name) { /* n arbitrary characters valid inside a JSON string, NUL-terminated heap buffer */
  int i; char *b = (char *)malloc((unsigned long)n + 1); vf_sym(b, (unsigned long)n, name); b[n] = 0;
  for (i = 0; i < n; i++) { vf_assume((unsigned char)b[i] >= 0x20); vf_assume(b[i] != '"' && b[i] != '\\'); } return b;
}
static void setroot(P *p, M *m) { if (!p->m) { rm[p->root] = m; p->m = m; } }
static void scalar(P *t, int ty, const char *s, int n) { if (!t->m) setroot(t, mnew(ty)); else { int i; for (i = 0; i < t->m->nc; i++) t->m->c[i]->up = 0; } mtext(t->m, ty, s, n); }
static void empties(P *s) { vf_assert(J_Type(s->h) == 0, "the moved value's handle is empty"); if (s->m == rm[s->root]) rm[s->root] = 0; }
static void step(int k) {
  int op; P t, s; bool r; char *b; int i;
#ifdef FIRST
  if (k == 0) op = FIRST; else
#endif
  op = PICKOP(k);
#ifdef T_ROOT0
  t.m = rm[0]; t.h = rh[0]; t.root = 0; if (op == oMove || op == oCopy || op == oKey) pick(&t, 0, nr - 1, "target");
#else
  pick(&t, 0, nr - 1, "target");
#endif
  if (op >= oAAdd && op <= oSetF) {
#ifdef FRESH
    int f = vf_choose(0, 2, "fresh"); s.h = J_NewValue(B); s.root = nr; 
    if (f == 0) { b = symtext(1, "val"); J_SetStr(s.h, b); s.m = mnew(JStr); mtext(s.m, JStr, b, 1); free(b); }
    else if (f == 1) { J_SetArray(s.h); s.m = mnew(JArr); } else { J_Parse(s.h, "{\"z\":9}"); s.m = mparse("{\"z\":9}"); }
    if (op == oOAdd || op == oOAddF) { b = symtext(1, "key"); J_SetKey(s.h, b); mkey(s.m, b, 1); free(b); }
    addroot(s.h, s.m);
#else
    pick(&s, 0, nr - 1, "source");
#endif
  }
#ifdef VALID
  if (op == oAAdd || op == oAAddF || op == oADel) vf_assume(t.m && t.m->t == JArr);
  if (op == oOAdd || op == oOAddF || op == oODel) vf_assume(t.m && t.m->t == JObj);
  if (op >= oAAdd && op <= oSetF) vf_assume(s.m != 0);
  if (op == oOAdd || op == oOAddF) vf_assume(s.m->k != 0);
  if (op == oMove || op == oCopy) vf_assume(t.m != 0);
#endif
  if (op == oAAddF || op == oOAddF || op == oSetF) vf_assume(!s.m || !t.m || !mbelow(t.m, s.m));   /* a value is not put inside itself */
#ifdef TWO
  if (op == oAAddF || op == oOAddF || op == oSetF) vf_assume(own[s.root] == own[t.root]);   /* Fast operations share structure: one allocator */
#endif
  cur = own[t.root];
  switch (op) {
  case oNull: J_SetNull(t.h); scalar(&t, JNull, "null", 4); break;
  case oBool: { int v = vf_choose(0, 1, "bool"); J_SetBool(t.h, v != 0); scalar(&t, JBoolT, v ? "true" : "false", v ? 4 : 5); break; }
  case oStr: { int x = VAR(NV); b = symtext(1, "str"); r = set_str(t.h, b, 1, x); vf_assert(r, "SetStr accepts a valid string"); scalar(&t, JStr, b, 1); if (x != 2 && x != 3) free(b); break; }
  case oNum: { const char *n = set_num(t.h, VAR(NN), &r); vf_assert(r, "SetNumStr accepts a number"); scalar(&t, JNumT, n, mlen(n)); break; }
  case oArr: J_SetArray(t.h); scalar(&t, JArr, "", 0); break;
  case oObj: J_SetObj(t.h); scalar(&t, JObj, "", 0); break;
  case oKey: { int x = VAR(NV); b = symtext(1, "key"); r = set_key(t.h, b, 1, x);
    if (t.m && t.m->up && t.m->up->t == JArr) { vf_assert(!r, "SetKey refuses an array element"); }
    else { vf_assert(r, "SetKey accepts a valid key"); if (!t.m) scalar(&t, JNull, "null", 4); mkey(t.m, b, 1); } if (x != 2 && x != 3) free(b); break; }
  case oAAdd: r = J_ArrayAdd(t.h, s.h); vf_assert(r == (t.m && t.m->t == JArr && s.m), "ArrayAdd succeeds exactly for an array and a value");
    if (r) { M *c = mcopy(s.m); c->k = 0; madd(t.m, c); } break;
  case oAAddF: r = J_ArrayAddFast(t.h, s.h); vf_assert(r == (t.m && t.m->t == JArr && s.m), "ArrayAddFast succeeds exactly for an array and a value");
    if (r) { empties(&s); mcut(s.m); s.m->k = 0; madd(t.m, s.m); } break;
  case oOAdd: r = J_ObjAdd(t.h, s.h); vf_assert(r == (t.m && t.m->t == JObj && s.m && s.m->k), "ObjAdd succeeds exactly for an object and a keyed value");
    if (r) { M *c = mcopy(s.m); madd(t.m, c); } break;
  case oOAddF: r = J_ObjAddFast(t.h, s.h); vf_assert(r == (t.m && t.m->t == JObj && s.m && s.m->k), "ObjAddFast succeeds exactly for an object and a keyed value");
    if (r) { empties(&s); mcut(s.m); madd(t.m, s.m); } break;
  case oSet: r = J_Set(t.h, s.h); vf_assert(r == (s.m != 0), "Set succeeds exactly for a non-empty source");
    if (r) { M *c = mcopy(s.m); if (!t.m) setroot(&t, c); else mcontent(t.m, c); } break;
  case oSetF: r = J_SetFast(t.h, s.h); vf_assert(r == (s.m != 0), "SetFast succeeds exactly for a non-empty source");
    if (r) { empties(&s); mcut(s.m); if (!t.m) setroot(&t, s.m); else mcontent(t.m, s.m); } break;
  case oADel: { unsigned x;
#ifdef WIDEIDX
    vf_sym(&x, sizeof x, "index");
#else
    x = (unsigned)vf_upto(0, 6, "index");
#endif
    r = J_ArrayDel(t.h, (JSize)x); vf_assert(r == (t.m && t.m->t == JArr && x < (unsigned)t.m->nc), "ArrayDel succeeds exactly for a valid index");
    if (r) { for (i = 0; i < t.m->nc; i++) if ((unsigned)i == x) { mcut(t.m->c[i]); break; } } break; }
  case oODel: { int hit = -1; b = symtext(1, "key"); r = J_ObjDel(t.h, b);
    if (t.m && t.m->t == JObj) for (i = t.m->nc - 1; i >= 0; i--) if (t.m->c[i]->kn == 1 && t.m->c[i]->k[0] == b[0]) hit = i;
    vf_assert(r == (hit >= 0), "ObjDel succeeds exactly when the key is there"); if (r) mcut(t.m->c[hit]); free(b); break; }
  case oMove: r = J_Move(t.h); vf_assert(r == (t.m != 0), "Move succeeds exactly for a non-empty value"); if (r && t.m->up) { mcut(t.m); addroot(t.h, t.m); } break;
  case oCopy: { JV *c = J_Copy(t.h); vf_assert((c != 0) == (t.m != 0), "Copy succeeds exactly for a non-empty value"); if (c) addroot(c, mcopy(t.m)); break; }
  case oParse: { static const char *const txt[] = { "[7,\"s\"]", "{\"a\":[]}", "8", "[9", "{\"b\":0,}" }; int x = vf_choose(0, 4, "text"); r = parse_as(t.h, txt[x], VAR(3)); vf_assert(r == (x < 3), "Parse accepts exactly JSON");
    if (r) { M *c = mparse(txt[x]); if (!t.m) setroot(&t, c); else mcontent(t.m, c); } break; }
  }
}
#ifdef SYMKEYS
/* give every member one arbitrary key character, duplicates allowed */
static void symkeys(JV *v, M *m) { JV *c; int i; if (m->t != JObj) return; c = J_Begin(v); for (i = 0; i < m->nc; i++) { char *b = symtext(1, "mkey"); J_SetKey(c, b); mkey(m->c[i], b, 1); free(b); c = J_Next(c); } }
#endif
#ifdef HELD
/* handles taken before the edits, used after them: a handle denotes its value for as long as that value is in a tree */
static JV *hh[32]; static M *hm[32]; static int nheld;
static void hold(void) { int i; nn = 0; for (i = 0; i < nr; i++) if (rm[i]) enumr(rm[i], i, DEPTH); for (i = 0; i < nn; i++) if (nodes[i] != rm[nroot[i]]) { hm[nheld] = nodes[i]; hh[nheld] = nav(nodes[i], nroot[i]); nheld++; } }
static int alive(M *m) { int i; while (m->up) { if (mindex(m) < 0) return 0; m = m->up; } for (i = 0; i < nr; i++) if (rm[i] == m) return 1; return 0; }
static void obs_held(void) { int i, j; for (i = 0; i < nheld; i++) if (alive(hm[i])) { M *m = hm[i]; JV *n; obs(hh[i], m); n = J_Next(hh[i]); if (m->up) { j = mindex(m); vf_assert((n != 0) == (j + 1 < m->up->nc), "Next of a kept handle follows the edits"); if (n) obs_one(n, m->up->c[j + 1]); } } }
#endif
int main(void) {
  int d, k, i, pr;
  A = J_NewAllocator(); B = A;
#ifdef TWO
  B = J_NewAllocator();
#endif
  d = vf_choose(0, (int)(sizeof docs / sizeof *docs) - 1, "doc");
  addroot(J_NewValue(A), mparse(docs[d])); vf_assert(J_Parse(rh[0], docs[d]), "the start document parses");
#ifdef SYMKEYS
  symkeys(rh[0], rm[0]);
#endif
#ifndef FRESH
  addroot(J_NewValue(A), 0);
#ifdef TWO
  cur = 1; addroot(J_NewValue(B), 0);
#endif
  for (i = 0; i < (int)(sizeof srcs / sizeof *srcs); i++) { M *m = mparse(srcs[i]); JV *h = J_NewValue(B); vf_assert(J_Parse(h, srcs[i]), "the source parses"); J_SetKey(h, "b"); mkey(m, "b", 1); addroot(h, m); }
#endif
  cur = 0;
#ifdef HELD
  hold();
#endif
  for (k = 0; k < STEPS; k++) { step(k);
#ifdef OBS_EACH
    for (i = 0; i < nr; i++) obs(rh[i], rm[i]);
#endif
  }
#ifdef TWO
  { int gone = vf_choose(0, 1, "released"), kept = 0; JA *g = gone ? B : A;
    J_ReleaseAllocator(g); vf_iso_release(g); if (gone) B = 0; else A = B, B = 0;
    for (i = 0; i < nr; i++) if (own[i] != gone) { rh[kept] = rh[i]; rm[kept] = rm[i]; kept++; } nr = kept; }
#endif
  for (i = 0; i < nr; i++) obs_deep(rh[i], rm[i]);
#ifdef HELD
  obs_held();
#endif
#ifdef GETTERS
  for (i = 0; i < nr; i++) obs_get_all(rh[i], rm[i]);
#endif
#ifdef ROUNDTRIP
  for (i = 0; i < nr; i++) if (rm[i]) { obs_str_all(rh[i], rm[i]); obs_roundtrip(A, rh[i], rm[i]); }
#endif
  pr = vf_choose(PROBES, "probe");
  if (pr) for (i = 0; i < nr; i++) if (rm[i]) probe(A, rh[i], rm[i], pr);
  vf_reach("done");
  J_ReleaseAllocator(A);
#if defined(TWO)
  if (B) J_ReleaseAllocator(B);
#endif
#ifdef LEAK
  vf_assert(vf_live() == 0, "releasing the allocator frees everything");
#endif
#ifdef COUNTERS
  vf_assert(ZJ_ALLOC_COUNT == ZJ_FREE_COUNT, "every block taken from the system is given back");
#endif
  return 0;
}

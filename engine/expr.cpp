#include "expr.h"
#include <cmath>
ExprPool P; uint32_t evalEpoch = 1;

static double asD(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
static uint64_t asB(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }

uint64_t foldBin(Op op, uint64_t a, uint64_t b, unsigned w, bool *ok) {
  uint64_t m = maskw(w); a &= m; b &= m; if (ok) *ok = true;
  int64_t sa = sextw(a, w), sb = sextw(b, w);
  switch (op) {
  case OAdd: return (a + b) & m; case OSub: return (a - b) & m; case OMul: return (a * b) & m;
  case OUDiv: if (!b) { if (ok) *ok = false; return m; } return a / b;
  case OURem: if (!b) { if (ok) *ok = false; return a; } return a % b;
  case OSDiv: if (!b) { if (ok) *ok = false; return sa < 0 ? 1 : m; } if (sb == -1) return (0 - a) & m; return (uint64_t)(sa / sb) & m;
  case OSRem: if (!b) { if (ok) *ok = false; return a; } if (sb == -1) return 0; return (uint64_t)(sa % sb) & m;
  case OShl: return b >= w ? 0 : (a << b) & m; case OLShr: return b >= w ? 0 : a >> b;
  case OAShr: return b >= w ? (sa < 0 ? m : 0) : (uint64_t)(sa >> b) & m;
  case OAnd: return a & b; case OOr: return a | b; case OXor: return a ^ b;
  case OEq: return a == b; case OUlt: return a < b; case OUle: return a <= b; case OSlt: return sa < sb; case OSle: return sa <= sb;
  case OFAdd: return asB(asD(a) + asD(b)); case OFSub: return asB(asD(a) - asD(b)); case OFMul: return asB(asD(a) * asD(b)); case OFDiv: return asB(asD(a) / asD(b));
  case OFOeq: return asD(a) == asD(b); case OFOlt: return asD(a) < asD(b); case OFOle: return asD(a) <= asD(b);
  case OFUno: return std::isnan(asD(a)) || std::isnan(asD(b));
  default: assert(0); return 0;
  }
}
static std::vector<Table> tabs; static std::unordered_map<std::string, uint32_t> tabIds;
const Table &tableOf(uint64_t id) { return tabs[id]; }
// boolean function of a byte as a disjunction of ranges
static E boolTab(E idx, const Table &t) {
  int cnt = 0; for (int i = 0; i < 256; i++) cnt += t[i] != 0;
  if (cnt == 0) return P.K(0, 1); if (cnt == 256) return P.K(1, 1);
  E r = P.K(0, 1);
  for (int i = 0; i < 256;) { if (!t[i]) { i++; continue; } int j = i; while (j + 1 < 256 && t[j + 1]) j++;
    E x; if (i == j) x = mkBin(OEq, idx, P.K(i, 8)); else { x = P.K(1, 1); if (i > 0) x = mkAndB(x, mkBin(OUle, P.K(i, 8), idx)); if (j < 255) x = mkAndB(x, mkBin(OUle, idx, P.K(j, 8))); }
    r = mkOrB(r, x); i = j + 1; }
  return r;
}
E mkTab(E idx, unsigned w, const Table &t0) {
  Table t = t0; for (auto &x : t) x &= maskw(w);
  bool same = true; for (int i = 1; i < 256; i++) if (t[i] != t[0]) { same = false; break; }
  if (same) return P.K(t[0], w);
  if (isK(idx)) return P.K(t[idx->val], w);
  if (w == 1) return boolTab(idx, t);
  std::unordered_map<uint64_t, int> cnt; int ident = 0; for (int i = 0; i < 256; i++) { cnt[t[i]]++; if (t[i] == (uint64_t)i) ident++; }
  if (ident == 256) return mkZExt(idx, w);
  if (cnt.size() <= 8 || ident >= 200) { // few distinct values, or almost the identity
    uint64_t best = 0; int bc = -1; for (auto &kv : cnt) if (kv.second > bc || (kv.second == bc && kv.first < best)) { bc = kv.second; best = kv.first; }
    E r; bool useId = ident >= 200; if (useId) r = mkZExt(idx, w); else r = P.K(best, w);
    std::vector<uint64_t> vals; for (auto &kv : cnt) vals.push_back(kv.first); std::sort(vals.begin(), vals.end());
    for (uint64_t v : vals) { Table b(256, 0); int n = 0; for (int i = 0; i < 256; i++) if (t[i] == v && (useId ? t[i] != (uint64_t)i : v != best)) { b[i] = 1; n++; } if (n) r = mkIte(boolTab(idx, b), P.K(v, w), r); }
    return r;
  }
  std::string key((const char *)t.data(), 2048); auto it = tabIds.find(key); uint32_t id; if (it != tabIds.end()) id = it->second; else { id = tabs.size(); tabs.push_back(t); tabIds[key] = id; }
  return P.raw(OTab, w, id, idx);
}
static bool isCmp(Op o) { return o >= OEq && o <= OSle; }
static bool comm(Op o) { return o == OAdd || o == OMul || o == OAnd || o == OOr || o == OXor || o == OEq; }

E mkNot(E a) {
  if (isK(a)) return P.K(!a->val, 1);
  if (a->op == ONot) return a->a;
  if (a->op == OUlt) return mkBin(OUle, a->b, a->a);
  if (a->op == OUle) return mkBin(OUlt, a->b, a->a);
  if (a->op == OSlt) return mkBin(OSle, a->b, a->a);
  if (a->op == OSle) return mkBin(OSlt, a->b, a->a);
  return P.raw(ONot, 1, 0, a);
}
E mkAndB(E a, E b) { return mkBin(OAnd, a, b); }
E mkOrB(E a, E b) { return mkBin(OOr, a, b); }

E mkBin(Op op, E a, E b) {
  unsigned w = a->w; unsigned rw = isCmp(op) || (op >= OFOeq && op <= OFUno) ? 1 : w;
  assert(a->w == b->w);
  if (isK(a) && isK(b)) { bool ok; uint64_t r = foldBin(op, a->val, b->val, w, &ok); if (ok) return P.K(r, rw); }
  if (op >= OFAdd) return P.raw(op, rw, 0, a, b);
  if (comm(op) && (isK(a) || (!isK(b) && a->id > b->id))) std::swap(a, b); // constant on the right
  uint64_t m = maskw(w);
  if ((a->op == OTab && (isK(b) || (b->op == OTab && b->a == a->a))) || (b->op == OTab && isK(a))) {
    Table t(256); bool all = true; E ix = a->op == OTab ? a->a : b->a; for (int i = 0; i < 256 && all; i++) t[i] = foldBin(op, a->op == OTab ? tableOf(a->val)[i] : a->val, b->op == OTab ? tableOf(b->val)[i] : b->val, w, &all);
    if (all) return mkTab(ix, rw, t);
  }
  switch (op) {
  case OAdd:
    if (isK(b)) { if (!b->val) return a; if (a->op == OAdd && isK(a->b)) return mkBin(OAdd, a->a, P.K(a->b->val + b->val, w)); }
    else { // pull constants outwards
      if (a->op == OAdd && isK(a->b)) return mkBin(OAdd, mkBin(OAdd, a->a, b), a->b);
      if (b->op == OAdd && isK(b->b)) return mkBin(OAdd, mkBin(OAdd, a, b->a), b->b);
      if (a->op == OSub && a->b == b) return a->a; if (b->op == OSub && b->b == a) return b->a;
    }
    break;
  case OSub:
    if (a == b) return P.K(0, w);
    if (isK(b)) return mkBin(OAdd, a, P.K(0 - b->val, w));
    if (a->op == OAdd && isK(a->b)) return mkBin(OAdd, mkBin(OSub, a->a, b), a->b);
    if (a->op == OAdd && a->a == b) return a->b; if (a->op == OAdd && a->b == b) return a->a;
    break;
  case OMul: if (isK(b)) { if (b->val == 0) return b; if (b->val == 1) return a; } break;
  case OUDiv: if (isK(b) && b->val == 1) return a; break;
  case OShl: case OLShr: case OAShr:
    if (isK(b)) { if (!b->val) return a; if (b->val >= w && op != OAShr) return P.K(0, w);
      if (op == OLShr && b->val < w) return mkZExt(mkExtract(a, b->val, w - b->val), w);
      if (op == OShl && b->val < w && a->op == OZExt && a->a->w + b->val <= w) { // shl zext -> concat
        E lo = mkConcat(a->a, P.K(0, b->val)); return mkZExt(lo, w); } }
    break;
  case OAnd:
    if (a == b) return a;
    if (isK(b)) { if (!b->val) return b; if (b->val == m) return a;
      if (a->op == OZExt && (b->val & maskw(a->a->w)) == maskw(a->a->w)) return a;
      uint64_t v = b->val; if ((v & (v + 1)) == 0) { unsigned k = 64 - __builtin_clzll(v); return mkZExt(mkExtract(a, 0, k), w); }
      if (a->op == OZExt && a->a->w < w) return mkZExt(mkBin(OAnd, a->a, P.K(b->val, a->a->w)), w); }
    if (w == 1 && ((a->op == ONot && a->a == b) || (b->op == ONot && b->a == a))) return P.K(0, 1);
    break;
  case OOr:
    if (a == b) return a;
    if (isK(b)) { if (!b->val) return a; if (b->val == m) return b; }
    if (w == 1 && ((a->op == ONot && a->a == b) || (b->op == ONot && b->a == a))) return P.K(1, 1);
    // or of disjoint zext / shifted parts: concat(x,0) | zext(y)
    { E x = a, y = b; for (int k = 0; k < 2; k++, std::swap(x, y)) {
        if (x->op == OConcat && isK(x->b) && x->b->val == 0 && y->op == OZExt && y->a->w <= x->b->w) return mkConcat(x->a, mkZExt(y->a, x->b->w));
        if (x->op == OZExt && x->a->op == OConcat && isK(x->a->b) && x->a->b->val == 0 && y->op == OZExt && y->a->w <= x->a->b->w) return mkZExt(mkConcat(x->a->a, mkZExt(y->a, x->a->b->w)), w);
      } }
    break;
  case OXor:
    if (a == b) return P.K(0, w);
    if (isK(b)) { if (!b->val) return a; if (w == 1) return mkNot(a); }
    break;
  case OEq:
    if (a == b) return P.K(1, 1);
    if (isK(b)) {
      if (w == 1) return b->val ? a : mkNot(a);
      if (a->op == OZExt) { if (b->val >> a->a->w) return P.K(0, 1); return mkBin(OEq, a->a, P.K(b->val, a->a->w)); }
      if (a->op == OSExt) { uint64_t t = b->val & maskw(a->a->w); if (((uint64_t)sextw(t, a->a->w) & m) != b->val) return P.K(0, 1); return mkBin(OEq, a->a, P.K(t, a->a->w)); }
      if (a->op == OAdd && isK(a->b)) return mkBin(OEq, a->a, P.K(b->val - a->b->val, w));
      if (a->op == OXor && isK(a->b)) return mkBin(OEq, a->a, P.K(b->val ^ a->b->val, w));
      if (a->op == OConcat) return mkAndB(mkBin(OEq, a->a, P.K(b->val >> a->b->w, a->a->w)), mkBin(OEq, a->b, P.K(b->val, a->b->w)));
      if (a->op == OIte && (isK(a->b) || isK(a->c))) return mkIte(a->a, mkBin(OEq, a->b, b), mkBin(OEq, a->c, b));
    } else {
      if (a->op == OZExt && b->op == OZExt && a->a->w == b->a->w) return mkBin(OEq, a->a, b->a);
      if (a->op == OSExt && b->op == OSExt && a->a->w == b->a->w) return mkBin(OEq, a->a, b->a);
      if (a->op == OConcat && b->op == OConcat && a->a->w == b->a->w) return mkAndB(mkBin(OEq, a->a, b->a), mkBin(OEq, a->b, b->b));
      if (w == 1) { /* keep */ }
    }
    break;
  case OUlt: case OUle: {
    if (a == b) return P.K(op == OUle, 1);
    if (op == OUlt && isK(b) && b->val == 0) return P.K(0, 1);
    if (op == OUlt && isK(b) && b->val == 1) return mkBin(OEq, a, P.K(0, w));
    if (op == OUle && isK(b) && b->val == m) return P.K(1, 1);
    if (op == OUle && isK(a) && a->val == 0) return P.K(1, 1);
    if (a->op == OZExt && b->op == OZExt && a->a->w == b->a->w) return mkBin(op, a->a, b->a);
    if (a->op == OZExt && isK(b)) { uint64_t mx = maskw(a->a->w); if (b->val > mx) return P.K(1, 1); return mkBin(op, a->a, P.K(b->val, a->a->w)); }
    if (b->op == OZExt && isK(a)) { uint64_t mx = maskw(b->a->w); if (a->val > mx) return P.K(0, 1); return mkBin(op, P.K(a->val, b->a->w), b->a); }
    break; }
  case OSlt: case OSle: {
    if (a == b) return P.K(op == OSle, 1);
    auto nn = [&](E x) { return x->op == OZExt; };
    if (nn(a) && isK(b)) { if (sextw(b->val, w) < 0) return P.K(0, 1); return mkBin(op == OSlt ? OUlt : OUle, a, b); }
    if (nn(b) && isK(a)) { if (sextw(a->val, w) < 0) return P.K(1, 1); return mkBin(op == OSlt ? OUlt : OUle, a, b); }
    if (nn(a) && nn(b)) return mkBin(op == OSlt ? OUlt : OUle, a, b);
    if (a->op == OSExt && isK(b)) { int64_t v = sextw(b->val, w); unsigned iw = a->a->w; int64_t lo = sextw(1ULL << (iw - 1), iw), hi = (int64_t)(maskw(iw) >> 1); if (v > hi) return P.K(1, 1); if (v < lo) return P.K(0, 1); return mkBin(op, a->a, P.K((uint64_t)v, iw)); }
    if (b->op == OSExt && isK(a)) { int64_t v = sextw(a->val, w); unsigned iw = b->a->w; int64_t lo = sextw(1ULL << (iw - 1), iw), hi = (int64_t)(maskw(iw) >> 1); if (v > hi) return P.K(0, 1); if (v < lo) return P.K(1, 1); return mkBin(op, P.K((uint64_t)v, iw), b->a); }
    break; }
  default: break;
  }
  return P.raw(op, rw, 0, a, b);
}
E mkIte(E c, E a, E b) {
  if (isK(c)) return c->val ? a : b;
  if (a == b) return a;
  if (c->op == ONot) return mkIte(c->a, b, a);
  if (a->w == 1) {
    if (isK(a)) return a->val ? mkOrB(c, b) : mkAndB(mkNot(c), b);
    if (isK(b)) return b->val ? mkOrB(mkNot(c), a) : mkAndB(c, a);
  }
  return P.raw(OIte, a->w, 0, c, a, b);
}
E mkZExt(E a, unsigned w) {
  if (a->w == w) return a; assert(w > a->w);
  if (a->op == OTab) { Table t = tableOf(a->val); for (int i = 0; i < 256; i++) t[i] = t[i]; return mkTab(a->a, w, t); }
  if (isK(a)) return P.K(a->val, w);
  if (a->op == OZExt) return mkZExt(a->a, w);
  if (a->op == OConcat && isK(a->a) && a->a->val == 0) return mkZExt(a->b, w);
  return P.raw(OZExt, w, 0, a);
}
E mkSExt(E a, unsigned w) {
  if (a->w == w) return a; assert(w > a->w);
  if (a->op == OTab) { Table t = tableOf(a->val); for (int i = 0; i < 256; i++) t[i] = (uint64_t)sextw(t[i], a->w); return mkTab(a->a, w, t); }
  if (isK(a)) return P.K((uint64_t)sextw(a->val, a->w), w);
  if (a->op == OSExt) return mkSExt(a->a, w);
  if (a->op == OZExt) return mkZExt(a->a, w);
  return P.raw(OSExt, w, 0, a);
}
E mkExtract(E a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a; assert(lo + w <= a->w);
  if (a->op == OTab) { Table t = tableOf(a->val); for (int i = 0; i < 256; i++) t[i] >>= lo; return mkTab(a->a, w, t); }
  if (isK(a)) return P.K(a->val >> lo, w);
  if (a->op == OExtract) return mkExtract(a->a, lo + (unsigned)a->val, w);
  if (a->op == OConcat) { unsigned bw = a->b->w; if (lo >= bw) return mkExtract(a->a, lo - bw, w); if (lo + w <= bw) return mkExtract(a->b, lo, w); return mkConcat(mkExtract(a->a, 0, lo + w - bw), mkExtract(a->b, lo, bw - lo)); }
  if (a->op == OZExt) { unsigned iw = a->a->w; if (lo >= iw) return P.K(0, w); if (lo + w <= iw) return mkExtract(a->a, lo, w); return mkZExt(mkExtract(a->a, lo, iw - lo), w); }
  if (a->op == OSExt && lo + w <= a->a->w) return mkExtract(a->a, lo, w);
  if (a->op == OSExt && lo == 0) return mkSExt(a->a, w);
  if (a->op == OIte && (isK(a->b) || isK(a->c))) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
  if (lo == 0 && (a->op == OAnd || a->op == OOr || a->op == OXor || a->op == OAdd || a->op == OSub || a->op == OMul)) return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
  if ((a->op == OAnd || a->op == OOr || a->op == OXor)) return mkBin(a->op, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
  return P.raw(OExtract, w, lo, a);
}
E mkConcat(E hi, E lo) {
  if (isK(hi) && isK(lo)) return P.K((hi->val << lo->w) | lo->val, hi->w + lo->w);
  if (isK(hi) && hi->val == 0) return mkZExt(lo, hi->w + lo->w);
  if (hi->op == OExtract && lo->op == OExtract && hi->a == lo->a && hi->val == lo->val + lo->w) return mkExtract(hi->a, lo->val, hi->w + lo->w);
  if (hi->op == OExtract && hi->val >= lo->w && (hi->a->op == OAdd || hi->a->op == OSub || hi->a->op == OMul) && hi->val == lo->w && lo == mkExtract(hi->a, 0, lo->w)) return mkExtract(hi->a, 0, hi->w + lo->w);
  if (hi->op == OExtract && lo->op == OConcat && lo->a->op == OExtract && hi->a == lo->a->a && hi->val == lo->a->val + lo->a->w) return mkConcat(mkExtract(hi->a, lo->a->val, hi->w + lo->a->w), lo->b);
  if (hi->op == OTab || lo->op == OTab) { const VarSet *vs = P.unionVars(hi->vars, lo->vars);
    if (vs->size() == 1 && P.varExpr[(*vs)[0]]->w == 8) { Table t(256); std::unordered_map<uint32_t, uint64_t> m; for (int i = 0; i < 256; i++) { m[(*vs)[0]] = i; EvalMemo memo; t[i] = (evalE(hi, m, memo) << lo->w) | evalE(lo, m, memo); } return mkTab(P.varExpr[(*vs)[0]], hi->w + lo->w, t); } }
  return P.raw(OConcat, hi->w + lo->w, 0, hi, lo);
}
E mkF(Op op, E a, E b) {
  if (op == OSIToFP || op == OUIToFP) { if (isK(a)) return P.K(asB(op == OSIToFP ? (double)sextw(a->val, a->w) : (double)a->val), 64); return P.raw(op, 64, 0, a); }
  return mkBin(op, a, b);
}
uint64_t evalE(E e, const std::unordered_map<uint32_t, uint64_t> &m, EvalMemo &memo) {
  if (e->op == OConst) return e->val;
  if (e->op == OVar) { auto it = m.find((uint32_t)e->val); return it == m.end() ? 0 : it->second & maskw(e->w); }
  if (e->ep == evalEpoch) return e->mv;
  uint64_t r;
  switch (e->op) {
  case OIte: r = evalE(e->a, m, memo) ? evalE(e->b, m, memo) : evalE(e->c, m, memo); break;
  case OZExt: r = evalE(e->a, m, memo); break;
  case OSExt: r = (uint64_t)sextw(evalE(e->a, m, memo), e->a->w) & maskw(e->w); break;
  case OExtract: r = (evalE(e->a, m, memo) >> e->val) & maskw(e->w); break;
  case OConcat: r = (evalE(e->a, m, memo) << e->b->w) | evalE(e->b, m, memo); break;
  case OTab: r = tableOf(e->val)[evalE(e->a, m, memo) & 255]; break;
  case ONot: r = !evalE(e->a, m, memo); break;
  case OSIToFP: r = asB((double)sextw(evalE(e->a, m, memo), e->a->w)); break;
  case OUIToFP: r = asB((double)evalE(e->a, m, memo)); break;
  case OFPToSI: r = (uint64_t)(int64_t)asD(evalE(e->a, m, memo)) & maskw(e->w); break;
  default: r = foldBin(e->op, evalE(e->a, m, memo), evalE(e->b, m, memo), e->a->w); break;
  }
  e->ep = evalEpoch; e->mv = r; return r;
}
std::string show(E e, int d) {
  static const char *n[] = {"k", "v", "+", "-", "*", "/u", "/s", "%u", "%s", "<<", ">>u", ">>s", "&", "|", "^", "==", "<u", "<=u", "<s", "<=s", "ite", "zx", "sx", "ext", "cat", "!", "tab", "f+", "f-", "f*", "f/", "f==", "f<", "f<=", "fun", "si2f", "ui2f", "f2si"};
  if (e->op == OConst) return std::to_string(e->val); if (e->op == OVar) return P.varName[e->val];
  if (!d) return "..";
  std::string s = std::string("(") + n[e->op]; if (e->op == OExtract) s += "@" + std::to_string(e->val) + ":" + std::to_string(e->w);
  for (E x : {e->a, e->b, e->c}) if (x) s += " " + show(x, d - 1); return s + ")";
}

// Hash-consed bit-vector expressions (width 1..64) with local simplification.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>
#include <algorithm>
#include <cassert>

enum Op : uint8_t {
  OConst, OVar, OAdd, OSub, OMul, OUDiv, OSDiv, OURem, OSRem, OShl, OLShr, OAShr,
  OAnd, OOr, OXor, OEq, OUlt, OUle, OSlt, OSle, OIte, OZExt, OSExt, OExtract, OConcat,
  ONot, // width-1 negation
  OTab, // table lookup: a = 8-bit index, val = table id
  OFAdd, OFSub, OFMul, OFDiv, OFOeq, OFOlt, OFOle, OFUno, OSIToFP, OUIToFP, OFPToSI
};

typedef std::vector<uint32_t> VarSet; // sorted
struct Expr {
  Op op; uint8_t w; uint32_t id; uint64_t val; // val: const value / var id / extract low bit
  Expr *a, *b, *c;
  const VarSet *vars;
  uint32_t ep = 0; uint64_t mv = 0; // evaluation memo
};
typedef Expr *E;
extern uint32_t evalEpoch;
struct EvalMemo { EvalMemo() { evalEpoch++; } void clear() { evalEpoch++; } };

struct Val { uint64_t c; E e; Val() : c(0), e(nullptr) {} Val(uint64_t x) : c(x), e(nullptr) {} Val(E x) : c(0), e(x) {}
  bool sym() const { return e != nullptr; } };

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline int64_t sextw(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ULL << (w - 1); v &= maskw(w); return (int64_t)((v ^ m) - m); }

struct ExprPool {
  struct Key { Op op; uint8_t w; uint64_t val; E a, b, c; bool operator==(const Key &o) const { return op == o.op && w == o.w && val == o.val && a == o.a && b == o.b && c == o.c; } };
  struct KH { size_t operator()(const Key &k) const { uint64_t h = k.op * 1000003ULL + k.w; auto mix = [&](uint64_t x) { h ^= x + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); }; mix(k.val); mix((uint64_t)k.a); mix((uint64_t)k.b); mix((uint64_t)k.c); return h; } };
  std::unordered_map<Key, E, KH> tab;
  std::vector<std::string> varName; std::vector<E> varExpr;
  struct VH { size_t operator()(const VarSet &v) const { uint64_t h = v.size(); for (auto x : v) h = h * 1099511628211ULL + x; return h; } };
  std::unordered_map<VarSet, const VarSet *, VH> vsets;
  const VarSet *emptyVars;
  uint32_t nextId = 1;
  ExprPool() { emptyVars = internVars(VarSet()); }
  const VarSet *internVars(const VarSet &v) { auto it = vsets.find(v); if (it != vsets.end()) return it->second; const VarSet *p = new VarSet(v); vsets[v] = p; return p; }
  const VarSet *unionVars(const VarSet *x, const VarSet *y) {
    if (x == y || y->empty()) return x; if (x->empty()) return y;
    VarSet r; std::set_union(x->begin(), x->end(), y->begin(), y->end(), std::back_inserter(r)); return internVars(r);
  }
  E raw(Op op, unsigned w, uint64_t val, E a, E b = nullptr, E c = nullptr) {
    Key k{op, (uint8_t)w, val, a, b, c};
    auto it = tab.find(k); if (it != tab.end()) return it->second;
    E e = new Expr{op, (uint8_t)w, nextId++, val, a, b, c, emptyVars, 0, 0};
    const VarSet *vs = emptyVars;
    if (op == OVar) vs = internVars(VarSet{(uint32_t)val});
    if (a) vs = unionVars(vs, a->vars); if (b) vs = unionVars(vs, b->vars); if (c) vs = unionVars(vs, c->vars);
    e->vars = vs; tab[k] = e; return e;
  }
  E K(uint64_t v, unsigned w) { return raw(OConst, w, v & maskw(w), nullptr); }
  std::unordered_map<std::string, E> byName;
  E namedVar(unsigned w, const std::string &name) { auto it = byName.find(name); if (it != byName.end() && it->second->w == w) return it->second; E e = newVar(w, name); byName[name] = e; return e; }
  E newVar(unsigned w, const std::string &name) { uint32_t id = varName.size(); varName.push_back(name); E e = raw(OVar, w, id, nullptr); varExpr.push_back(e); return e; }
};
extern ExprPool P;

static inline bool isK(E e) { return e->op == OConst; }
static inline E toE(const Val &v, unsigned w) { return v.e ? v.e : P.K(v.c, w); }
static inline Val toV(E e) { return isK(e) ? Val(e->val) : Val(e); }

uint64_t foldBin(Op op, uint64_t a, uint64_t b, unsigned w, bool *ok = nullptr);
E mkBin(Op op, E a, E b);
E mkNot(E a);
E mkAndB(E a, E b); // i1
E mkOrB(E a, E b);
E mkIte(E c, E a, E b);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkExtract(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkF(Op op, E a, E b);
typedef std::vector<uint64_t> Table; // 256 entries
E mkTab(E idx, unsigned w, const Table &t);
const Table &tableOf(uint64_t id);
uint64_t evalE(E e, const std::unordered_map<uint32_t, uint64_t> &m, EvalMemo &memo);
std::string show(E e, int depth = 6);
